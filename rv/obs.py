"""Shared observation helpers."""
import numpy as np
from . import gen


def section(m, Z):
    """Section forces N, M, V of states by the reference laminate."""
    return [r @ Z for r in m.forces()]


def force_scales(m, Z, phi):
    """Magnitudes of N, M, V in a configuration (never zero)."""
    N, M, V = section(m, Z)
    ell = 1.0 / m.lmax()
    qn, qt, pn, pt = m.loads(phi)
    F = max(np.nanmax(np.abs(N)), np.nanmax(np.abs(V)), np.nanmax(np.abs(M)) / max(m.lam.h, ell),
            (abs(qn) + abs(pn) + abs(qt) + abs(pt)) * ell)
    sN = max(np.nanmax(np.abs(N)), 1e-3 * F)
    sV = max(np.nanmax(np.abs(V)), 1e-3 * F)
    sM = max(np.nanmax(np.abs(M)), 1e-3 * F * ell)
    return np.array([sN, sM, sV])


def weak(m, Z):
    """Weak-layer stresses sigma, tau of states by the reference springs."""
    sig = -m.kn * Z[2]
    tau = m.kt * (Z[0] + m.lam.h / 2 * Z[4] - m.t / 2 * Z[3])
    return sig, tau


def sample(o, sc, segs, C, n=9):
    """States of every non-zero segment on n points: list of (i, x, Z)."""
    out = []
    for i, l in enumerate(np.asarray(segs["li"], float)):
        if l > 0:
            x = np.linspace(0, l, n)
            out.append((i, x, gen.states(o, sc, segs, C, i, x)))
    return out


def stack(samples):
    return np.hstack([Z for _, _, Z in samples])


def gauss(a, b, piece, order=6):
    """Composite Gauss-Legendre nodes and weights on [a, b]."""
    n = max(1, int(np.ceil((b - a) / piece)))
    g, w = np.polynomial.legendre.leggauss(order)
    e = np.linspace(a, b, n + 1)
    mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    return (mid[:, None] + half[:, None] * g).ravel(), (half[:, None] * w).ravel()
