"""Reference for the touchdown stages: a Timoshenko cantilever on end springs under the normal load.

Sign conventions of ref: V = S (w' + psi), M = D psi', V' = -q, M' = V.  The root (s = 0) is the
crack tip, elastically clamped by the supported part; the far end (s = x) is the cut end.
"""
import numpy as np


class Cantilever:
    def __init__(self, m, L, phi, cf, ratio=1000.0):
        lam = m.lam
        self.m, self.L, self.ratio = m, L, ratio
        self.D = lam.D - lam.B**2 / lam.A
        self.S = lam.S
        qn, _, pn, _ = m.loads(phi)
        self.q = qn + pn
        self.tc = cf * m.t - self.q / m.kn
        self._cache = {}

    def springs(self, length, kfac=1.0):
        key = (length, kfac)
        if key not in self._cache:
            self._cache[key] = (0.0, 0.0) if length < 1e-3 else \
                (self.m.spring(length, "rot", kfac), self.m.spring(length, "trans", kfac))
        return self._cache[key]

    def tip(self, x, V0, M0, kR, kN):
        """w, w', psi, M, V at the cut end."""
        q, D, S = self.q, self.D, self.S
        psi0, w0 = M0 / kR, V0 / kN
        V = V0 - q * x
        M = M0 + V0 * x - q * x**2 / 2
        psi = psi0 + (M0 * x + V0 * x**2 / 2 - q * x**3 / 6) / D
        w = w0 + (V0 * x - q * x**2 / 2) / S - psi0 * x - (M0 * x**2 / 2 + V0 * x**3 / 6 - q * x**4 / 24) / D
        return w, V / S - psi, psi, M, V

    def sag(self, x):
        """Deflection of the free cut end over tc minus one (zero: first contact)."""
        kR, kN = self.springs(self.L - x)
        return self.tip(x, self.q * x, -self.q * x**2 / 2, kR, kN)[0] / self.tc - 1

    def _tangent(self, x, root, kRr):
        kR, kN = root
        f = lambda V0, M0: np.array(self.tip(x, V0, M0, kR, kN))
        z0 = f(0.0, 0.0)
        A = np.stack([f(1.0, 0.0) - z0, f(0.0, 1.0) - z0], axis=1)
        # w = tc and M + kRr psi = 0; slope is the residual
        Vs = self.q * x
        rows = np.array([[A[0, 0] * Vs, A[0, 1] * Vs * x], [(A[3, 0] + kRr * A[2, 0]) * Vs, (A[3, 1] + kRr * A[2, 1]) * Vs * x]])
        rhs = np.array([self.tc - z0[0], -(z0[3] + kRr * z0[2])])
        sc = np.abs(rows).max(axis=1)
        V0, M0 = np.linalg.solve(rows / sc[:, None], rhs / sc) * np.array([Vs, Vs * x])
        t = f(V0, M0)
        return t[1] * x / self.tc

    def full(self, x):
        """Slope at the touching, moment-free cut end (zero: full contact)."""
        return self._tangent(x, self.springs(self.L - x), 0.0)

    def rested(self, x, a):
        """Slope at the end of the touchdown length x of a crack of length a."""
        return self._tangent(x, self.springs(self.L - a), self.springs(a - x, self.ratio)[0])


def roots(f, lo, hi, n=60):
    """All sign changes of f on a logarithmic grid, refined by bisection."""
    from scipy.optimize import brentq
    xs = np.geomspace(lo, hi, n)
    fs = np.array([f(x) for x in xs])
    return [brentq(f, xs[i], xs[i + 1], xtol=1e-10, rtol=1e-12) for i in range(n - 1) if fs[i] * fs[i + 1] < 0]


def params(rng, sc, lo=1.5):
    """Touchdown parameters for a scenario: column long enough for contact, tc clearly positive."""
    from rv import gen
    m = gen.model(sc)
    qn = sum(m.loads(sc["phi"])[::2])
    cf = float(rng.uniform(0.1, 0.95))
    tc = cf * m.t - qn / m.kn
    if tc <= 0.03 * m.t:
        return None
    D = m.lam.D - m.lam.B**2 / m.lam.A
    a1 = (8 * D * tc / qn) ** 0.25           # stiff clamp: upper bound of first contact
    return {"cf": cf, "ratio": float(gen.pick(rng, 1000.0, 1000.0, 100.0, 10000.0, rng.uniform(2, 3000), gen.logu(rng, 1.5, 100))), "a1est": a1,
            "L": a1 * float(gen.pick(rng, rng.uniform(lo, 4), rng.uniform(4, 15)))}
