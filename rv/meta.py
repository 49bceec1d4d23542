"""Everything observable about one experiment, with dimensions and magnitudes, for metamorphic comparisons."""
import contextlib, io
import numpy as np
from . import gen, obs

# powers of (length, modulus) of the six solution components
STATE = np.array([1, 0, 1, 0, 0, -1])


def quiet_free(f, *a, **k):
    """The same without touching the process-wide stdout (for use in threads: callers silence it once)."""
    return f(*a, **k)


class Observation(dict):
    """name -> (value, power of length, power of modulus, magnitude)"""


def quiet(f, *a, **k):
    """Short end segments of skier systems are announced on stdout."""
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def observe(sc, seed, dz, m, eps=None, floor=0.0, parts=("states", "fields", "slab", "err", "springs", "potentials", "tools")):
    """Observe sc; relative positions follow from seed. eps shifts inner evaluation positions by a relative amount."""
    from weac import tools
    rng = np.random.default_rng(seed)
    out = Observation()
    phi = sc["phi"]
    o = gen.instance(sc)
    every = o.calc_segments(phi=phi, **gen.segkw(sc))
    direct = "direct" in sc
    segs = sc["direct"] if direct else every["crack"]
    C = quiet(o.assemble_and_solve, phi=phi, **segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"], bool)
    rel = np.concatenate([[0.0, 0.5, 1.0], rng.uniform(0, 1, 3)])
    if eps:
        rel = rel + eps * (0.5 - rel)
    out.mode, out.o, out.C, out.segs, out.every = o.mode, o, C, segs, every
    out.z = {}
    zs = []
    for i, l in enumerate(li):
        if l > 0:
            Z = np.asarray(gen.states(o, sc, segs, C, i, rel * l), float)
            out.z[i] = Z
            zs.append(Z)
    Z = np.hstack(zs)
    out.Z = Z
    H, t, lam = m.lam.h, m.t, m.lam
    S = m.scales(Z)
    fs = obs.force_scales(m, Z, phi)
    if floor:
        # magnitudes of a response to the loads that may be there
        ell = 1.0 / m.lmax()
        q = float(np.sum(np.abs(m.loads(phi)))) + 80e-3 * 9810 / 1000 / (20 * ell)
        w0 = q / min(m.kn, m.kt)
        S = np.maximum(S, floor * np.array([w0, w0 / ell, w0, w0 / ell, w0 / ell, w0 / ell**2]))
        fs = np.maximum(fs, floor * np.array([q * ell, q * ell**2, q * ell]))
        # section forces are differences of large numbers
        fs = fs + 0.01 * np.array([m.lam.A * (S[1] + m.lam.h * S[5]), m.lam.A * m.lam.h * (S[1] + m.lam.h * S[5]), m.lam.S * (S[3] + S[4])])
    for i, Zi in out.z.items():
        for r in range(6):
            out["state%d:%d" % (r, i)] = (Zi[r], STATE[r], 0, S[r])
    out["lengths"] = (li, 1, 0, li.sum())
    if sc["system"] in gen.PST and not direct:
        out["touchdown length"] = (float(o.td), 1, 0, li.sum())
    # field quantities
    ss = m.kn * S[2]
    sh = m.kt * (S[0] + H * S[4] + t * S[3])
    sw = ss + sh
    out.sw = sw
    z0 = float(rng.uniform(-0.5, 0.5))
    if "fields" in parts:
        h = o.h
        for k, v, pl, pc, s in (
                ("w", o.w(Z), 1, 0, S[2]), ("u top", o.u(Z, z0=-h / 2), 1, 0, S[0] + H * S[4]), ("u", o.u(Z, z0=z0 * h), 1, 0, S[0] + H * S[4]),
                ("du_dx", o.du_dx(Z, z0 * h), 0, 0, S[1] + H * S[5]), ("psi", o.psi(Z, unit="deg"), 0, 0, 57.3 * S[4]),
                ("N", o.N(Z), 1, 1, fs[0]), ("M", o.M(Z), 2, 1, fs[1]), ("V", o.V(Z), 1, 1, fs[2]),
                ("sig", o.sig(Z), 0, 1, sw), ("tau", o.tau(Z, unit="kPa"), 0, 1, 1e3 * sw), ("eps", o.eps(Z), 0, 0, sw / m.kn / t), ("gamma", o.gamma(Z), 0, 0, sw / m.kt / t),
                ("Gi", o.Gi(Z, unit="J/m^2"), 1, 1, 1e3 * sw**2 / m.kn), ("Gii", o.Gii(Z), 1, 1, sw**2 / m.kt),
                ("pw", o.principal_stress_weaklayer(Z, val="min"), 0, 1, 1e3 * sw), ("h", o.h, 1, 0, H), ("zs", o.zs, 1, 0, H)):
            out[k] = (v, pl, pc, s)
        K, q = m.system(True, phi)
        d = np.asarray(o.dz_dx(Z, phi), float)
        b1 = np.abs(K) @ S + np.abs(q)
        b2 = np.abs(K) @ b1
        d2 = np.asarray(o.dz_dxdx(Z, phi), float)
        for r in range(6):
            out["dz%d" % r] = (d[r], STATE[r] - 1, 0, b1[r])
            out["dzz%d" % r] = (d2[r], STATE[r] - 2, 0, b2[r])
    bed = [i for i in out.z if ki[i]]
    if "slab" in parts and bed:
        Y = out.z[bed[int(rng.integers(len(bed)))]]
        K, q = m.system(True, phi)
        y1 = np.abs(K) @ S + np.abs(q)
        y2 = np.abs(K) @ y1
        loads = float(np.sum(np.abs(m.loads(phi))))
        Q = lam.Q.max()
        sx = Q * (S[1] + H * S[5]) + loads
        st = Q * H * (y1[1] + H * y1[5]) + loads
        sz = Q * H * H * (y2[1] + H * y2[5]) + loads
        for k, v, s in (("Sxx", o.Sxx(Y, phi, dz=dz), 1e3 * sx), ("Txz", o.Txz(Y, phi, dz=dz), 1e3 * st), ("Szz", o.Szz(Y, phi, dz=dz), 1e3 * sz),
                        ("Ps", o.principal_stress_slab(Y, phi, dz=dz, val="max"), 1e3 * (sx + st + sz))):
            out[k] = (v, 0, 1, s)
    if "err" in parts:
        g = np.asarray(quiet(o.gdif, C, phi, li=segs["li"], ki=segs["ki"]), float)
        Zt = np.hstack([Z[:, :1]] + [out.z[i] for i in out.z])
        St = m.scales(Zt)
        out["gdif"] = (g, 1, 1, max(np.abs(g).max(), 1e-6 * sw**2 * (1 / m.kn + 1 / m.kt)))
        if not direct:
            b = every["both"]
            crack = np.asarray(b["k0"], bool) & ~np.asarray(b["ki"], bool)
            lc = np.asarray(b["li"], float)[crack]
            if lc.sum() > 0:
                C0 = quiet(o.assemble_and_solve, phi=phi, **every["nocrack"])
                out["ginc"] = (np.asarray(o.ginc(C0, C, phi, li=b["li"], ki=b["ki"], k0=b["k0"]), float), 1, 1, ("ginc", lc))
    if "springs" in parts and sc.get("touchdown"):
        for sup in ("supported", "rested"):
            v = o.substitute_stiffness(0.4 * li.sum(), sup, "rot")
            out["k rot " + sup] = (v, 2, 1, v)
            v = o.substitute_stiffness(0.4 * li.sum(), sup, "trans")
            out["k trans " + sup] = (v, 0, 1, v)
    if "potentials" in parts and sc["system"] in gen.PST and not direct and sc.get("touchdown"):
        kw = {k: every["both"][k] for k in ("li", "mi", "ki", "k0")}
        L = sc["seg"]["L"]
        pi = o.internal_potential(C, phi, L, **kw)
        pe = o.external_potential(C, phi, L, **kw)
        out["internal"] = (pi, 2, 1, abs(pi) + 1e-3 * abs(pe))
        out["external"] = (pe, 2, 1, abs(pe) + abs(pi))
    if "tools" in parts:
        xs, zc, w = tools.calc_vertical_bc_center_of_gravity(np.asarray(o.slab, float), phi)
        if phi != 0:
            out["wedge x"] = (xs, 1, 0, H)
            out["wedge z"] = (zc, 1, 0, H)
        out["wedge mass"] = (w, 1, 1, float(np.sum(lam.t * lam.rho)) * 1e-12 * H)
    return out


def compare(mon, name, A, B, s=1.0, c=1.0, tol=1e-6, info=None, skip=()):
    """B observed on the experiment scaled by s (lengths) and c (moduli): must agree with A."""
    for k, (a, pl, pc, mag) in A.items():
        if k.split(":")[0] in skip:
            continue
        if not mon.true("same observables", k in B, {"missing": k, **(info or {})}):
            continue
        b = np.asarray(B[k][0], float) / (s**pl * c**pc)
        a = np.asarray(a, float)
        if not mon.true("shape", a.shape == b.shape, {"quantity": k, "shapes": [a.shape, b.shape], **(info or {})}):
            continue
        if isinstance(mag, tuple):
            # quad works with absolute and relative tolerance 1e-3
            lc = mag[1]
            lim = 4e-3 * max(np.abs(a).max(), np.abs(b).max()) + 2e-3 * lc.size * (1 + 1 / (s * c)) / (2 * lc.sum()) + 1e-15
            mon.le(name + ":ginc", np.abs(a - b) / lim, 1.0, {"quantity": k, "got": b, "want": a, **(info or {})})
            continue
        # one number per quantity: the magnitude of what enters it
        mag = mag + 1e-300
        mon.le(name + ":" + k.split(":")[0], np.abs(a - b) / mag, tol, {"quantity": k, "s": s, "c": c, **(info or {})})
