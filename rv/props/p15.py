"""P15: principal stresses are eigenvalues of the reported stress states."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems plus random synthetic states; principal stresses compared with numerically computed eigenvalues of the "
        "reported 2x2 stress tensors, normalization with independently computed strengths; non-trivial = states at several positions")
REQUIRED = {"slab": 300, "weak": 300, "slab-normalized": 150, "weak-normalized": 150, "refused": 100, "unit-invariant": 150,
            "layers:5+": 20, "phi-": 10, "phi+": 10}
N = {"quick": 1560, "thorough": 31200}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.05)
    for sc in out:
        sc["dz"] = float(gen.pick(rng, 2.0, 5.0, 10.0, rng.uniform(0.7, 40)))
        sc["sc"] = float(gen.pick(rng, 2.6, 1.0, rng.uniform(0.3, 20)))
        sc["seed"] = int(rng.integers(1 << 30))
    return out


def refused(f, *a, **kw):
    try:
        f(*a, **kw)
    except ValueError:
        return True
    return False


def eig(xx, xz, zz):
    A = np.empty(xx.shape + (2, 2))
    A[..., 0, 0], A[..., 1, 1], A[..., 0, 1], A[..., 1, 0] = xx, zz, xz, xz
    w = np.linalg.eigvalsh(A)
    return w[..., 0], w[..., 1]


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    lam, phi, dz = m.lam, sc["phi"], sc["dz"]
    rng = np.random.default_rng(sc["seed"])
    Z = obs.stack(obs.sample(o, sc, segs, C, 4))
    # synthetic states of the same magnitude, including pure and zero components
    R = rng.normal(size=(6, 8)) * np.abs(Z).max(axis=1, keepdims=True)
    R[:, 0] = 0.0
    R[[0, 1, 3, 4, 5], 1] = 0.0
    R[2, 2] = 0.0
    for Zi in (Z, R):
        Zc = Zi.copy()
        mesh = np.asarray(o.get_zmesh(dz=dz))
        zi = mesh[:, 0]
        layer = np.concatenate([[0], np.cumsum(np.diff(zi) < 1e-9 * lam.h)])
        st = 240.0 * (lam.rho[layer] / 917.0) ** 2.44
        norm = {}
        for unit, f in (("kPa", 1.0), ("MPa", 1e-3), (None, 1.0)):
            kw = {} if unit is None else {"unit": unit}
            S = [np.asarray(g(Zi, phi, dz=dz, **kw)) for g in (o.Sxx, o.Txz, o.Szz)]
            scale = sum(np.abs(s).max() for s in S)
            lo, hi = eig(*S)
            for val, want in (("max", hi), ("min", lo)):
                mon.le("slab", np.abs(o.principal_stress_slab(Zi, phi, dz=dz, val=val, **kw) - want), 1e-11 * scale + 1e-300, {"unit": unit, "val": val})
            mon.le("slab", np.abs(o.principal_stress_slab(Zi, phi, dz=dz, **kw) - hi), 1e-11 * scale + 1e-300, {"unit": unit, "val": "default"})
            nm = np.asarray(o.principal_stress_slab(Zi, phi, dz=dz, val="max", normalize=True, **kw))
            mon.le("slab-normalized", np.abs(nm - hi / (st * f)[:, None]), 1e-11 * scale / (st.min() * f) + 1e-300, {"unit": unit})
            sg, ta = np.asarray(o.sig(Zi, **(kw or {"unit": "kPa"}))), np.asarray(o.tau(Zi, **(kw or {"unit": "kPa"})))
            ws = np.abs(sg).max() + np.abs(ta).max()
            wlo, whi = eig(np.zeros_like(sg), ta, sg)
            for val, want in (("max", whi), ("min", wlo)):
                mon.le("weak", np.abs(o.principal_stress_weaklayer(Zi, val=val, **kw) - want), 1e-11 * ws + 1e-300, {"unit": unit, "val": val})
            mon.le("weak", np.abs(o.principal_stress_weaklayer(Zi, **kw) - wlo), 1e-11 * ws + 1e-300, {"unit": unit, "val": "default"})
            wn = np.asarray(o.principal_stress_weaklayer(Zi, sc=sc["sc"], val="min", normalize=True, **kw))
            mon.le("weak-normalized", np.abs(wn - wlo / (sc["sc"] * f)), 1e-11 * ws / (sc["sc"] * f) + 1e-300, {"unit": unit, "sc": sc["sc"]})
            wd = np.asarray(o.principal_stress_weaklayer(Zi, normalize=True, **kw))
            mon.le("weak-normalized", np.abs(wd - wlo / (2.6 * f)), 1e-11 * ws / (2.6 * f) + 1e-300, {"unit": unit, "sc": "default"})
            norm[unit] = (nm, wn)
            nscale, wscale = scale / (st.min() * f), ws / (sc["sc"] * f)
            mon.true("refused", refused(o.principal_stress_slab, Zi, phi, dz=dz, val="min", normalize=True, **kw), "slab min normalized")
            mon.true("refused", refused(o.principal_stress_weaklayer, Zi, val="max", normalize=True, **kw), "weak max normalized")
            mon.true("refused", refused(o.principal_stress_slab, Zi, phi, dz=dz, val="mid", **kw), "slab unknown component")
            mon.true("refused", refused(o.principal_stress_weaklayer, Zi, val="both", **kw), "weak unknown component")
        for u in ("MPa", None):
            mon.close("unit-invariant", norm[u][0], norm["kPa"][0], 1e-10, nscale)
            mon.close("unit-invariant", norm[u][1], norm["kPa"][1], 1e-10, wscale)
        mon.true("inputs-unmodified", np.array_equal(Zc, Zi))
