"""P05: laminate properties against the through-thickness integrals of the layers."""
import numpy as np
from rv import gen, ref

RULE = ("random layerings (1 to 60 layers, database profiles, random Poisson ratio and modulus constants); non-trivial = a "
        "layering whose thickness, centroid, weight and section stiffnesses were observed through attributes and through "
        "the section forces of unit states, plus metamorphic variants (split, merged, reversed, rescaled layers)")
REQUIRED = {"laminate": 500, "unit-states": 500, "split": 300, "reverse": 300, "scale": 300, "layers:1": 10, "layers:5+": 50,
            "database-profile": 10, "plies": 100}
N = {"quick": 3000, "thorough": 60000}
TOL = 1e-9


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.material(rng, beam=0.6, extreme=0.1)
        if i % 17 == 0:
            sc["layers"] = gen.layers(rng, 20, 60)
        sc["split"] = [float(v) for v in rng.uniform(0.05, 0.95, 4)]
        sc["s"] = float(gen.logu(rng, 0.3, 3))
        out.append(sc)
    return out


def observe(o):
    """h, zs, A, B, D, kA55, total weight through the public interface."""
    e = np.eye(6)
    un, up, wn, ps = e[:, [1]], e[:, [5]], e[:, [3]], e[:, [4]]
    f = lambda fn, z: float(np.asarray(fn(z)).ravel()[0])
    return {"h": float(o.h), "zs": float(o.zs), "A": f(o.N, un), "B": f(o.N, up), "D": f(o.M, up), "S": f(o.V, wn),
            "B2": f(o.M, un), "S2": f(o.V, ps), "zero": [f(o.N, wn), f(o.M, ps), f(o.V, un), f(o.V, up), f(o.N, ps), f(o.M, wn)],
            "q": float(o.get_weight_load(0.0)[0])}


def scales(lam):
    A = lam.A
    return {"h": lam.h, "zs": lam.h, "A": A, "B": A * lam.h, "B2": A * lam.h, "D": A * lam.h**2, "S": lam.S, "S2": lam.S, "q": lam.q}


def same(mon, name, got, want, sc, detail=None):
    for k, s in sc.items():
        mon.le(name, abs(got[k] - want[k]) / abs(s), TOL, {"quantity": k, "got": got[k], "want": want[k], "info": detail})


def run(sc, mon):
    m = gen.features(sc, mon)
    lam = m.lam
    o = gen.instance(sc)
    want = {"h": lam.h, "zs": lam.zs, "A": lam.A, "B": lam.B, "B2": lam.B, "D": lam.D, "S": lam.S, "S2": lam.S, "q": lam.q}
    ss = scales(lam)
    got = observe(o)
    # small but meaningful quantities are judged on their own scale as well
    same(mon, "unit-states", got, want, ss)
    mon.true("no-cross-coupling", np.allclose(got["zero"], 0, atol=0), got["zero"])
    attrs = {"h": o.h, "zs": o.zs, "A": o.A11, "B": o.B11, "B2": o.B11, "D": o.D11, "S": o.kA55, "S2": o.kA55, "q": lam.q}
    same(mon, "laminate", {k: float(v) for k, v in attrs.items()}, want, ss)
    for ph in (sc["phi"], 0.0, -sc["phi"]):
        qn, qt = o.get_weight_load(ph)
        pn, pt = o.get_surface_load(ph)
        mon.close("loads", [qn, qt, pn, pt], m.loads(ph), 1e-12, scale=lam.q + m.p)
    z = np.asarray(o.get_ply_coordinates(), float)
    mon.close("plies", z, np.concatenate([lam.top, [lam.h / 2]]), 1e-12, scale=lam.h)
    mon.close("layers", np.asarray(o.slab)[:, [0, 1, 2, 4]], np.column_stack([lam.rho, lam.t, lam.E, 0 * lam.E + lam.nu]), 1e-12)
    if isinstance(sc["layers"], str):
        return
    L, b = sc["layers"], sc.get("beam", {})

    def variant(rows, **beam):
        v = dict(sc, layers=rows)
        v["beam"] = {**b, **beam}
        return observe(gen.instance(v))
    # split
    rows = []
    for i, (r, h) in enumerate(L):
        f = sc["split"][i % 4]
        rows += [[r, h * f], [r, h * (1 - f)]]
    same(mon, "split", variant(rows), got, ss)
    # merge neighbours of equal density
    rows = [list(L[0])]
    for r, h in L[1:]:
        if r == rows[-1][0]:
            rows[-1][1] += h
        else:
            rows.append([r, h])
    same(mon, "split", variant(rows), got, ss, "merged")
    # reverse
    rev = variant(L[::-1])
    flip = dict(got, zs=-got["zs"], B=-got["B"], B2=-got["B2"])
    same(mon, "reverse", rev, flip, ss)
    # modulus constant, thickness and weight scaling
    s = sc["s"]
    x = variant(L, C0=b.get("C0", 6.5) * s)
    same(mon, "scale", x, dict(got, **{k: got[k] * s for k in ("A", "B", "B2", "D", "S", "S2")}), {k: v * max(s, 1) for k, v in ss.items()}, "C0")
    x = variant([[r, h * s] for r, h in L])
    pw = {"h": 1, "zs": 1, "A": 1, "B": 2, "B2": 2, "D": 3, "S": 1, "S2": 1, "q": 1}
    same(mon, "scale", x, {k: got[k] * s**p for k, p in pw.items()}, {k: v * max(s**pw[k], 1) for k, v in ss.items()}, "thickness")
    C0, C1 = b.get("C0", 6.5), b.get("C1", 4.4)
    x = variant([[r * s, h] for r, h in L], C0=C0 * s**-C1)
    same(mon, "scale", x, dict(got, q=got["q"] * s), {k: v * max(s, 1) for k, v in ss.items()}, "density")
