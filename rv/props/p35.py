"""P35: results are dimensionally consistent: geometrically similar experiments have similar solutions."""
import numpy as np
from rv import gen, meta, touch
from rv.props import p01

RULE = ("random experiments (all systems, touchdown stages, arbitrary segment lists) and the same experiments with all lengths, moduli and loads scaled by random factors; "
        "every observable must scale by its dimension; non-trivial = pair of experiments compared")
REQUIRED = {"similar:state2": 1000, "similar:sig": 500, "similar:gdif": 300, "similar:Sxx": 200, "similar:N": 500, "similar:internal": 20, "similar:k rot rested": 20, "similar:ginc": 100,
            "stage": 20, "grid": 100, "tools": 20, "stage:B": 5, "stage:C": 5, "surface-load": 20, "phi-": 20, "phi+": 20, "sys:skiers": 20, "sys:vpst-": 10,
            "small": 50, "large": 50}
N = {"quick": 900, "thorough": 18000}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        if rng.random() < 0.2:
            sc = p01.gen_touch(rng)
            if sc is None:
                continue
            if isinstance(sc["layers"], str):
                continue
        else:
            sc = gen.scenario(rng, profile=0.0)
            if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.4:
                sc["direct"] = gen.free_li(rng)
        sc["s"] = float(gen.pick(rng, *2.0 ** np.array([-6, -4, -3, -2, -1, 1, 2, 3, 4, 6]), gen.logu(rng, 0.02, 50)))
        # densities change by r: keep them physical
        sc["r"] = float(gen.pick(rng, 0.5, 0.25, 1.0, 1.5, rng.uniform(0.2, 1.8)))
        sc["dz"] = float(rng.uniform(4.1, 41.3))
        sc["seed"] = int(rng.integers(1 << 30))
        sc["tools"] = bool(rng.random() < 0.08)
        out.append(sc)
    return out


def similar(sc, s, r):
    """The experiment with lengths times s, densities times r, moduli and stresses times c = r s."""
    c = r * s
    b = sc.get("beam", {})
    C0, C1 = b.get("C0", 6.5), b.get("C1", 4.4)
    w = sc.get("weak", {})
    q = dict(sc)
    q["layers"] = [[a * r, h * s] for a, h in sc["layers"]]
    q["beam"] = {**b, "C0": C0 * c * r**-C1, "C1": C1}
    q["weak"] = {**w, "t": w.get("t", 30.0) * s, "E": w.get("E", 0.25) * c}
    q["p"] = sc["p"] * c
    seg = dict(sc["seg"])
    for k in ("L", "a"):
        if k in seg:
            seg[k] = seg[k] * s
    if "m" in seg:
        seg["m"] = seg["m"] * c * s
    if "li" in seg:
        seg["li"], seg["mi"] = [v * s for v in seg["li"]], [v * c * s for v in seg["mi"]]
    q["seg"] = seg
    if "direct" in sc:
        d = sc["direct"]
        q["direct"] = {"li": [v * s for v in d["li"]], "mi": [v * c * s for v in d["mi"]], "ki": d["ki"]}
    return q, c


def run(sc, mon):
    from weac import tools
    m = gen.features(sc, mon)
    s, r = sc["s"], sc["r"]
    q, c = similar(sc, s, r)
    mon.counts["small" if s < 1 else "large"] += 1
    A = meta.observe(sc, sc["seed"], sc["dz"], m)
    B = meta.observe(q, sc["seed"], sc["dz"] * s, m)
    if sc.get("touchdown"):
        mon.tag("stage:%s" % A.mode)
        mon.true("stage", A.mode == B.mode, {"stages": [A.mode, B.mode], "s": s, "c": c})
    # moments of the touchdown spring and root finding lose digits
    meta.compare(mon, "similar", A, B, s, c, 1e-5 if sc.get("touchdown") else 1e-6)
    if np.log2(s) % 1 == 0:
        # grids only depend on relative lengths (exactly scaled lengths avoid rounding of point numbers)
        X, Z, XB = A.o.rasterize_solution(C=A.C, phi=sc["phi"], num=37, **A.segs)
        x, z, xb = B.o.rasterize_solution(C=B.C, phi=sc["phi"], num=37, **B.segs)
        mon.close("grid", np.asarray(x) / s, X, 1e-9)
        mon.close("grid", np.asarray(xb) / s, XB, 1e-9)
    if sc["tools"]:
        def td(v):
            b, w = v.get("beam", {}), v.get("weak", {})
            return np.array(tools.touchdown_distance(layers=np.array(v["layers"]), C0=b.get("C0", 6.5), C1=b.get("C1", 4.4), Ewl=w.get("E", 0.25), t=w.get("t", 30.0), phi=v["phi"]), float)
        # the collapse height must be positive
        mm = gen.model({**sc, "p": 0.0, "weak": {"t": sc.get("weak", {}).get("t", 30.0), "E": sc.get("weak", {}).get("E", 0.25)}})
        qn = mm.loads(sc["phi"])[0]
        tc = 0.5 * mm.t - qn / mm.kn
        D = mm.lam.D - mm.lam.B**2 / mm.lam.A
        if tc > 0.05 * mm.t and abs(sc["phi"]) < 60:
            a1 = (8 * D * tc / qn) ** 0.25
            # long dummy columns: same number of contact lengths
            # and the contact lengths must lie within the bracket of the root search
            if 5 * a1 * max(1, s) < 4e4 and touch.Cantilever(mm, 1e5, sc["phi"], 0.5).sag(130.0 / min(1, s)) < 0:
                mon.close("tools", td(q) / s, td(sc), 1e-3, detail={"s": s})
