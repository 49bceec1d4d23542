"""P07: superposition and scaling of solutions of the real code."""
import numpy as np
from rv import gen, obs

RULE = ("random scenarios without touchdown, each solved under several load combinations (weight via density with compensated "
        "modulus constant, surface load, every skier separately) and with scaled moduli; non-trivial = at least two load "
        "combinations compared")
REQUIRED = {"superpose-states": 300, "scale-states": 300, "E-states": 300, "skier-alone": 50, "surface-load": 50, "E-gdif": 100,
            "E-ginc": 40, "weight-alone": 100}
N = {"quick": 1560, "thorough": 31200}
TOL = 1e-6


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        sc = gen.scenario(rng, ("pst", "vpst", "skier", "skiers", "skiers"), profile=0.0)
        if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.6:
            sc["direct"] = gen.free_li(rng)
        if not sc["p"] and rng.random() < 0.5:
            sc["p"] = gen.logu(rng, 1e-4, 5e-3)
        sc["s"] = float(gen.logu(rng, 0.05, 20))
        sc["k"] = float(gen.logu(rng, 0.01, 100))
        out.append(sc)
    return out


def variant(sc, weight=1.0, p=None, mi=None, k=1.0, kw=None):
    b = sc.get("beam", {})
    C0, C1 = b.get("C0", 6.5), b.get("C1", 4.4)
    v = dict(sc, layers=[[r * weight, h] for r, h in sc["layers"]],
             beam={**b, "C0": C0 * k * weight**-C1, "C1": C1},
             weak={**sc["weak"], "E": sc["weak"].get("E", 0.25) * (k if kw is None else kw)})
    if p is not None:
        v["p"] = p
    return v


def solve(sc, segs, mi=None):
    o = gen.instance(sc)
    s = dict(segs)
    if mi is not None:
        s["mi"] = mi
    o.calc_segments(phi=sc["phi"], **gen.segkw(sc))
    C = o.assemble_and_solve(phi=sc["phi"], li=s["li"], mi=s["mi"], ki=s["ki"])
    sm = obs.sample(o, sc, s, C, 5)
    return o, C, obs.stack(sm)


def run(sc, mon):
    if "direct" in sc:
        segs = dict(sc["direct"])
        both = None
    else:
        both = gen.instance(sc).calc_segments(phi=sc["phi"], **gen.segkw(sc))
        segs = {k: list(np.asarray(v).tolist()) for k, v in both["crack"].items()}
    m = gen.features(sc, mon, segs)
    mi = list(map(float, segs["mi"]))
    p, s = sc["p"], sc["s"]
    tiny = 1e-9
    o, C, Z = solve(sc, segs)
    # only weight, only surface load, only one skier
    parts = []
    parts.append(solve(variant(sc, p=0.0), segs, [0.0] * len(mi))[2])
    mon.counts["weight-alone"] += 1
    if p:
        parts.append(solve(variant(sc, tiny), segs, [0.0] * len(mi))[2])
    for j, mj in enumerate(mi):
        if mj:
            one = [0.0] * len(mi)
            one[j] = mj
            parts.append(solve(variant(sc, tiny, p=0.0), segs, one)[2])
            mon.counts["skier-alone"] += 1
    tot = np.abs(parts[0])
    for P in parts[1:]:
        tot = tot + np.abs(P)
    sz = m.scales(tot)
    mon.le("superpose-states", np.abs(sum(parts) - Z) / sz[:, None], TOL, {"parts": len(parts)})
    # common factor
    o2, C2, Z2 = solve(variant(sc, s, p=p * s), segs, [x * s for x in mi])
    sz = m.scales(Z)
    mon.le("scale-states", np.abs(Z2 / s - Z) / sz[:, None], TOL, {"s": s})
    sw = max(m.kn * sz[2], m.kt * (sz[0] + m.lam.h / 2 * sz[4] + m.t / 2 * sz[3]))
    mon.le("scale-stress", np.abs(o2.sig(Z2) / s - o.sig(Z)) / sw, TOL, "sig")
    mon.le("scale-stress", np.abs(o2.tau(Z2) / s - o.tau(Z)) / sw, TOL, "tau")
    fs = obs.force_scales(m, Z, sc["phi"])
    for i, fn in enumerate("NMV"):
        mon.le("scale-forces", np.abs(getattr(o2, fn)(Z2) / s - getattr(o, fn)(Z)) / fs[i], TOL, fn)
    g1 = o.gdif(C, sc["phi"], li=segs["li"], ki=segs["ki"])
    g2 = o2.gdif(C2, sc["phi"], li=segs["li"], ki=segs["ki"])
    sg = max(np.max(np.abs(g1)), 1e-9)
    mon.le("scale-gdif", np.abs(g2 / s**2 - g1) / sg, 1e-5)
    # moduli
    k = sc["k"]
    o3, C3, Z3 = solve(variant(sc, k=k), segs)
    mon.le("E-states", np.abs(Z3 * k - Z) / sz[:, None], TOL, {"k": k})
    mon.le("E-stress", np.abs(o3.sig(Z3) - o.sig(Z)) / sw, TOL)
    mon.le("E-stress", np.abs(o3.tau(Z3) - o.tau(Z)) / sw, TOL)
    for i, fn in enumerate("NMV"):
        mon.le("E-forces", np.abs(getattr(o3, fn)(Z3) - getattr(o, fn)(Z)) / fs[i], TOL, fn)
    g3 = o3.gdif(C3, sc["phi"], li=segs["li"], ki=segs["ki"])
    mon.le("E-gdif", np.abs(g3 * k - g1) / sg, 1e-5)
    if both is not None:
        b = both["both"]
        crack = np.asarray(b["k0"]) & ~np.asarray(b["ki"])
        da = float(np.asarray(b["li"])[crack].sum())
        if da > 1:
            nc = dict(both["nocrack"])
            i1 = o.ginc(solve_on(o, sc, nc), C, sc["phi"], **b)
            i3 = o3.ginc(solve_on(o3, sc, nc), C3, sc["phi"], **b)
            nseg = int(crack.sum())
            tol = 4e-3 * max(np.max(np.abs(i1)), 1e-12) + 2 * nseg * 1e-3 * (1 + k) / (2 * da)
            mon.le("E-ginc", np.max(np.abs(i3 * k - i1)), tol, [i1, i3, k])


def solve_on(o, sc, segs):
    return o.assemble_and_solve(phi=sc["phi"], **segs)
