"""P02: section forces and displacements at the ends of solved systems."""
import numpy as np
from rv import gen, obs

RULE = ("random scenarios of all systems, with calc_segments layouts and arbitrary direct segment lists with supported or "
        "unsupported ends; non-trivial = both ends observed; end section forces (from observed states and the reference "
        "laminate) and end displacements are compared with the values the system type prescribes")
REQUIRED = {"pst-end": 100, "vpst-end": 60, "skier-end": 60, "unsupported-end": 20, "supported-end": 50, "compare": 100}
N = {"quick": 2520, "thorough": 50400}
TOL = 1e-7


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.scenario(rng, ("pst", "vpst", "vpst", "skier", "skiers"), extreme=0.1)
        if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.45:
            sc["direct"] = gen.free_li(rng)
        if sc["system"] in gen.VPST and rng.random() < 0.3:
            sc["touchdown"] = bool(rng.random() < 0.5) and bool(sc["phi"] < 50) and "direct" not in sc
            if sc["touchdown"]:
                sc["touchdown"] = feasible(sc)
        sc["fresh"] = bool(rng.random() < 0.4)
        out.append(sc)
    return out


def feasible(sc):
    """Touchdown thresholds exist well inside the column."""
    m = gen.model(sc)
    qn = sum(m.loads(sc["phi"])[::2])
    tc = 0.5 * m.t - qn / m.kn
    if tc <= 0.05 * m.t:
        return False
    D = m.lam.D - m.lam.B**2 / m.lam.A
    a1 = (8 * D * tc / qn) ** 0.25
    sc["seg"] = {"L": 6 * a1 + 3000, "a": 1.6 * a1}
    return True


def run(sc, mon):
    o = gen.instance(sc)
    if "direct" in sc:
        segs = sc["direct"]
        if not sc["fresh"]:
            o.calc_segments(phi=sc["phi"], **gen.segkw(sc))
    else:
        segs = o.calc_segments(phi=sc["phi"], **gen.segkw(sc))["crack"]
    C = o.assemble_and_solve(phi=sc["phi"], **segs)
    m = gen.features(sc, mon, segs)
    sm = obs.sample(o, sc, segs, C)
    Z = obs.stack(sm)
    fs, zs = obs.force_scales(m, Z, sc["phi"]), m.scales(Z)
    xq, zq, xb = gen.raster(o, sc, segs, C, num=20)
    first, last = sm[0][2][:, :1], sm[-1][2][:, -1:]
    mon.true("raster-ends", np.allclose(zq[:, :1] / zs[:, None], first / zs[:, None], rtol=0, atol=1e-8)
             and np.allclose(zq[:, -1:] / zs[:, None], last / zs[:, None], rtol=0, atol=1e-8))
    system = sc["system"]
    for name, z, k in (("left", first, segs["ki"][0]), ("right", last, segs["ki"][-1])):
        mon.tag("supported-end" if k else "unsupported-end")
        mon.counts["supported-end" if k else "unsupported-end"] += 1
        f = np.array(obs.section(m, z)).ravel()
        rep = np.array([o.N(z), o.M(z), o.V(z)]).ravel()
        if system in gen.PST:
            mon.le("pst-end", np.abs(f) / fs, TOL, {"end": name, "NMV": f})
            mon.le("pst-end", np.abs(rep) / fs, TOL, {"end": name, "reported": rep})
        elif system in gen.VPST:
            want = m.bc_rows("wedge", sc["phi"])[1]
            # compare relative to the wedge forces themselves, above rounding of the solution
            sc_w = np.maximum(np.abs(want), 1e-5 * fs)
            mon.le("vpst-end", np.abs(f - want) / sc_w, 1e-4, {"end": name, "NMV": f, "want": want})
            mon.le("vpst-end", np.abs(rep - want) / sc_w, 1e-4, {"end": name, "reported": rep})
        else:
            want = m.particular(sc["phi"])
            mon.le("skier-end", np.abs(z.ravel() - want)[[0, 2, 4]] / zs[[0, 2, 4]], TOL, {"end": name})
    # whole solution against the independently solved boundary value problem
    if sc.get("touchdown"):
        mon.tag("vpst+touchdown")
    S = gen.reference(sc, segs, m)
    for i, x, Zi in sm:
        mon.le("compare", np.abs(Zi - S.at(i, x)) / zs[:, None], 1e-6, {"segment": i})
