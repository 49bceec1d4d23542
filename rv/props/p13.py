"""P13: incremental energy release rate against the crack opening integral of reference solutions."""
import numpy as np
from rv import gen, obs

RULE = ("random pairs of uncracked and cracked configurations (PST, vertical-face PST, skier and multi-segment systems with several "
        "cracks and with cracks present before); ginc is compared with Gauss quadrature of the crack opening integral of observed "
        "states and of the independent reference solutions, and short cracks with gdif; non-trivial = a crack advance > 0")
REQUIRED = {"ginc": 150, "reference": 150, "short-crack": 40, "total-positive": 150, "pre-crack": 10, "multi-crack": 15, "mode-sum": 150,
            "sys:skier": 10, "sys:skiers": 20, "sys:pst-": 5, "sys:-pst": 5, "sys:vpst-": 3, "sys:-vpst": 3}
N = {"quick": 1560, "thorough": 31200}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.scenario(rng, ("pst", "vpst", "skier", "skiers", "skiers"))
        if i % 4 == 0:
            sc["system"] = gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier")
            sc["seg"] = {"L": float(rng.uniform(12000, 20000) if sc["system"] == "skier" else rng.uniform(2000, 6000)),
                         "a": float(rng.uniform(0.02, 1.0)), "short": True}
            if sc["system"] == "skier":
                sc["seg"]["m"] = 0.0 if rng.random() < 0.3 else float(rng.uniform(20, 200))
        elif sc["system"] in gen.PST + gen.VPST and rng.random() < 0.5:
            # both ends and interior cracks, with cracks present before
            d = gen.free_li(rng, nmax=7)
            d["k0"] = [True if k else bool(rng.random() < 0.7) for k in d["ki"]]
            sc["direct"] = d
        out.append(sc)
    return out


def run(sc, mon):
    o = gen.instance(sc)
    kw = dict(sc["seg"])
    short = kw.pop("short", False)
    both = o.calc_segments(phi=sc["phi"], **kw)
    s = sc["direct"] if "direct" in sc else both["both"]
    m = gen.features(sc, mon, s)
    li, mi = np.asarray(s["li"], float), s["mi"]
    ki, k0 = np.asarray(s["ki"], bool), np.asarray(s["k0"], bool)
    adv = k0 & ~ki
    if not k0.any() or not ki.any():
        return
    C0 = o.assemble_and_solve(phi=sc["phi"], li=s["li"], mi=mi, ki=s["k0"])
    C1 = o.assemble_and_solve(phi=sc["phi"], li=s["li"], mi=mi, ki=s["ki"])
    kws = {k: (list(v) if li.size % 2 else np.asarray(v)) for k, v in (("li", s["li"]), ("ki", s["ki"]), ("k0", s["k0"]))}
    if not adv.any() or li[adv].sum() == 0:
        return
    G = np.asarray(o.ginc(C0, C1, sc["phi"], **kws), float)
    if not mon.true("shape", G.shape == (3,) and np.isfinite(G).all(), G):
        return
    da = li[adv].sum()
    mon.counts["pre-crack"] += bool((~k0).any())
    mon.counts["multi-crack"] += int(adv.sum()) > 1
    S0 = gen.reference(sc, dict(li=li, mi=mi, ki=k0), m)
    S1 = gen.reference(sc, dict(li=li, mi=mi, ki=ki), m)
    got, ref, mag = np.zeros(2), np.zeros(2), np.zeros(2)
    for j in np.where(adv)[0]:
        if li[j] == 0:
            continue
        x, w = obs.gauss(0, li[j], 1.5 / m.lmax(), 8)
        for acc, za, zb in ((got, gen.states(o, sc, dict(li=li, ki=k0), C0, j, x), gen.states(o, sc, dict(li=li, ki=ki), C1, j, x)),
                            (ref, S0.at(j, x), S1.at(j, x))):
            s0, t0 = obs.weak(m, za)
            s1, t1 = obs.weak(m, zb)
            f = np.array([s0 * s1 / m.kn, t0 * t1 / m.kt]) @ w / (2 * da)
            acc += f
            if acc is got:
                mag += np.abs(np.array([s0 * s1 / m.kn, t0 * t1 / m.kt])) @ w / (2 * da)
    n = int(adv.sum())
    for i in (0, 1):
        # the documented quadrature tolerance (1e-3) bounds the integral of each segment
        tol = 2e-3 * mag[i] + min(n * 1e-3 / (2 * da), 2e-3 * mag.sum()) + 1e-12
        mon.le("ginc", abs(G[1 + i] - got[i]), tol, {"mode": i + 1, "got": G, "want": got})
        mon.le("reference", abs(G[1 + i] - ref[i]), 2 * tol, {"mode": i + 1, "got": G, "want": ref})
    mon.le("mode-sum", abs(G[0] - G[1] - G[2]), 1e-12 * np.abs(G).sum() + 1e-300)
    mon.true("total-positive", G[0] >= -(2e-3 * mag.sum() + 1e-12), {"got": G})
    mon.counts["mode-sum"] += 0
    if short and "direct" not in sc:
        D = np.asarray(o.gdif(C1, sc["phi"], li=s["li"], ki=s["ki"]), float)
        # first order in the crack length
        r = da * m.lmax()
        for i in (1, 2):
            mon.le("short-crack", abs(D[i] - G[i]), (0.01 + 4 * r) * (D[i] + 0.05 * D[0]) + 1e-12, {"mode": i, "gdif": D, "ginc": G, "a": da})
