"""P03: states on both sides of every transition."""
import numpy as np
from rv import gen, obs

RULE = ("random multi-segment systems with zero, one or many skiers at supported, unsupported or tip transitions; "
        "non-trivial = at least one transition observed; jumps of the six states' conjugates are compared with the skier load")
REQUIRED = {"continuity": 200, "jump": 200, "skiers:3": 20, "skiers:1": 20, "skier-on-free": 10, "skier-at-tip": 10,
            "unloaded-transition": 100, "phi-": 10, "phi+": 10}
N = {"quick": 2520, "thorough": 50400}
TOL = 1e-7


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.scenario(rng, ("pst", "vpst", "skier", "skiers", "skiers", "skiers"), extreme=0.1)
        if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.8:
            sc["direct"] = gen.free_li(rng, nmax=8)
        elif sc["system"] == "skiers" and rng.random() < 0.3:
            sc["seg"] = gen.segs_skiers(rng, nmax=16)
        out.append(sc)
    return out


def run(sc, mon):
    o = gen.instance(sc)
    both = o.calc_segments(phi=sc["phi"], **gen.segkw(sc))
    for conf in ("crack", "nocrack"):
        segs = sc["direct"] if "direct" in sc else both[conf]
        if not np.any(segs["ki"]):
            continue
        C = o.assemble_and_solve(phi=sc["phi"], **segs)
        m = gen.features(sc, mon, segs)
        li, ki, mi = segs["li"], segs["ki"], np.asarray(segs["mi"], float)
        ends = [gen.states(o, sc, segs, C, i, [0.0, li[i] / 2, li[i]]) for i in range(len(li))]
        Z = np.hstack(ends)
        fs, zs = obs.force_scales(m, Z, sc["phi"]), m.scales(Z)
        for j in range(len(li) - 1):
            zl, zr = ends[j][:, -1], ends[j + 1][:, 0]
            mon.le("continuity", (np.abs(zl - zr) / zs)[[0, 2, 4]], TOL, {"transition": j})
            f = np.array(obs.section(m, zl)) - np.array(obs.section(m, zr))
            Fn, Ft = m.skier(mi[j], sc["phi"])
            want = np.array([Ft, -Ft * m.lam.h / 2, Fn])
            mon.le("jump", np.abs(f - want) / fs, TOL, {"transition": j, "jump": f, "want": want})
            rep = np.array([(o.N(zl[:, None]) - o.N(zr[:, None]))[0], (o.M(zl[:, None]) - o.M(zr[:, None]))[0],
                            (o.V(zl[:, None]) - o.V(zr[:, None]))[0]])
            mon.le("jump-reported", np.abs(rep - want) / fs, TOL, {"transition": j})
            if mi[j] == 0:
                mon.counts["unloaded-transition"] += 1
            else:
                mon.tag("skier-on-free" if not (ki[j] or ki[j + 1]) else None,
                        "skier-at-tip" if ki[j] != ki[j + 1] else None)
                mon.counts["skier-on-free"] += not (ki[j] or ki[j + 1])
                mon.counts["skier-at-tip"] += bool(ki[j] != ki[j + 1])
        if "direct" in sc:
            break
