"""P08: re-segmentations of the same system solved by the real code."""
import copy
import numpy as np
from rv import gen, obs

RULE = ("random systems without touchdown, each solved in its original segmentation and with segments split at random points, "
        "with zero-length segments inserted, and (uncracked) as one segment; non-trivial = states compared at several points "
        "of every original segment; lists handed in are compared with copies afterwards")
REQUIRED = {"split-states": 500, "zero-states": 500, "single-states": 100, "gdif": 200, "ginc": 60, "unmodified": 500,
            "raster": 300, "fresh-single": 30}
N = {"quick": 1270, "thorough": 25400}
TOL = 1e-6


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.scenario(rng, ("pst", "vpst", "skier", "skiers", "skiers"), extreme=0.1)
        if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.5:
            sc["direct"] = gen.free_li(rng)
            n = len(sc["direct"]["li"])
            sc["direct"]["k0"] = [True] * n
        sc["cuts"] = [[int(rng.integers(0, 1000)), float(rng.uniform(0.02, 0.98))] for _ in range(int(rng.integers(1, 5)) if rng.random() < 0.93 else int(rng.integers(8, 41)))]
        sc["zeros"] = [int(rng.integers(0, 1000)) for _ in range(int(rng.integers(1, 4)))]
        sc["xs"] = [float(v) for v in rng.uniform(0, 1, 4)]
        out.append(sc)
    return out


def split(s, cuts):
    """Split segments; returns segments and, for each new one, (original index, offset)."""
    li, mi, ki, k0 = list(s["li"]), list(s["mi"]), list(s["ki"]), list(s["k0"])
    org = [(i, 0.0) for i in range(len(li))]
    for j, f in cuts:
        j = j % len(li)
        l = li[j]
        li[j:j + 1] = [l * f, l - l * f]
        ki[j:j + 1] = [ki[j]] * 2
        k0[j:j + 1] = [k0[j]] * 2
        mi.insert(j, 0.0)
        org[j:j + 1] = [org[j], (org[j][0], org[j][1] + l * f)]
    return {"li": li, "mi": mi, "ki": ki, "k0": k0}, org


def zeros(s, where):
    li, mi, ki, k0 = list(s["li"]), list(s["mi"]), list(s["ki"]), list(s["k0"])
    org = [(i, 0.0) for i in range(len(li))]
    for j in where:
        j = j % len(li)
        before = j % 2 == 0
        pos = j if before else j + 1
        li.insert(pos, 0.0); ki.insert(pos, ki[j]); k0.insert(pos, k0[j])
        # the load stays with the old neighbour transition
        mi.insert(j, 0.0)
        org.insert(pos, None)
    return {"li": li, "mi": mi, "ki": ki, "k0": k0}, org


def solve(sc, o, s, key, mon):
    arg = {"li": s["li"], "mi": s["mi"], "ki": s[key]}
    arg = {k: (np.array(v) if len(v) % 2 else list(v)) for k, v in arg.items()}
    keep = copy.deepcopy(arg)
    C = o.assemble_and_solve(phi=sc["phi"], **arg)
    o.rasterize_solution(C=C, phi=sc["phi"], num=30, **arg)
    o.gdif(C, sc["phi"], **arg)
    for k in arg:
        mon.true("unmodified", type(arg[k]) is type(keep[k]) and np.array_equal(arg[k], keep[k]), k)
    return C


def run(sc, mon):
    o = gen.instance(sc)
    both = o.calc_segments(phi=sc["phi"], **gen.segkw(sc))["both"]
    s0 = {k: list(np.asarray(v).tolist()) for k, v in (sc["direct"] if "direct" in sc else both).items()}
    m = gen.features(sc, mon, s0)
    base = {}
    for key in ("ki", "k0"):
        base[key] = solve(sc, o, s0, key, mon)
    g0 = o.gdif(base["ki"], sc["phi"], li=s0["li"], ki=s0["ki"])
    crack = np.asarray(s0["k0"], bool) & ~np.asarray(s0["ki"], bool)
    da = float(np.asarray(s0["li"])[crack].sum())
    i0 = o.ginc(base["k0"], base["ki"], sc["phi"], li=s0["li"], ki=s0["ki"], k0=s0["k0"]) if da > 1 else None
    raster0 = o.rasterize_solution(C=base["ki"], phi=sc["phi"], num=120, li=s0["li"], ki=s0["ki"])
    for name, (s1, org) in (("split", split(s0, sc["cuts"])), ("zero", zeros(s0, sc["zeros"])),
                            ("mixed", zeros(split(s0, sc["cuts"])[0], sc["zeros"]))):
        if name == "mixed":
            o1 = gen.instance(sc)
            o1.calc_segments(phi=sc["phi"], **gen.segkw(sc))
        else:
            o1 = o
        C = {key: solve(sc, o1, s1, key, mon) for key in ("ki", "k0")}
        for key in ("ki", "k0"):
            if name == "mixed":
                continue
            Za, Zb = [], []
            for j, e in enumerate(org):
                if e is None or s1["li"][j] <= 0:
                    continue
                x = np.array([0.0] + sc["xs"] + [1.0]) * s1["li"][j]
                Zb.append(o1.z(x, C[key][:, [j]], s1["li"][j], sc["phi"], bed=bool(s1[key][j])))
                i, off = e
                Za.append(o.z(x + off, base[key][:, [i]], s0["li"][i], sc["phi"], bed=bool(s0[key][i])))
            A, B = np.hstack(Za), np.hstack(Zb)
            mon.le(name + "-states", np.abs(A - B) / m.scales(A)[:, None], TOL, {"config": key})
        g1 = o1.gdif(C["ki"], sc["phi"], li=s1["li"], ki=s1["ki"])
        mon.le("gdif", np.abs(g1 - g0) / max(np.max(np.abs(g0)), 1e-9), 1e-5, {"variant": name, "g": [g0, g1]})
        if i0 is not None:
            i1 = o1.ginc(C["k0"], C["ki"], sc["phi"], li=s1["li"], ki=s1["ki"], k0=s1["k0"])
            nseg = int(crack.sum()) + len(sc["cuts"])
            mon.le("ginc", np.max(np.abs(i1 - i0)), 4e-3 * np.max(np.abs(i0)) + 2 * nseg * 1e-3 / (2 * da), {"variant": name, "g": [i0, i1]})
        xq, zq, xb = o1.rasterize_solution(C=C["ki"], phi=sc["phi"], num=120, li=s1["li"], ki=s1["ki"])
        mon.le("raster", abs(xq[-1] - raster0[0][-1]) / xq[-1], 1e-12)
        # interpolate smooth displacements of the finer raster at common transitions
        edges = np.cumsum(s0["li"])[:-1]
        for e in edges:
            a, b = np.argmin(np.abs(raster0[0] - e)), np.argmin(np.abs(xq - e))
            mon.le("raster", abs(raster0[0][a] - e) + abs(xq[b] - e), 1e-6 * (1 + e))
            sd = m.scales(raster0[1])
            mon.le("raster", (np.abs(raster0[1][:, a] - zq[:, b]) / sd)[[0, 2, 4]], 1e-5, {"edge": e})
    # one segment
    for tag in ("same", "fresh"):
        o2 = o if tag == "same" else gen.instance(sc)
        L = float(np.sum(s0["li"]))
        one = {"li": [L], "mi": [], "ki": [True]}
        two = {"li": [L * 0.4, L * 0.6], "mi": [0.0], "ki": [True, True]}
        C1 = o2.assemble_and_solve(phi=sc["phi"], **one)
        C2 = o2.assemble_and_solve(phi=sc["phi"], **two)
        mon.true("single-shape", np.shape(C1) == (6, 1) and one == {"li": [L], "mi": [], "ki": [True]}, np.shape(C1))
        x = np.array([0.0] + sc["xs"] + [1.0])
        for j, (a, b) in enumerate(((0.0, 0.4), (0.4, 1.0))):
            A = o2.z((a + (b - a) * x) * L, C1, L, sc["phi"], bed=True)
            B = o2.z((b - a) * x * L, C2[:, [j]], two["li"][j], sc["phi"], bed=True)
            mon.le("single-states", np.abs(A - B) / m.scales(np.hstack([A, B]))[:, None], TOL)
            mon.counts["fresh-single"] += tag == "fresh"
        ra = o2.rasterize_solution(C=C1, phi=sc["phi"], num=50, **one)
        mon.true("single-raster", np.all(np.isfinite(ra[1])) and abs(ra[0][-1] - L) < 1e-9 * L and ra[0].size >= 51)
        mon.true("single-gdif", np.all(np.asarray(o2.gdif(C1, sc["phi"], li=one["li"], ki=one["ki"])) == 0))
