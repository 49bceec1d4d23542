"""P11: check rasterized solutions against their contract."""
import numpy as np
from rv import gen
from rv.props import p01

RULE = ("random solved systems of every type (zero-length and tiny segments, many segments, touchdown stages) rasterized with "
        "1 to 3000 requested points; non-trivial = rasters of at least two resolutions checked pointwise")
REQUIRED = {"increasing": 500, "transition": 500, "share": 500, "mask": 500, "values": 500, "tips:3": 3, "free-free": 20, "zero-length": 20,
            "stage:C": 1, "num:small": 50, "num:large": 30}
N = {"quick": 1560, "thorough": 31200}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.08)
    for sc in out:
        d = sc.get("direct")
        if d is None and sc["system"] == "skiers":
            d = sc["seg"]
        if d is not None and rng.random() < 0.5:
            for _ in range(int(rng.integers(1, 4))):
                j = int(rng.integers(len(d["li"])))
                l = float(gen.pick(rng, 0.0, 0.0, rng.uniform(0.5, 5)))
                d["li"].insert(j, l)
                d["ki"].insert(j, d["ki"][j])
                if "k0" in d:
                    d["k0"].insert(j, d["k0"][j])
                d["mi"].insert(j, 0.0)
        if d is not None and sc["system"] == "skiers":
            d["li"][0], d["li"][-1] = max(d["li"][0], 5000.0), max(d["li"][-1], 5000.0)
        if sc["system"] == "skier" and rng.random() < 0.4:
            sc["seg"]["a"] = 0.0
        sc["nums"] = [int(rng.integers(1, 20)), int(rng.integers(20, 400)), int(gen.pick(rng, 250, 1000, int(rng.integers(400, 3000))))]
    return out


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"], bool)
    if np.any(li == 0):
        mon.counts["zero-length"] += 1
    nz = np.where(li > 0)[0]
    lin, kin = li[nz], ki[nz]
    edges = np.concatenate([[0.0], np.cumsum(lin)])
    L = edges[-1]
    eps = 1e-9 * L
    default = None
    for num in sc["nums"] + [None]:
        kw = {} if num is None else {"num": num}
        xq, zq, xb = o.rasterize_solution(C=C, phi=sc["phi"], **kw, **segs)
        num = num or 250
        d = {"num": num}
        mon.counts["num:small"] += num < 20
        mon.counts["num:large"] += num >= 400
        if not mon.true("shape", xq.ndim == 1 and zq.shape == (6, xq.size) and xb.shape == xq.shape and np.isfinite(zq).all() and np.isfinite(xq).all(), d):
            continue
        mon.true("increasing", np.all(np.diff(xq) > 0), d)
        mon.le("ends", abs(xq[0]) + abs(xq[-1] - L), eps, d)
        for e in edges:
            mon.le("transition", np.min(np.abs(xq - e)), eps, {**d, "at": e})
        # share of points per segment, transitions count for the right one
        for i in range(lin.size):
            inside = np.sum((xq >= edges[i] - eps) & (xq < edges[i + 1] - eps)) if i < lin.size - 1 else np.sum(xq >= edges[i] - eps)
            mon.true("share", inside >= lin[i] / L * num - 1e-6, {**d, "segment": i, "points": int(inside), "share": lin[i] / L * num})
            gap = np.diff(xq[(xq >= edges[i] - eps) & (xq <= edges[i + 1] + eps)])
            # even resolution: no gap wider than twice the segment's own spacing
            mon.le("even", gap, 2.0 * lin[i] / max(1.0, np.floor(lin[i] / L * num)) + eps, {**d, "segment": i})
        mon.true("size", xq.size <= 2 * num + 2 * lin.size + 2, {**d, "size": xq.size})
        # foundation mask
        idx = np.clip(np.searchsorted(edges, xq + eps, side="right") - 1, 0, lin.size - 1)
        at_edge = np.min(np.abs(xq[:, None] - edges[None, 1:-1]), axis=1) <= eps if lin.size > 1 else np.zeros(xq.size, bool)
        want = kin[idx].copy()
        for j in np.where(at_edge)[0]:
            k = int(np.argmin(np.abs(edges - xq[j])))
            want[j] = kin[k - 1] or kin[k]
            if not kin[k - 1] and not kin[k]:
                mon.counts["free-free"] += 1
        mon.true("mask", np.array_equal(~np.isnan(xb), want), {**d, "wrong": np.where(~np.isnan(xb) != want)[0][:5]})
        mon.true("mask-values", np.array_equal(xb[~np.isnan(xb)], xq[~np.isnan(xb)]), d)
        # values are those of the segment solutions
        sub = np.unique(np.concatenate([np.linspace(0, xq.size - 1, 25).astype(int), np.where(at_edge)[0]]))
        cand = []
        for j in sub:
            opts = [idx[j]]
            if at_edge[j]:
                k = int(np.argmin(np.abs(edges - xq[j])))
                opts = [k - 1, k]
            best = None
            for i in opts:
                Z = gen.states(o, sc, segs, C, nz[i], [min(max(xq[j] - edges[i], 0.0), lin[i])])[:, 0]
                cand.append((j, Z, best))
        Zall = np.array([c[1] for c in cand]).T
        s = m.scales(Zall)
        byj = {}
        for j, Z, _ in cand:
            byj.setdefault(j, []).append(np.max(np.abs(Z - zq[:, j]) / s))
        mon.le("values", [min(v) for v in byj.values()], 1e-7, d)
