"""P27: the segments of calc_segments describe the requested experiment."""
import numpy as np
from rv import gen, ref

RULE = ("random systems, lengths, crack lengths (including none and nearly the full length), skier masses, skier lists and touchdown stages; the returned "
        "dictionaries are compared with the requested experiment and handed to every downstream function; non-trivial = segments compared")
REQUIRED = {"length": 600, "crack-length": 600, "crack-place": 600, "foundation": 600, "skiers": 600, "agree": 600, "accepted": 400, "sys:skiers": 60, "sys:skier": 60,
            "sys:pst-": 40, "sys:-pst": 40, "sys:vpst-": 40, "sys:-vpst": 40, "stage:A": 30, "stage:B": 3, "stage:C": 5, "no-crack": 30, "full-crack": 5, "defaults": 20}
N = {"quick": 4200, "thorough": 84000}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.scenario(rng, beam=0.2)
        s = sc["system"]
        if s in gen.PST and rng.random() < 0.6:
            sc["touchdown"] = True
            sc["seg"]["L"] = float(rng.uniform(6000, 30000))
            sc["seg"]["a"] = float(rng.uniform(50, 0.6 * sc["seg"]["L"]))
            if rng.random() < 0.6:
                # stage chosen by position between the thresholds
                sc["stage"] = gen.pick(rng, "A", "B", "B", "C")
                sc["f"] = float(rng.uniform(0.05, 0.95))
        elif s != "skiers":
            r = rng.random()
            L = sc["seg"]["L"]
            sc["seg"]["a"] = 0.0 if r < 0.2 else L if r < 0.3 else L * 0.97 if r < 0.35 else sc["seg"]["a"]
        if rng.random() < 0.3:
            sc["seg"]["cf"] = float(rng.uniform(0.2, 0.9))
            sc["seg"]["ratio"] = gen.pick(rng, 100, 1000, 5000)
        # arguments which do not belong to the system are ignored
        sc["extra"] = {}
        if rng.random() < 0.5:
            if s in ("skiers",):
                sc["extra"] = {"L": float(rng.uniform(1000, 5000)), "m": 90.0}
            elif s in gen.PST + gen.VPST:
                sc["extra"] = {"m": float(rng.uniform(10, 100)), "li": [1.0, 2.0], "mi": [30.0], "ki": [True, False], "k0": [True, True]}
            else:
                sc["extra"] = {"li": [1.0, 2.0], "mi": [30.0], "ki": [True, False], "k0": [True, True]}
            sc["extra"]["anything"] = 1
        sc["omit"] = bool(rng.random() < 0.2)
        sc["num"] = int(rng.integers(20, 80))
        out.append(sc)
    return out


def run(sc, mon):
    o = gen.instance(sc)
    phi, s, seg = sc["phi"], sc["system"], dict(sc["seg"])
    if sc.get("stage"):
        o.calc_segments(phi=phi, L=1e5, a=100.0, **{k: seg[k] for k in ("cf", "ratio") if k in seg})
        try:
            a1, a2 = float(o.calc_a1()), float(o.calc_a2())
        except ValueError:
            a1, a2 = 0, 0
        if 50 < a1 < a2 < 20000:
            f = sc["f"]
            seg["L"] = 8 * a2
            seg["a"] = {"A": f * a1, "B": a1 + f * (a2 - a1), "C": a2 * (1.02 + f)}[sc["stage"]]
    kw = {**seg, **sc["extra"]}
    if sc["omit"] and s != "skiers":
        for k in ("L", "a", "m"):
            kw.pop(k, None)
        mon.counts["defaults"] += 1
        kw = {k: v for k, v in kw.items() if k in ("anything", "cf", "ratio")}
        seg = {**{k: v for k, v in kw.items() if k != "anything"}, "L": 1e4, "a": 0.0, "m": 0.0}
    out = o.calc_segments(phi=phi, **kw)
    if not mon.true("keys", isinstance(out, dict) and {"crack", "nocrack", "both"} <= set(out), list(out)):
        return
    cr, no, bo = out["crack"], out["nocrack"], out["both"]
    gen.features(dict(sc, system=s), mon)
    info = {"system": s, "seg": kw}
    if not mon.true("keys", set(cr) == set(no) == {"li", "mi", "ki"} and set(bo) == {"li", "mi", "ki", "k0"}, info):
        return
    A = lambda v, t=float: np.asarray(v).astype(t)
    li, mi, ki, k0 = A(bo["li"]), A(bo["mi"]), A(bo["ki"], bool), A(bo["k0"], bool)
    for a, b, what in ((cr["li"], li, "crack li"), (no["li"], li, "nocrack li"), (cr["mi"], mi, "crack mi"), (no["mi"], mi, "nocrack mi"), (A(cr["ki"], bool), ki, "crack ki"),
                       (A(no["ki"], bool), k0, "nocrack ki")):
        mon.true("agree", np.array_equal(np.asarray(a), b), {**info, "what": what})
    n = li.size
    mon.true("sizes", ki.size == n and k0.size == n and mi.size == n - 1, {**info, "sizes": [n, mi.size, ki.size, k0.size]})
    mon.true("sizes", all(np.asarray(bo[k]).ndim == 1 for k in bo) and all(isinstance(np.asarray(bo[k]).ravel()[0], (bool, np.bool_)) for k in ("ki", "k0")), info)
    mon.true("nonnegative", np.all(li >= 0), {**info, "li": li})
    if s == "skiers":
        for k, v in (("li", li), ("mi", mi), ("ki", ki), ("k0", k0)):
            mon.true("length" if k == "li" else "skiers" if k == "mi" else "foundation", np.array_equal(v, np.asarray(seg[k])), {**info, "got": v})
        mon.counts["crack-place"] += 1
        mon.counts["crack-length"] += 1
    else:
        L, a = seg["L"], seg["a"]
        stage = str(o.mode) if s in gen.PST and sc["touchdown"] else "A"
        mon.tag("stage:" + stage)
        mon.counts["no-crack"] += a == 0
        mon.counts["full-crack"] += a == L
        rest = 0.0
        free = a
        if stage == "C":
            free = float(li[~ki].sum())
            rest = a - free
            mon.true("resting", 0 < free <= a, {**info, "touchdown": free})
        mon.close("length", li.sum(), L - rest, 1e-12, detail=info)
        mon.close("crack-length", li[~ki].sum(), free, 1e-12, scale=L, detail=info)
        mon.true("foundation", np.all(k0), {**info, "k0": k0})
        e = np.concatenate([[0], np.cumsum(li)])
        for i in range(n):
            if ki[i] or li[i] == 0:
                continue
            if s in ("pst-", "vpst-"):
                lo, hi = L - a, L - a + free
            elif s in ("-pst", "-vpst"):
                lo, hi = 0.0, free
            else:
                lo, hi = (L - a) / 2, (L + a) / 2
            mon.true("crack-place", lo - 1e-9 * L <= e[i] and e[i + 1] <= hi + 1e-9 * L, {**info, "segment": [e[i], e[i + 1]], "want": [lo, hi]})
        mon.counts["crack-place"] += 1
        # loads
        want = seg["m"] if s == "skier" else 0.0
        at = [(e[i + 1], mi[i]) for i in range(n - 1) if mi[i] != 0]
        if want:
            mon.true("skiers", len(at) == 1 and abs(at[0][0] - L / 2) <= 1e-9 * L and at[0][1] == want, {**info, "loads": at})
        else:
            mon.true("skiers", not at, {**info, "loads": at})
    # downstream (a well-posed problem needs a supported part; cracks of nearly full length are not solved)
    ok = li[ki].sum() > 0.05 * li.sum() and np.any(k0) and (s not in ("skier", "skiers") or (ki[0] and ki[-1]))
    if not ok:
        return
    from weac import plot  # noqa: F401
    mon.counts["accepted"] += 1
    C0 = o.assemble_and_solve(phi=phi, **no)
    C1 = o.assemble_and_solve(phi=phi, **cr)
    mon.true("finite", np.all(np.isfinite(C0)) and np.all(np.isfinite(C1)), info)
    for seg_, C in ((cr, C1), (no, C0), (bo, C1)):
        x, z, xb = o.rasterize_solution(C=C, phi=phi, num=sc["num"], **seg_)
        mon.close("raster", x[-1], li.sum(), 1e-9, detail=info)
        G = o.gdif(C, phi, **seg_)
        mon.true("finite", np.all(np.isfinite(G)) and np.all(np.isfinite(z)), info)
    if np.any(li[~ki & k0] > 0):
        mon.true("finite", np.all(np.isfinite(o.ginc(C0, C1, phi, **bo))), info)
    if s in gen.PST:
        x, z, xb = o.rasterize_solution(C=C1, phi=phi, num=sc["num"], **cr)
        mon.true("finite", np.isfinite(o.total_potential(C1, phi, L=float(seg["L"]), **cr)), info)
