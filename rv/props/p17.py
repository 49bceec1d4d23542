"""P17: touchdown stages and touchdown lengths against an elastically clamped Timoshenko cantilever."""
import numpy as np
from rv import gen, touch

RULE = ("random PSTs with touchdown (layering, weak layer, inclination, surface load, collapse factor, stiffness ratio, column length); crack "
        "lengths just below and above both thresholds and far beyond; thresholds and touchdown lengths inserted into the closed-form solution of "
        "an elastically clamped Timoshenko cantilever whose springs come from the reference boundary value problem; non-trivial = stage decided")
REQUIRED = {"a1": 40, "a2": 40, "order": 40, "stage:A": 60, "stage:B": 40, "stage:C": 40, "lC": 60, "off": 40, "sys:-pst": 10, "sys:pst-": 10,
            "surface-load": 10, "phi-": 5}
N = {"quick": 140, "thorough": 2500}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        sc = gen.scenario(rng, ("pst",), touchdown=True)
        p = touch.params(rng, sc)
        if p is None:
            continue
        if rng.random() < 0.12:
            p["L"] = p["a1est"] * float(rng.uniform(15, 100))     # long columns
        sc["touch"] = p
        sc["eps"] = float(gen.pick(rng, 1e-6, 1e-4, 1e-2, 0.1, gen.logu(rng, 1e-7, 1e-4)))
        sc["far"] = [float(v) for v in rng.uniform(0.05, 0.9, 2)]
        sc["first"] = [float(rng.uniform(0.01, 0.95)), float(rng.uniform(-40, 40))]
        out.append(sc)
    return out


def run(sc, mon):
    m = gen.features(sc, mon)
    p = sc["touch"]
    L, cf, ratio, phi = p["L"], p["cf"], p["ratio"], sc["phi"]
    ref = touch.Cantilever(m, L, phi, cf, ratio)
    kw = {"L": L, "phi": phi, "cf": cf, "ratio": ratio}
    o = gen.instance(sc)
    # an arbitrary earlier question on the same model
    o.touchdown = False
    o.calc_segments(L=L, a=sc["first"][0] * L, phi=sc["first"][1], cf=cf, ratio=ratio)
    o.touchdown = True
    o.calc_segments(a=0, **kw)
    mon.true("stage-zero", o.mode == "A", o.mode)
    a1, a2 = float(o.calc_a1()), float(o.calc_a2())
    info = {"L": L, "a1": a1, "a2": a2}
    mon.true("order", 0 < a1 < a2 < L, info)
    mon.le("a1", abs(ref.sag(a1)), 1e-6, info)
    w1 = touch.roots(ref.sag, L / 1000, 0.999 * L, 40)
    mon.true("a1", len(w1) >= 1 and abs(a1 - w1[0]) <= 1e-6 * L, {**info, "want": w1})
    w2 = touch.roots(ref.full, L / 1000, 0.999 * L, 40)
    if len(w2) >= 1:
        mon.le("a2", min(abs(a2 - w) for w in w2), 1e-6 * a2 + 1e-7 * L, {**info, "want": w2})
        mon.counts["a2-unique"] += len(w2) == 1
    e = sc["eps"]
    todo = [(a1 * (1 - e), "A"), (a2 * (1 + e), "C"), (a1 / 2, "A")]
    d = min(e * a1, (a2 - a1) / 3)
    todo += [(a1 + d, "B"), (a2 - d, "B")]
    for f in sc["far"]:
        todo.append((a2 + f * (L - a2), "C"))
    for k, (a, stage) in enumerate(todo):
        if a >= 0.995 * L or abs(a - a1) < 1e-9 * a1 or abs(a - a2) < 1e-9 * a2:
            continue
        q = o if k % 2 else gen.instance(sc)
        segs = q.calc_segments(a=a, **kw)
        d = {**info, "a": a}
        if not mon.true("stage:" + stage, q.mode == stage, {**d, "got": q.mode, "want": stage}):
            continue
        li = np.asarray(segs["crack"]["li"], float)
        td = li[0] if sc["system"] == "-pst" else li[-1]
        rest = li[-1] if sc["system"] == "-pst" else li[0]
        mon.le("supported-length", abs(rest - (L - a)), 1e-9 * L, d)
        if stage in "AB":
            mon.le("td", abs(td - a), 1e-9 * a, d)
            continue
        mon.true("td-range", 0 < td <= a * (1 + 1e-12), {**d, "td": td})
        # the slope residual may be steep: accept a root within relative distance 1e-6
        f = lambda x: ref.rested(x, a)
        lo, hi = td * (1 - 1e-6), min(td * (1 + 1e-6), a)
        flo, fhi = f(lo), f(hi)
        mon.true("lC", flo * fhi <= 0 or min(abs(flo), abs(fhi)) < 1e-6, {**d, "td": td, "residual": [flo, fhi]})
    # without touchdown there is only stage A
    q = gen.instance(sc, touchdown=False)
    for a in (a1 * 0.5, (a1 + a2) / 2, a2 + 0.5 * (L - a2)):
        segs = q.calc_segments(a=a, **kw)
        li = np.asarray(segs["crack"]["li"], float)
        mon.true("off", q.mode == "A" and abs(li.sum() - L) <= 1e-9 * L, {**info, "a": a, "mode": q.mode})
