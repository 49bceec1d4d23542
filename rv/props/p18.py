"""P18: solved touchdown systems against reference boundary value problems and end conditions."""
import numpy as np
from rv import gen, obs, touch

RULE = ("random PSTs with touchdown in every stage and both cut directions; the returned states are compared with the independent boundary value "
        "problem of that stage and their end values with the touchdown conditions; non-trivial = a solved stage compared")
REQUIRED = {"stage:A": 30, "stage:B": 30, "stage:C": 60, "sys:-pst": 20, "sys:pst-": 20, "surface-load": 15, "phi-": 10, "phi+": 10,
            "opposite-free": 100, "tip-w": 60, "tip-moment": 60, "solution": 100, "same-as-off": 30}
N = {"quick": 140, "thorough": 2500}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        sc = gen.scenario(rng, ("pst",), touchdown=True)
        p = touch.params(rng, sc)
        if p is None:
            continue
        sc["touch"] = p
        sc["f"] = [float(v) for v in rng.uniform(0.05, 0.95, 4)]
        out.append(sc)
    return out


def run(sc, mon):
    m = gen.features(sc, mon)
    p, phi = sc["touch"], sc["phi"]
    L, cf, ratio = p["L"], p["cf"], p["ratio"]
    kw = {"L": L, "phi": phi, "cf": cf, "ratio": ratio}
    left = sc["system"] == "-pst"
    side = -1 if left else 1
    o = gen.instance(sc)
    o.calc_segments(a=0, **kw)
    a1, a2 = float(o.calc_a1()), float(o.calc_a2())
    qn, qt, pn, pt = m.loads(phi)
    tc = cf * m.t - (qn + pn) / m.kn
    f = sc["f"]
    for want, a in (("A", f[0] * a1), ("B", a1 + f[1] * (a2 - a1)), ("C", a2 + f[2] * (0.99 * L - a2)), ("C", a2 * (1 + 0.05 * f[3]))):
        if a >= 0.995 * L:
            continue
        segs = o.calc_segments(a=a, **kw)["crack"]
        stage = o.mode
        d = {"stage": stage, "a": a, "L": L}
        if not mon.true("expected-stage", stage == want, {**d, "want": want}):
            continue
        mon.counts["stage:" + stage] += 1
        C = o.assemble_and_solve(phi=phi, **segs)
        li = np.asarray(segs["li"], float)
        td = li[0] if left else li[-1]
        kR = 0.0
        if stage == "A":
            S = gen.reference(sc, segs, m)
        elif stage == "B":
            S = gen.reference(sc, segs, m, touch=("tipB", side, {"tc": tc}))
        else:
            kR = m.spring(a - td, "rot", ratio) if a - td > 1e-3 else 0.0
            S = gen.reference(sc, segs, m, touch=("tipC", side, {"tc": tc, "kR": kR, "N": (qt + pt) * (a - td)}))
        smp = obs.sample(o, sc, segs, C, 9)
        Z = obs.stack(smp)
        R = np.hstack([S.at(i, x) for i, x, _ in smp])
        if not mon.true("finite", np.isfinite(Z).all(), d):
            continue
        s = m.scales(R)
        mon.le("solution", (np.abs(Z - R) / s[:, None]).max(axis=1), 1e-5, {**d, "component": int(np.argmax((np.abs(Z - R) / s[:, None]).max(axis=1)))})
        # end conditions by the independent laminate
        tip, opp = (Z[:, 0], Z[:, -1]) if left else (Z[:, -1], Z[:, 0])
        FS = obs.force_scales(m, Z, phi)
        mon.le("opposite-free", np.abs(obs.section(m, opp[:, None])).ravel() / FS, 1e-6, d)
        N, M, V = (v[0] for v in obs.section(m, tip[:, None]))
        if stage == "A":
            mon.le("tip-free", np.abs([N, M, V]) / FS, 1e-6, d)
            off = gen.instance(sc, touchdown=False)
            so = off.calc_segments(a=a, **kw)["crack"]
            Co = off.assemble_and_solve(phi=phi, **so)
            Zo = obs.stack(obs.sample(off, sc, so, Co, 9))
            mon.le("same-as-off", np.abs(Z - Zo) / s[:, None], 1e-9, d)
            continue
        mon.le("tip-w", abs(tip[2] - tc), 1e-7 * max(abs(Z[2]).max(), tc), {**d, "w": tip[2], "tc": tc})
        if stage == "B":
            mon.le("tip-moment", abs(M) / FS[1], 1e-6, d)
            mon.le("tip-force", abs(N) / FS[0], 1e-6, d)
        else:
            mon.le("tip-moment", abs(M + side * kR * tip[4]), 1e-5 * (FS[1] + kR * abs(tip[4])), {**d, "M": M, "kR": kR, "psi": tip[4]})
            mon.le("tip-force", abs(N - side * (qt + pt) * (a - td)) , 1e-6 * (FS[0] + abs(qt + pt) * a), d)
