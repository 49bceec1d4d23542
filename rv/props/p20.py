"""P20: potentials against Gauss integrals of energy and work of the observed solution."""
import numpy as np
from rv import gen, obs, touch

RULE = ("random PST solutions of every touchdown stage (and without touchdown); potentials at increasing resolutions compared with "
        "quadratures of strain energy and load work of the observed states by the independent laminate; non-trivial = a solved PST integrated")
REQUIRED = {"internal": 80, "external": 80, "total": 80, "converges": 80, "stage:A": 40, "stage:B": 20, "stage:C": 20, "surface-load": 30,
            "phi-": 10, "phi+": 10, "sys:pst-": 20, "sys:-pst": 20, "other-phi": 50}
N = {"quick": 130, "thorough": 2500}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        sc = gen.scenario(rng, ("pst",), touchdown=True)
        p = touch.params(rng, sc)
        if p is None:
            continue
        sc["touch"] = p
        sc["stage"] = gen.pick(rng, "A", "B", "C", "off")
        sc["f"] = float(rng.uniform(0.05, 0.95))
        sc["other"] = float(rng.uniform(-50, 50))
        if sc["stage"] == "off":
            sc["touchdown"] = False
        out.append(sc)
    return out


def run(sc, mon):
    m = gen.features(sc, mon)
    p, phi = sc["touch"], sc["phi"]
    L, f = p["L"], sc["f"]
    kw = {"L": L, "phi": phi, "cf": p["cf"], "ratio": p["ratio"]}
    left = sc["system"] == "-pst"
    o = gen.instance(sc)
    a = f * L
    if sc["stage"] != "off":
        o.calc_segments(a=0, **kw)
        a1, a2 = float(o.calc_a1()), float(o.calc_a2())
        a = {"A": f * a1, "B": a1 + f * (a2 - a1), "C": a2 + f * (0.95 * L - a2)}[sc["stage"]]
        if a >= 0.99 * L:
            return
    segs = o.calc_segments(a=a, **kw)["crack"]
    mon.counts["stage:" + o.mode] += 1
    C = o.assemble_and_solve(phi=phi, **segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"])
    lam = m.lam
    qn, qt, pn, pt = m.loads(phi)
    tc = p["cf"] * m.t - (qn + pn) / m.kn
    Wint, Wext, mag = 0.0, 0.0, 0.0
    for i, l in enumerate(li):
        if l <= 0:
            continue
        x, w = obs.gauss(0, l, 1.0 / m.lmax(), 6)
        Z = gen.states(o, sc, segs, C, i, x)
        Nf, M, V = obs.section(m, Z)
        Wint += 0.5 * (Nf * Z[1] + M * Z[5] + V**2 / lam.S) @ w
        if ki[i]:
            sig, tau = obs.weak(m, Z)
            Wint += 0.5 * (sig**2 / m.kn + tau**2 / m.kt) @ w
        works = ((qn + pn) * Z[2], qt * (Z[0] + lam.zs * Z[4]), pt * (Z[0] - lam.h / 2 * Z[4]))
        Wext -= sum(works) @ w
        mag += sum(np.abs(v) for v in works) @ w
    rest = L - li.sum()
    tip = gen.states(o, sc, segs, C, 0, [0.0])[:, 0] if left else gen.states(o, sc, segs, C, len(li) - 1, [li[-1]])[:, 0]
    if o.mode == "C":
        Wint += 0.5 * abs(obs.section(m, tip[:, None])[1][0] * tip[4])
    if rest > 1e-9 * L:
        works = (tc * (qn + pn), qt * (tip[0] + lam.zs * tip[4]), pt * (tip[0] - lam.h / 2 * tip[4]))
        Wext -= rest * sum(works)
        mag += rest * sum(np.abs(works))
    info = {"stage": o.mode, "a": a, "L": L, "li": li}
    errs = {}
    for num in (None, 8000):
        k = {} if num is None else {"num": num}
        pi = float(o.internal_potential(C, phi, L, **k, **segs))
        pe = float(o.external_potential(C, phi, L, **k, **segs))
        pt_ = float(o.total_potential(C, phi, L, **k, **segs))
        d = {**info, "num": num, "internal": pi, "external": pe, "want": [Wint, Wext]}
        mon.true("positive", pi > 0, d)
        mon.le("total", abs(pt_ - pi - pe), 1e-9 * (abs(pi) + abs(pe)), d)
        n = num or 250
        # grid averages: first order in the spacing, peaked at the tips
        tol = min(0.5, 12.0 * (L / n * m.lmax() + 8.0 / n))
        mon.le("internal", abs(pi - Wint), tol * Wint, d)
        mon.le("external", abs(pe - Wext), tol * mag, d)
        errs[n] = (abs(pi - Wint) / Wint, abs(pe - Wext) / mag)
    for j, nm in enumerate(("internal", "external")):
        mon.le("converges", errs[8000][j], max(0.3 * errs[250][j], 2e-3), {**info, "which": nm, "errors": errs})
    # the inclination passed counts, not the one of the last segments computed
    o2 = gen.instance(sc)
    o2.calc_segments(a=a, **kw)
    pe0 = float(o2.external_potential(C, phi, L, **segs))
    mon.le("other-phi", abs(pe0 - float(o.external_potential(C, phi, L, **segs))), 1e-9 * mag, info)
    if o.mode == "A" and rest <= 1e-9 * L:
        o2.calc_segments(a=a, L=L, phi=sc["other"], cf=p["cf"], ratio=p["ratio"])
        if o2.mode == "A":
            mon.le("other-phi", abs(float(o2.external_potential(C, phi, L, **segs)) - pe0), 1e-9 * mag, info)
            mon.le("other-phi", abs(float(o2.internal_potential(C, phi, L, **segs)) - float(o.internal_potential(C, phi, L, **segs))), 1e-9 * Wint, info)
