"""P28: derivative accessors against spectral differentiation of the observed solution."""
import numpy as np
from numpy.polynomial import chebyshev as ch
from rv import gen
from rv.props import p01

RULE = ("random solved systems; around random positions of every segment the returned solution is sampled on Chebyshev points and "
        "differentiated; accessors and solution components compared; non-trivial = at least one supported segment differentiated twice")
REQUIRED = {"component": 500, "first": 300, "second": 300, "named": 300, "free-component": 100, "surface-load": 30, "phi-": 10}
N = {"quick": 1800, "thorough": 36000}
PTS = 12


def cases(rng, tier):
    return p01.gen_cases(rng, N[tier], touch=0.08)


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"])
    phi = sc["phi"]
    nodes = np.cos(np.pi * (np.arange(PTS) + 0.5) / PTS)
    V = ch.chebvander(nodes, PTS - 1)
    Vi = np.linalg.inv(V)
    s1 = 1.0 / m.lmax()
    # rates: a derivative of component j is at least as large as its size over the fastest length scale
    for i, l in enumerate(li):
        if l <= 0:
            continue
        half = min(0.4 * s1, l / 2)
        zmax = np.abs(gen.states(o, sc, segs, C, i, np.linspace(0, l, 7))).max(axis=1)
        T = np.array([1, s1, 1, s1, s1, s1 * s1])
        zs = (zmax * T + 1e-3 * (zmax * T).max()) / T      # componentwise magnitude
        for c in [half, l - half] + [half + v * (l - 2 * half) for v in sc["xs"][:4]]:
            Z = gen.states(o, sc, segs, C, i, c + half * nodes)
            co = ch.chebfit(nodes, Z.T, PTS - 1)
            ev = np.linspace(-0.6, 0.6, 3)
            Z0 = ch.chebval(ev, co)
            D1 = ch.chebval(ev, ch.chebder(co, 1)) / half
            D2 = ch.chebval(ev, ch.chebder(co, 2)) / half**2
            e1 = 2e-7 * (zs / s1 + np.abs(D1).max(axis=1)) + 1e-12 * zs / half
            e2 = 2e-6 * (zs / s1**2 + np.abs(D2).max(axis=1)) + 1e-11 * zs / half**2
            info = {"segment": i, "bed": bool(ki[i])}
            name = "component" if ki[i] else "free-component"
            for a, b in ((0, 1), (2, 3), (4, 5)):
                mon.le(name, np.abs(D1[a] - Z0[b]) / e1[a], 1.0, {**info, "component": b})
            for got, want, e in ((o.dw_dx(Z0), D1[2], e1[2]), (o.dpsi_dx(Z0), D1[4], e1[4]), (o.du_dx(Z0, 0), D1[0], e1[0]),
                                 (o.du_dx(Z0, 50.0), D1[0] + 50 * D1[4], e1[0] + 50 * e1[4])):
                mon.le("named-first", np.abs(got - want) / e, 1.0, info)
            if not ki[i]:
                continue
            got = np.asarray(o.dz_dx(Z0, phi))
            if mon.true("shape", got.shape == Z0.shape, info):
                mon.le("first", np.abs(got - D1) / e1[:, None], 1.0, {**info, "worst": int(np.argmax((np.abs(got - D1) / e1[:, None]).max(axis=1)))})
            got = np.asarray(o.dz_dxdx(Z0, phi))
            if mon.true("shape", got.shape == Z0.shape, info):
                mon.le("second", np.abs(got - D2) / e2[:, None], 1.0, {**info, "worst": int(np.argmax((np.abs(got - D2) / e2[:, None]).max(axis=1)))})
            for got, want, e in ((o.du0_dxdx(Z0, phi), D1[1], e1[1]), (o.dpsi_dxdx(Z0, phi), D1[5], e1[5]),
                                 (o.du0_dxdxdx(Z0, phi), D2[1], e2[1]), (o.dpsi_dxdxdx(Z0, phi), D2[5], e2[5])):
                mon.le("named", np.abs(got - want) / e, 1.0, info)
