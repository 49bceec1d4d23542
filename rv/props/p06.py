"""P06: solve a scenario and its mirror image with the real code and compare."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random scenarios of every system (touchdown stages included) and their mirror images, both solved by the real code "
        "on separate instances; non-trivial = states of both compared at mirrored points of every segment")
REQUIRED = {"states": 1000, "sys:pst-": 20, "sys:-pst": 20, "sys:vpst-": 15, "sys:-vpst": 15, "sys:skier": 15, "sys:skiers": 15,
            "stage:B": 2, "stage:C": 4, "gdif": 100, "ginc": 50, "stage-equal": 20, "potential": 40}
N = {"quick": 1470, "thorough": 29400}
TOL = 1e-6
FLIP = np.array([-1, 1, 1, -1, -1, 1.0])
OTHER = {"pst-": "-pst", "-pst": "pst-", "vpst-": "-vpst", "-vpst": "vpst-", "skier": "skier", "skiers": "skiers"}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.25)
    for sc in out:
        sc["xs"] = sc["xs"][:6]
    return out


def mirror(sc):
    mi = dict(sc, system=OTHER[sc["system"]], phi=-sc["phi"])
    for key in ("seg", "direct"):
        if key in sc:
            mi[key] = {k: (v[::-1] if isinstance(v, list) else v) for k, v in sc[key].items()}
    return mi


def run(sc, mon):
    mc = mirror(sc)
    o1, s1, C1 = p01.solve(sc, mon)
    o2, s2, C2 = p01.solve(mc, mon)
    m = gen.features(sc, mon, s1)
    l1, l2 = np.asarray(s1["li"], float), np.asarray(s2["li"], float)[::-1]
    mon.close("segments", l2, l1, 1e-7, scale=l1.sum())
    mon.true("segments", list(map(bool, s1["ki"])) == list(map(bool, s2["ki"]))[::-1])
    mon.close("segments", np.asarray(s2["mi"], float)[::-1], np.asarray(s1["mi"], float), 0)
    if sc.get("touchdown"):
        mon.true("stage-equal", o1.mode == o2.mode, [o1.mode, o2.mode])
        mon.close("stage-equal", o2.td, o1.td, 1e-7)
        mon.close("stage-equal", o2.tc, o1.tc, 1e-12)
    n = len(l1)
    # touchdown lengths come from a root search: allow for its tolerance
    tol = 1e-5 if sc.get("touchdown") else TOL
    pairs = []
    for i, l in enumerate(l1):
        if l <= 0:
            continue
        f = np.array([0.0, 1.0] + sc["xs"])
        Z1 = gen.states(o1, sc, s1, C1, i, f * l)
        Z2 = gen.states(o2, mc, s2, C2, n - 1 - i, (1 - f) * l2[i])
        pairs.append((i, Z1, Z2))
    s = m.scales(np.hstack([p[1] for p in pairs]))
    fs = obs.force_scales(m, np.hstack([p[1] for p in pairs]), sc["phi"])
    sw = max(m.kn * s[2], m.kt * (s[0] + m.lam.h / 2 * s[4] + m.t / 2 * s[3]))
    for i, Z1, Z2 in pairs:
        mon.le("states", np.abs(Z1 - FLIP[:, None] * Z2) / s[:, None], tol, {"segment": i})
        for k, (fn, sg) in enumerate((("N", 1), ("M", 1), ("V", -1))):
            mon.le("forces", np.abs(getattr(o1, fn)(Z1) - sg * getattr(o2, fn)(Z2)) / fs[k], 10 * tol, fn)
        mon.le("stress", np.abs(o1.sig(Z1) - o2.sig(Z2)) / sw, tol, "sig")
        mon.le("stress", np.abs(o1.tau(Z1) + o2.tau(Z2)) / sw, tol, "tau")
    g1, g2 = o1.gdif(C1, sc["phi"], **s1, unit="J/m^2"), o2.gdif(C2, mc["phi"], **s2, unit="J/m^2")
    sg = max(np.max(np.abs(g1)), 1e3 * m.kn * s[2] ** 2 * 1e-3)
    mon.le("gdif", np.abs(g1 - g2) / sg, 10 * tol, [g1, g2])
    if "direct" not in sc and not sc.get("touchdown"):
        k1, k2 = gen.segkw(sc), gen.segkw(mc)
        a1, a2 = o1.calc_segments(phi=sc["phi"], **k1), o2.calc_segments(phi=mc["phi"], **k2)
        crack = np.asarray(a1["both"]["k0"]) & ~np.asarray(a1["both"]["ki"])
        if crack.any() and np.asarray(a1["both"]["li"])[crack].sum() > 1:
            U1 = o1.assemble_and_solve(phi=sc["phi"], **a1["nocrack"])
            U2 = o2.assemble_and_solve(phi=mc["phi"], **a2["nocrack"])
            i1 = o1.ginc(U1, C1, sc["phi"], **a1["both"])
            i2 = o2.ginc(U2, C2, mc["phi"], **a2["both"])
            # both use adaptive quadrature to 1e-3
            mon.le("ginc", np.abs(i1 - i2) / max(np.max(np.abs(i1)), 1e-5), 5e-3, [i1, i2])
    if sc["system"] in gen.PST and "direct" not in sc:
        a = sc["seg"]
        q = dict(li=s1["li"], mi=s1["mi"], ki=s1["ki"])
        r = dict(li=s2["li"], mi=s2["mi"], ki=s2["ki"])
        for fn in ("internal_potential", "external_potential", "total_potential"):
            p1 = getattr(o1, fn)(C1, sc["phi"], L=a["L"], **q)
            p2 = getattr(o2, fn)(C2, mc["phi"], L=a["L"], **r)
            ref = abs(o1.internal_potential(C1, sc["phi"], L=a["L"], **q)) + abs(o1.external_potential(C1, sc["phi"], L=a["L"], **q))
            # grid sums are one-sided per segment: mirrored grids differ by a fraction of the mesh
            mon.le("potential", abs(p1 - p2) / ref, 0.1, [fn, p1, p2])
