"""P29: incremental energy release rates are the mean of differential ones over the growth of the crack."""
import numpy as np
from rv import gen

RULE = ("random slabs of every system with one edge crack (PSTs) or interior crack (all systems) grown from nothing to its length at fixed loads "
        "(weight, surface load, skiers inside and outside the crack); Gauss quadrature over the crack length of the reported gdif is compared with "
        "crack length times ginc, exactly (2e-4) for weak layers of vanishing thickness and the same stiffness, and up to the weak-layer "
        "thickness term otherwise; non-trivial = one crack growth integrated")
REQUIRED = {"thin": 60, "actual": 60, "edge": 20, "interior": 30, "sys:skier": 5, "sys:skiers": 10, "sys:pst-": 5, "sys:-pst": 5, "sys:vpst-": 2,
            "sys:-vpst": 2, "loaded": 20, "load-on-crack": 5, "phi-": 10, "phi+": 10, "phi0": 5, "surface-load": 15}
N = {"quick": 1470, "thorough": 29400}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["quadrature of orders 10 and 16 over the crack length; crack growths not resolved by them are skipped and counted"]


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.material(rng)
        if rng.random() < 0.15:
            sc["phi"] = 0.0
        sc["system"] = gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers", "skiers", "pst-", "-pst")
        far = sc["system"] in ("skier", "skiers")
        L = float(rng.uniform(12000, 24000)) if far else float(rng.uniform(700, 5000))
        a = float(rng.uniform(30, 900)) if far else L * float(rng.uniform(0.03, 0.55))
        edge = not far and rng.random() < 0.6
        c = L / 2 if sc["system"] == "skier" else float(rng.uniform(0.35, 0.65)) * L if far else L / 2 + float(rng.uniform(-0.5, 0.5)) * (0.9 * L - a)
        loads = []
        if sc["system"] == "skier":
            loads = [[L / 2, float(gen.pick(rng, 0.0, 80.0, rng.uniform(10, 200)))]]
        else:
            for _ in range(int(rng.integers(0, 3))):
                x = c + float(rng.uniform(-1.5, 1.5)) * a
                if 0.3 * L < x < 0.7 * L:
                    loads.append([x, float(rng.uniform(20, 150))])
        sc.update(L=L, a=a, c=c, edge=bool(edge), loads=loads)
        out.append(sc)
    return out


def layout(sc, a):
    """Segments of the system with the crack at length a."""
    L, s = sc["L"], sc["system"]
    if sc["edge"]:
        lo, hi = (L - a, L) if s in ("pst-", "vpst-") else (0.0, a)
    else:
        lo, hi = sc["c"] - a / 2, sc["c"] + a / 2
    pts = sorted({0.0, L, lo, hi, *[x for x, _ in sc["loads"]]})
    mass = {x: m for x, m in sc["loads"]}
    li = np.diff(pts)
    mid = (np.array(pts[1:]) + np.array(pts[:-1])) / 2
    ki = ~((mid > lo) & (mid < hi))
    return {"li": li, "mi": np.array([mass.get(x, 0.0) for x in pts[1:-1]]), "ki": ki}


def release(o, sc, a):
    s = layout(sc, a)
    C = o.assemble_and_solve(phi=sc["phi"], **s)
    return o.gdif(C, sc["phi"], li=s["li"], ki=s["ki"]), s, C


def run(sc, mon):
    m = gen.features(sc, mon)
    a = sc["a"]
    for thin in (True, False):
        q = dict(sc)
        if thin:
            w = {"t": 30.0, "E": 0.25, "nu": 0.25, **sc.get("weak", {})}
            q["weak"] = {"t": 1e-3, "E": w["E"] * 1e-3 / w["t"], "nu": w["nu"]}
        o = gen.instance(q)
        G, s, C = release(o, sc, a)
        C0 = o.assemble_and_solve(phi=sc["phi"], li=s["li"], mi=s["mi"], ki=np.full(s["li"].size, True))
        o.tol = 1e-9
        gi = np.asarray(o.ginc(C0, C, sc["phi"], li=s["li"], ki=s["ki"], k0=np.full(s["li"].size, True)))
        I = []
        for n in (10, 16):
            x, w = np.polynomial.legendre.leggauss(n)
            # loads on the crack path make gdif piecewise smooth: integrate in pieces
            e = {0.0, a}
            for xl, _ in sc["loads"]:
                d = 2 * abs(xl - sc["c"]) if not sc["edge"] else (sc["L"] - xl if sc["system"] in ("pst-", "vpst-") else xl)
                if 0 < d < a:
                    e.add(d)
            e = sorted(e)
            tot = 0.0
            for lo, hi in zip(e[:-1], e[1:]):
                for xi, wi in zip(x, w):
                    tot += wi * (hi - lo) / 2 * release(o, sc, lo + (hi - lo) / 2 * (1 + xi))[0][0]
            I.append(float(tot))
        want = float(gi[0]) * a
        qn = m.lam.q + m.p
        floor = 1e-3 * qn**2 / (2 * m.kn) * a * np.cos(np.deg2rad(sc["phi"])) ** 2
        if abs(I[1] - I[0]) > 2e-4 * (abs(I[1]) + floor):
            mon.counts["unresolved"] += 1
            continue
        d = {"thin": thin, "integral": I[1], "ginc*a": want, "a": a, "edge": sc["edge"]}
        r = abs(I[1] - want) / (max(abs(want), abs(I[1])) + floor)
        if thin:
            mon.le("thin", r, 2e-4, d)
        else:
            eta = m.kt * m.t * (m.lam.h + m.t) / m.lam.S
            mon.le("actual", r, 0.05 + 0.15 * eta, {**d, "eta": eta})
    mon.tag("edge" if sc["edge"] else "interior", "loaded" if sc["loads"] and any(x[1] for x in sc["loads"]) else None,
            "load-on-crack" if not sc["edge"] and any(abs(x - sc["c"]) < a / 2 for x, w in sc["loads"] if w) else None)
