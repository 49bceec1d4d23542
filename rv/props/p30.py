"""P30: substitute springs are the end stiffnesses of a free bedded beam, whatever else is going on on the instance."""
import numpy as np
from rv import gen

RULE = ("random slabs, weak layers, stiffness ratios and beam lengths from below a millimeter to many decay lengths, asked for repeatedly and in random "
        "order on one instance with loads and other systems set; compared with the end compliance of the reference boundary value problem; "
        "non-trivial = a spring compared")
REQUIRED = {"spring": 800, "rest-like-supported": 60, "growing": 60, "tiny": 100, "longer-than-decay": 100, "repeat": 100,
            "sys:-pst": 10, "sys:pst-": 10, "surface-load": 20, "load-free": 60}
N = {"quick": 1660, "thorough": 33200}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.material(rng)
        sc["system"] = gen.pick(rng, "pst-", "-pst", "pst-", "-pst", "skier", "skiers", "vpst-", "-vpst")
        sc["touchdown"] = bool(sc["system"] in gen.PST and rng.random() < 0.3)
        sc["ratio"] = float(gen.pick(rng, 1000.0, 1000.0, 1.0, rng.uniform(1, 100), rng.uniform(100, 10000)))
        sc["x"] = [float(gen.logu(rng, 0.05, 60.0)) for _ in range(5)]
        sc["r"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def run(sc, mon):
    m = gen.features(sc, mon)
    rng = np.random.default_rng(sc["r"])
    o = gen.instance(sc, touchdown=False)
    if sc["system"] == "skiers":
        o.calc_segments(phi=sc["phi"], ratio=sc["ratio"], **gen.segs_skiers(rng, 4))
    else:
        o.calc_segments(phi=sc["phi"], L=3000.0, a=400.0, ratio=sc["ratio"])
    ask = []
    for x in sc["x"]:
        for sup in ("rested", "supported"):
            for dof in ("rot", "trans"):
                ask.append((x, sup, dof))
    rng.shuffle(ask)
    seen = {}
    for x, sup, dof in ask:
        x = float(x)
        f = sc["ratio"] if sup == "rested" else 1.0
        L = x / m.lmax(f)               # relative to the shortest decay length
        k = float(o.substitute_stiffness(L, sup, dof))
        want = m.spring(L, dof, f)
        mon.true("positive", np.isfinite(k) and k > 0, {"L": L, "k": k})
        mon.close("spring", k, want, 1e-5 if x > 1 else 1e-3, detail={"L": L, "support": sup, "dof": dof, "ratio": sc["ratio"], "system": sc["system"]})
        mon.counts["longer-than-decay" if x > 6 else "short"] += 1
        seen[x, sup, dof] = k
        if rng.random() < 0.2:
            mon.close("repeat", float(o.substitute_stiffness(L, sup, dof)), k, 1e-9)
        mon.true("system-kept", o.system == sc["system"] and abs(o.kn / m.kn - 1) < 1e-12 and abs(o.kt / m.kt - 1) < 1e-12,
                 {"system": o.system, "kn": o.kn, "want": m.kn})
    # the default: rotation on the collapsed layer
    L = 2.0 / m.lmax(sc["ratio"])
    mon.close("default", float(o.substitute_stiffness(L)), m.spring(L, "rot", sc["ratio"]), 1e-5)
    # stiffness grows with length up to the one of the infinite beam
    for sup in ("rested", "supported"):
        for dof in ("rot", "trans"):
            f = sc["ratio"] if sup == "rested" else 1.0
            a, b = [float(o.substitute_stiffness(v / m.lmax(f), sup, dof)) for v in (0.05, 0.3)]
            mon.true("growing", 0 < a < b, {"a": a, "b": b, "dof": dof})
    # vanishing lengths give no resistance and no error
    for L in [0.0, 0, 1e-9, 1e-5] + [10 ** float(v) for v in np.linspace(-4, -1.1, 12) + sc["ratio"] % 0.1]:
        for dof in ("rot", "trans"):
            k = float(o.substitute_stiffness(L, gen.pick(rng, "rested", "supported"), dof))
            mon.true("tiny", np.isfinite(k) and k >= 0 and (L >= 1e-4 or k <= 1e-3 * seen_max(seen, dof)), {"L": L, "k": k})
    # loads play no role
    q = gen.instance({**sc, "p": 0.0}, touchdown=False)
    q.calc_segments(phi=0.0, L=3000.0, a=100.0, ratio=sc["ratio"], li=[9e3, 9e3], mi=[0], ki=[True, True], k0=[True, True])
    x, sup, dof = ask[0]
    f = sc["ratio"] if sup == "rested" else 1.0
    mon.close("load-free", float(q.substitute_stiffness(float(x) / m.lmax(f), sup, dof)), seen[float(x), sup, dof], 1e-7)
    # ratio one: both layers alike
    q.calc_segments(phi=sc["phi"], L=3000.0, a=100.0, ratio=1.0, li=[9e3, 9e3], mi=[0], ki=[True, True], k0=[True, True])
    L = 1.0 / m.lmax()
    for dof in ("rot", "trans"):
        mon.close("rest-like-supported", float(q.substitute_stiffness(L, "rested", dof)), float(q.substitute_stiffness(L, "supported", dof)), 1e-7)


def seen_max(seen, dof):
    return max(k for (x, sup, d), k in seen.items() if d == dof)
