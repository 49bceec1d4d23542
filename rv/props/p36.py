"""P36: special values are no special cases: results are continuous in the inputs."""
import copy
import numpy as np
from rv import gen, meta
from rv.props import p01

RULE = ("random experiments made special in several ways (flat ground, equal or symmetric layers and segments, no load, whole numbers, centred cracks, defaults, positions at ends) and the same "
        "experiments with every number changed by a relative 1e-7; every observable must stay within 1e-3 of its magnitude; non-trivial = pair of experiments compared")
REQUIRED = {"near:state2": 1000, "near:sig": 500, "near:gdif": 300, "near:Sxx": 200, "near:N": 500, "near:internal": 20, "near:ginc": 100, "special:flat": 100, "special:homogeneous": 50,
            "special:symmetric": 30, "special:equal-segments": 50, "special:equal-loads": 50, "special:unloaded": 50, "special:round": 100, "special:centred": 30, "special:incompressible": 30,
            "stage:B": 5, "stage:C": 5, "sys:skiers": 20, "sys:vpst-": 10, "sys:-vpst": 10, "same-stage": 20}
N = {"quick": 1000, "thorough": 20000}
EPS = 1e-7
CASE_TIMEOUT = 120


def special(rng, sc):
    """Make an experiment special; returns the names of what was done."""
    done = []
    lay = isinstance(sc["layers"], list)

    def maybe(name, prob, cond=True):
        if cond and rng.random() < prob:
            done.append(name)
            return True
        return False
    touch = sc.get("touchdown")
    if maybe("flat", 0.35):
        sc["phi"] = 0.0
    elif maybe("diagonal", 0.1, not touch):
        sc["phi"] = float(gen.pick(rng, 45, -45, 30, -30, 60, -60))
    if maybe("homogeneous", 0.15, lay and not touch):
        for row in sc["layers"]:
            row[0] = sc["layers"][0][0]
    elif maybe("symmetric", 0.15, lay and not touch):
        half = sc["layers"][:3]
        sc["layers"] = [list(r) for r in half] + [list(r) for r in half[::-1]]
    if maybe("round", 0.25, lay and not touch):
        sc["layers"] = [[float(round(r, -1)), float(max(5, round(h, -1)))] for r, h in sc["layers"]]
        for k, v in list(sc["seg"].items()):
            if k in ("L", "a") and v >= 10:
                sc["seg"][k] = float(round(v, -1))
    if maybe("unloaded", 0.2, not touch):
        sc["p"] = 0.0
        if "m" in sc["seg"]:
            sc["seg"]["m"] = 0.0
        if "mi" in sc["seg"]:
            sc["seg"]["mi"] = [0.0] * len(sc["seg"]["mi"])
    if maybe("incompressible", 0.12, not touch):
        # Poisson's ratios at the ends of their range, equal in slab and weak layer
        nu = float(gen.pick(rng, 0.0, 0.25, 0.3))
        sc["weak"] = {**sc["weak"], "nu": nu}
        sc["beam"] = {**sc.get("beam", {}), "nu": nu}
    for key in ("seg", "direct"):
        d = sc.get(key)
        if d and "li" in d:
            if maybe("equal-segments", 0.4):
                inner = d["li"][1]
                d["li"] = [d["li"][0]] + [inner] * (len(d["li"]) - 2) + [d["li"][0]]
                if key == "direct":
                    d["li"] = [min(v, 900.0) for v in d["li"]]
            if maybe("equal-loads", 0.3):
                d["mi"] = [d["mi"][0]] * len(d["mi"])
    if maybe("centred", 0.25, "L" in sc["seg"] and sc["system"] != "skier" and not touch):
        sc["seg"]["a"] = sc["seg"]["L"] / 2
    elif maybe("no-crack", 0.2, sc["system"] == "skier"):
        sc["seg"]["a"] = 0.0
    sc["special"] = done
    return sc


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        if rng.random() < 0.15:
            sc = p01.gen_touch(rng)
            if sc is None:
                continue
        else:
            sc = gen.scenario(rng, profile=0.05)
            if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.4:
                sc["direct"] = gen.free_li(rng)
        sc = special(rng, sc)
        sc["dz"] = float(rng.uniform(4.1, 41.3))
        sc["seed"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def nearby(sc, rng):
    """The same experiment with every number slightly different."""
    def f(v, unit=0.0):
        return float(v * (1 + EPS * rng.uniform(-1, 1)) + EPS * unit * rng.uniform(0.2, 1))
    q = copy.deepcopy(sc)
    if isinstance(q["layers"], list):
        q["layers"] = [[f(r), f(h)] for r, h in q["layers"]]
    w = sc.get("weak", {})
    q["weak"] = {"t": f(w.get("t", 30.0)), "E": f(w.get("E", 0.25)), "nu": f(w.get("nu", 0.25), 1.0)}
    b = sc.get("beam", {})
    q["beam"] = {"nu": f(b.get("nu", 0.25), 1.0)}
    if isinstance(sc["layers"], list):
        q["beam"].update(C0=f(b.get("C0", 6.5)), C1=f(b.get("C1", 4.4)))
    q["p"] = f(sc["p"], 1e-3)
    q["phi"] = f(sc["phi"], gen.pick(rng, 30.0, -30.0))
    for key in ("seg", "direct"):
        d = q.get(key)
        if not d:
            continue
        for k in ("L", "cf", "ratio"):
            if k in d:
                d[k] = f(d[k])
        if "a" in d:
            d["a"] = f(d["a"], 100.0)
        if "m" in d:
            d["m"] = f(d["m"], 100.0)
        if "li" in d:
            d["li"], d["mi"] = [f(v) for v in d["li"]], [f(v, 100.0) for v in d["mi"]]
    return q


def run(sc, mon):
    m = gen.features(sc, mon)
    rng = np.random.default_rng(sc["seed"])
    q = nearby(sc, rng)
    for name in sc["special"]:
        mon.counts["special:" + name] += 1
    A = meta.observe(sc, sc["seed"], sc["dz"], m, floor=0.3)
    B = meta.observe(q, sc["seed"], sc["dz"], m, eps=EPS)
    if sc.get("touchdown"):
        mon.tag("stage:%s" % A.mode)
        if A.mode != B.mode:
            return                          # the stage may change at a threshold
        mon.counts["same-stage"] += 1
    # the wedge vanishes with the inclination, its centroid need not
    skip = {"wedge x", "wedge z"} if sc["phi"] == 0 else set()
    # segments of no length are not observed, and the grid through thickness may change where a spacing divides a layer
    for k in list(A):
        a, b = np.shape(A[k][0]), np.shape(B[k][0]) if k in B else None
        if (b is None and k.startswith("state")) or k in ("Sxx", "Txz", "Szz", "Ps") and a != b:
            skip.add(k.split(":")[0]) if not k.startswith("state") else A.pop(k)
    if len(A.z) != len(B.z):
        # fields were sampled on different segments
        for k in [k for k in A if not k.startswith("state") and k not in ("gdif", "h", "zs", "lengths")]:
            A.pop(k)
        for k in [k for k in A if k == "ginc"]:
            A.pop(k)
    meta.compare(mon, "near", A, B, tol=1e-3, skip=skip, info={"special": sc["special"]})
