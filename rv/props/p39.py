"""P39: elastic theorems: reciprocity, positive work, and compliance that grows with cracks and shrinks with stiffness.

The published model derives the weak-layer shear stress with the lever arm t/2 of the weak layer but not the corresponding
term of the slab's shear force, so it is conservative only up to terms of the order of t: the theorems are exact for a thin
weak layer of the same spring stiffness (most cases here) and hold approximately for a thick one.
"""
import copy
import numpy as np
from rv import gen, meta, obs

RULE = ("random skier systems with unit skiers at every transition and random propagation saw tests under two different loadings; the flexibility matrix formed from observed displacements "
        "must be symmetric and positive, and order by stiffness when the weak layer or slab is stiffened, a crack opened or closed, or the ends moved out; non-trivial = one theorem checked")
REQUIRED = {"thin": 200, "thick": 80, "reciprocity": 500, "positive": 200, "stiffer weak layer": 80, "stiffer slab": 80, "denser layer": 40, "crack closed": 60, "crack opened": 60, "ends moved out": 80,
            "pst reciprocity": 200, "pst positive": 200, "pst longer cut": 100, "pst stiffer weak layer": 80, "pst stiffer slab": 80, "sys:skiers": 100, "sys:pst-": 50, "sys:-pst": 50,
            "phi+": 20, "phi-": 20, "unsupported": 60, "B>0": 20, "B<0": 20}
N = {"quick": 1000, "thorough": 20000}
CASE_TIMEOUT = 120
THIN, THICK = 1e-5, 0.15


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        sc = gen.scenario(rng, systems=("skiers", "pst"), profile=0.0)
        sc["touchdown"] = False
        if sc["system"] == "skiers":
            s = gen.segs_skiers(rng, 6, far=(3000, 12000))
            s["mi"] = [float(gen.pick(rng, 0.0, 80.0, rng.uniform(20, 150))) for _ in s["mi"]]
            sc["seg"] = s
        else:
            sc["free"] = gen.free_li(rng, 5)
        w = {"t": 30.0, "E": 0.25, "nu": 0.25, **(sc.get("weak") or {})}
        sc["thin"] = bool(rng.random() < 0.75)
        if sc["thin"]:
            t = gen.logu(rng, 1e-5, 1e-3)
            w["E"] *= t / w["t"]
            w["t"] = t
        sc["weak"] = w
        sc["phi2"] = gen.phi(rng)
        sc["p2"] = float(gen.pick(rng, 0.0, rng.uniform(0, 5e-3)))
        sc["fac"] = float(gen.pick(rng, rng.uniform(1.05, 4), gen.logu(rng, 1.01, 30)))
        sc["seed"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def stiffer(sc, what, rng):
    """A scenario that is nowhere softer."""
    s = copy.deepcopy(sc)
    if what == "stiffer weak layer":
        s["weak"] = {"t": 30.0, "E": 0.25, "nu": 0.25, **(s.get("weak") or {})}
        s["weak"]["E"] *= sc["fac"]
    elif what == "stiffer slab":
        s["beam"] = {"C0": 6.5, "C1": 4.4, "nu": 0.25, **(s.get("beam") or {})}
        s["beam"]["C0"] *= sc["fac"]
    elif what == "denser layer":
        i = int(rng.integers(len(s["layers"])))
        s["layers"][i][0] *= 1 + 0.3 * float(rng.uniform(0.1, 1))
    return s


def skiers(sc, seg):
    """Flexibility of the transitions under unit skiers, and its numerical noise."""
    phi = sc["phi"]
    o = gen.instance(sc)
    n = len(seg["li"])
    r = np.deg2rad(phi)
    f = np.array([np.cos(r), -np.sin(r)])
    h = sum(t for _, t in sc["layers"])
    mass = 100.0
    F = float(np.hypot(*[float(v) for v in o.get_skier_load(mass, phi)]))

    def at(mi):
        s = {"li": np.array(seg["li"], float), "mi": np.array(mi, float), "ki": np.array(seg["ki"], bool)}
        C = meta.quiet(o.assemble_and_solve, phi=phi, **s)
        return np.hstack([gen.states(o, sc, s, C, i, [s["li"][i]]) for i in range(n - 1)])
    Z0 = at([0.0] * (n - 1))
    W = np.empty((n - 1, n - 1))
    big = 0.0
    for j in range(n - 1):
        mi = [0.0] * (n - 1)
        mi[j] = mass
        Z = at(mi)
        d = Z - Z0
        big = max(big, np.abs(f @ np.array([Z[2], Z[0] - h / 2 * Z[4]])).max())
        W[:, j] = f[0] * d[2] + f[1] * (d[0] - h / 2 * d[4])
    return W / F, big / F


def ordered(mon, name, soft, stiff, noise, tol, detail):
    """soft - stiff has no negative direction."""
    s = max(np.abs(soft).max(), np.abs(stiff).max())
    D = soft - stiff
    low = -np.linalg.eigvalsh((D + D.T) / 2).min()
    mon.le(name, max(0.0, low) / (s + 1e-6 * noise), tol, detail)


def run(sc, mon):
    m = gen.features(sc, mon)
    mon.counts["thin"] += sc["thin"]
    mon.counts["thick"] += not sc["thin"]
    rng = np.random.default_rng(sc["seed"])
    (run_skiers if sc["system"] == "skiers" else run_pst)(sc, mon, m, rng)


def run_skiers(sc, mon, m, rng):
    seg = sc["seg"]
    tol = THIN if sc["thin"] else THICK
    W, noise = skiers(sc, seg)
    mon.counts["unsupported"] += not all(seg["ki"])
    s = np.sqrt(np.outer(np.abs(np.diag(W)), np.abs(np.diag(W)))) + 1e-6 * noise
    mon.le("reciprocity", np.abs(W - W.T) / s, tol, {"W": W})
    mon.true("positive", np.all(np.diag(W) > 0), {"diagonal": np.diag(W)})
    mon.le("positive", max(0.0, -np.linalg.eigvalsh((W + W.T) / 2).min()) / (np.abs(W).max() + 1e-6 * noise), tol, {"W": W})
    for what in ("stiffer weak layer", "stiffer slab", "denser layer"):
        W2, n2 = skiers(stiffer(sc, what, rng), seg)
        ordered(mon, what, W, W2, max(noise, n2), tol, {"soft": np.diag(W), "stiff": np.diag(W2)})
    inner = range(1, len(seg["ki"]) - 1)
    for what, now in (("crack closed", False), ("crack opened", True)):
        which = [i for i in inner if bool(seg["ki"][i]) is now and (not now or seg["li"][i] < 1500)]
        if which:
            i = which[int(rng.integers(len(which)))]
            s2 = copy.deepcopy(seg)
            s2["ki"][i] = not now
            W2, n2 = skiers(sc, s2)
            soft, stiff = (W2, W) if now else (W, W2)
            ordered(mon, what, soft, stiff, max(noise, n2), tol, {"segment": i, "soft": np.diag(soft), "stiff": np.diag(stiff)})
    s2 = copy.deepcopy(seg)
    s2["li"][0] += float(rng.uniform(100, 5000))
    s2["li"][-1] += float(rng.uniform(100, 5000))
    W2, n2 = skiers(sc, s2)
    ordered(mon, "ends moved out", W2, W, max(noise, n2), tol, {"soft": np.diag(W2), "stiff": np.diag(W)})


def works(sc, seg, cases, loads=None):
    """Work of the loads of each case on the displacements of each case."""
    out = np.zeros((len(cases), len(cases)))
    mag = 0.0
    h, zs, ell = None, None, None
    sols = []
    for phi, p in cases:
        s = {**sc, "phi": phi, "p": p}
        o = gen.instance(s)
        m = gen.model(s)
        C = o.assemble_and_solve(phi=phi, **{k: np.array(seg[k]) for k in ("li", "mi", "ki")})
        sols.append((s, o, m, C))
    if loads is None:
        loads = [m.loads(s["phi"]) for s, _, m, _ in sols]
    for i, l in enumerate(seg["li"]):
        if l <= 0:
            continue
        x, w = obs.gauss(0, float(l), 1.0 / sols[0][2].lmax(), 6)
        for b, (s, o, m, C) in enumerate(sols):
            Z = gen.states(o, s, seg, C, i, x)
            h, zs = m.lam.h, m.lam.zs
            for a, (qn, qt, pn, pt) in enumerate(loads):
                part = [(qn + pn) * Z[2] @ w, qt * (Z[0] + zs * Z[4]) @ w, pt * (Z[0] - h / 2 * Z[4]) @ w]
                out[a, b] += sum(part)
                mag = max(mag, *np.abs(part))
    return out, mag, loads


def run_pst(sc, mon, m, rng):
    cases = [(sc["phi"], sc.get("p", 0.0)), (sc["phi2"], sc["p2"])]
    f = sc["free"]
    seg = {"li": f["li"], "ki": f["ki"], "mi": [0.0] * (len(f["li"]) - 1)}
    mon.counts["unsupported"] += not all(seg["ki"])
    tol = THIN if sc["thin"] else THICK
    W, mag, loads = works(sc, seg, cases)
    s = np.sqrt(np.abs(W[0, 0] * W[1, 1])) + 1e-6 * mag
    mon.le("pst reciprocity", abs(W[0, 1] - W[1, 0]) / s, tol, {"W": W})
    mon.true("pst positive", W[0, 0] > 0 and W[1, 1] > 0, {"W": W})
    mon.le("pst positive", max(0.0, -np.linalg.eigvalsh((W + W.T) / 2).min()) / (np.abs(W).max()), tol, {"W": W})
    for what in ("stiffer weak layer", "stiffer slab"):
        W2, g2, _ = works(stiffer(sc, what, rng), seg, cases, loads)
        ordered(mon, "pst " + what, W, W2, max(mag, g2), tol, {"soft": np.diag(W), "stiff": np.diag(W2)})
    # moving the tip of a crack into the supported part
    tips = [i for i in range(len(seg["ki"]) - 1) if bool(seg["ki"][i]) != bool(seg["ki"][i + 1])]
    if tips:
        i = tips[int(rng.integers(len(tips)))]
        sup, cut = (i, i + 1) if seg["ki"][i] else (i + 1, i)
        da = float(rng.uniform(0.02, 0.5)) * min(seg["li"][sup], 500.0)
        s2 = copy.deepcopy(seg)
        s2["li"] = list(map(float, s2["li"]))
        s2["li"][sup] -= da
        s2["li"][cut] += da
        W2, g2, _ = works(sc, s2, cases)
        ordered(mon, "pst longer cut", W2, W, max(mag, g2), tol, {"da": da, "soft": np.diag(W2), "stiff": np.diag(W)})
