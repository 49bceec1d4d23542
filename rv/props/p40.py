"""P40: the coupled stress-energy criterion of the examples against independently evaluated stresses and energies."""
import contextlib, copy, importlib.util, inspect, io, os
import numpy as np
from rv import core, gen, obs

RULE = ("random slabs, slopes, weak layers and strengths put through the example's critical-load, anticrack-nucleation and self-propagation searches, also with failing "
        "intermediate searches injected so that the fallback takes over; what they return is judged by stresses and energies of an independently solved model and "
        "a separate envelope; non-trivial = at least one search judged")
REQUIRED = {"skier at the middle": 200, "stresses": 200, "critical load": 80, "nucleation:energy": 12, "nucleation:edges": 24, "nucleation:outside": 12, "nucleation:inside": 12,
            "nucleation:rate": 40, "pure stress": 10, "propagation": 40, "self-propagation": 15, "envelope": 500, "split": 300, "locate": 300, "inputs": 300,
            "injected": 6, "schottner": 3}
N = {"quick": 100, "thorough": 2200}
CASE_TIMEOUT = 400
GC = ((0.56, 5.0), (0.79, 1 / 0.45))


def module():
    path = os.path.join(core.REPO, "examples", "criterion_check.py")
    spec = importlib.util.spec_from_file_location("rv_criterion_check", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class Watch:
    """Calls inside the searches that meet a listed defect, after which the search is about another problem."""

    def __init__(self, sc, mon, cc):
        self.sc, self.mon, self.met = sc, mon, set()
        for name, f in (("create_skier_object", self.place), ("split_segments_at_midpoint", self.split), ("check_coupled_criterion_anticrack_nucleation_dampened", self.fall)):
            setattr(cc, name, self.wrap(getattr(cc, name), f))

    def wrap(self, real, f):
        sig = inspect.signature(real)

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            before = copy.deepcopy(dict(b.arguments)) if f != self.fall else dict(b.arguments)
            out = real(*a, **k)
            f(before, out)
            return out
        return call

    def note(self, name, ok, what, finding):
        if not ok:
            self.met.add(finding)
        self.mon.true(name, ok, what, finding=finding)

    def place(self, arg, out):
        _, w, _, li = list(arg.values())[:4]
        if w and len(li) > 1:
            x = displaced(li)
            if x is not None:
                at, _ = skier_at(out[2])
                self.note("skier at the middle", not (len(at) == 1 and abs(at[0] - x) <= 1e-9 * sum(li) and abs(at[0]) > 1e-6 * sum(li)), {"li": li, "at": at}, "middle-rounding")

    def split(self, arg, out):
        li, ki = list(arg.values())[:2]
        self.note("split", not doubled(list(li), list(ki), out), {"li": li, "got": out}, "split-first-segment")

    def fall(self, arg, out):
        want = {"t": self.sc["weak"]["t"], "E": self.sc["weak"]["E"], **self.sc["strength"]}
        lost = [k for k, v in want.items() if arg.get(k) != v]
        default = {"t": 30, "density": 250}
        fits = lost and all(k in default and arg.get(k) == default[k] for k in lost)
        if lost:
            self.met.add("fallback-parameters")
        self.mon.true("fallback", not lost, {"lost": lost, "got": {k: arg.get(k) for k in want}}, finding="fallback-parameters" if fits else None)


def displaced(li):
    """Where rounding of the sums of lengths puts the skier instead of the middle."""
    half, c, first = sum(li) / 2, 0, None
    for i, v in enumerate(li):
        c += v
        if first is None and c >= half * (1 - 1e-12):
            first = i
        if c >= half:
            if first == i or i + 1 >= len(li):
                return None
            e = np.cumsum(li)
            return float(e[i + 1 if li[i + 1] == 0 else i] - e[-1] / 2)
    return None


def doubled(li, ki, out):
    """The split of a first segment that holds the middle: the half is put before the whole."""
    mid = sum(li) / 2
    return li[0] > mid and len(out[0]) == len(li) + 1 and np.allclose(out[0], [mid, *li], rtol=1e-12, atol=0) and list(out[1]) == [ki[0], *ki]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        n = int(rng.integers(1, 5))
        sc = {"layers": [[float(rng.uniform(120, 350)), float(rng.uniform(40, 250))] for _ in range(n)], "phi": gen.phi(rng, 45), "system": "skiers",
              "weak": {"E": float(gen.pick(rng, 0.25, rng.uniform(0.1, 1), gen.logu(rng, 0.1, 4))), "t": float(gen.pick(rng, 30, 20, rng.uniform(8, 50)))}}
        if rng.random() < 0.2:
            sc["strength"] = {"envelope": "schottner", "density": float(rng.uniform(105, 160)), "order_of_magnitude": 4.4}
        else:
            sc["strength"] = {"scaling_factor": float(rng.uniform(0.3, 1.6))}
            if rng.random() < 0.5:
                sc["strength"]["order_of_magnitude"] = float(gen.pick(rng, 1, 0.5, rng.uniform(0.3, 1.5)))
        if rng.random() < 0.3:
            sc["strength"] = {"scaling_factor": 0.55, "order_of_magnitude": float(rng.uniform(1, 2.5))}   # weak: collapses under little
        sc["what"] = ["nucleation", "nucleation", "dampened", "injected"][i % 4] if i % 12 else "soft"
        if sc["what"] == "soft":
            sc["strength"] = {"scaling_factor": 0.55, "order_of_magnitude": float(rng.uniform(3, 6))}
        sc["seed"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def strength(sc):
    """Normal and shear strength (kPa)."""
    s = {"envelope": "adam_unpublished", "scaling_factor": 1, "order_of_magnitude": 1, "density": 250, **sc["strength"]}
    if s["envelope"] == "schottner":
        a = 2000 * 13 * (s["density"] / 916.7) ** s["order_of_magnitude"]
        return a, 5.09 * a / 6.16
    p = 0.7 if s["scaling_factor"] > 1 else s["order_of_magnitude"]
    f = max(s["scaling_factor"], 0.55) ** p
    return 6.16 * f, 5.09 * f


def toughness(G1, G2):
    return (abs(G1) / GC[0][0]) ** GC[0][1] + (abs(G2) / GC[1][0]) ** GC[1][1]


def solve(sc, li, ki, mi):
    """A separately built model of the same system."""
    o = gen.instance(sc)
    seg = {"li": np.asarray(li, float), "ki": np.asarray(ki, bool), "mi": np.asarray(mi, float), "k0": np.ones(len(ki), bool)}
    return o, seg, o.assemble_and_solve(phi=sc["phi"], li=seg["li"], mi=seg["mi"], ki=seg["ki"])


def refer(sc, m, li, ki, mi):
    """The independent reference solution, its outer supported segments cut where nothing of the crack is felt any more."""
    li = np.array(li, float)
    cut = np.zeros(2)
    cap = 45 / m.lmin()
    for n, i in enumerate((0, len(li) - 1)):
        if ki[i] and li[i] > cap and len(li) > 1:
            cut[n], li[i] = li[i] - cap, cap
    return m.solve(li, ki, mi, sc["phi"], *[m.bc_rows("far", sc["phi"])] * 2), np.concatenate([[0], np.cumsum(li)]) + cut[0], cut


def exceed(sc, m, sol, xs):
    """Stress criterion of the reference springs at positions of a fully supported reference solution."""
    S, e, _ = sol
    xs = np.clip(np.asarray(xs, float), e[0], e[-1])       # uniform beyond
    i = np.clip(np.searchsorted(e, xs) - 1, 0, len(e) - 2)
    A, B = strength(sc)
    out = np.empty(xs.size)
    for j in np.unique(i):
        sig, tau = obs.weak(m, S.at(j, xs[i == j] - e[j]))
        out[i == j] = (1e3 * sig / A) ** 2 + (1e3 * tau / B) ** 2
    return out


def skier_at(seg):
    e, mi = np.cumsum(seg["li"]), np.asarray(seg["mi"], float)
    k = np.flatnonzero(mi)
    return [float(e[i] - e[-1] / 2) for i in k], [float(mi[i]) for i in k]


def increment(sc, m, li, ki, w):
    """Incremental energy release rates (J/m^2) of opening the given segments under the weight w at the middle."""
    e = np.cumsum(li)
    mi = np.zeros(len(li) - 1)
    mi[int(np.argmin(np.abs(e[:-1] - e[-1] / 2)))] = w
    S0, S1 = refer(sc, m, li, np.ones(len(li), bool), mi)[0], refer(sc, m, li, ki, mi)[0]
    G = np.zeros(2)
    for j in np.flatnonzero(~np.asarray(ki, bool)):
        if li[j] > 0:
            x, q = obs.gauss(0, li[j], 1.5 / m.lmax(), 8)
            (s0, t0), (s1, t1) = obs.weak(m, S0.at(j, x)), obs.weak(m, S1.at(j, x))
            G += np.array([s0 * s1 / m.kn, t0 * t1 / m.kt]) @ q
    return 1e3 * G / (2 * np.sum(np.asarray(li)[~np.asarray(ki, bool)]))


def run(sc, mon):
    cc = module()
    rng = np.random.default_rng(sc["seed"])
    m = gen.features(sc, mon)
    lay, phi, E, t = copy.deepcopy(sc["layers"]), sc["phi"], sc["weak"]["E"], sc["weak"]["t"]
    st = sc["strength"]
    if st.get("envelope") == "schottner":
        mon.counts["schottner"] += 1
    parts(sc, mon, cc, rng)
    with contextlib.redirect_stdout(io.StringIO()):
        building(sc, mon, cc, m, rng, lay)
        watch = Watch(sc, mon, cc)
        force(sc, mon, cc, m, lay)
        nucleation(sc, mon, cc, m, lay, watch)
        propagation(sc, mon, cc, m, lay, rng, watch)
    mon.true("inputs", lay == sc["layers"], lay)


def building(sc, mon, cc, m, rng, lay):
    L = float(rng.uniform(8000, 60000))
    a, b, c = float(rng.uniform(1, 900)), float(rng.uniform(1, 900)), float(rng.uniform(100, 900))
    w = float(rng.uniform(20, 300))
    for li, ki in ([[L / 2, L / 2], [True, True]], [[L / 2 - a, a, a, L / 2 - a], [True, False, False, True]], [[L / 2, 0, 0, L / 2], [True, False, False, True]],
                   [[L / 2 - a, a, b, L / 2 - b], [True, False, False, True]], [[L / 2 - a - c, c, a, b, L / 2 - b], [True, False, True, True, True]]):
        for case in ("crack", "nocrack"):
            if li[1] == 0 and case == "crack":
                continue
            o, C, seg, x, sig, tau = cc.create_skier_object(lay, w, sc["phi"], list(li), list(ki), crack_case=case, E=sc["weak"]["E"], t=sc["weak"]["t"])
            at, ws = skier_at(seg)
            e = np.cumsum(li)
            if np.min(np.abs(e - e[-1] / 2)) > 1e-6:
                continue
            x0 = displaced(li)
            known = x0 is not None and len(at) == 1 and abs(at[0] - x0) <= 1e-9 * L
            if not mon.true("skier at the middle", len(at) == 1 and abs(at[0]) <= 1e-6 * L and abs(ws[0] - w) <= 1e-9 * w, {"li": li, "at": at, "weights": ws},
                            finding="middle-rounding" if known else None):
                continue
            want = np.asarray(ki) if case == "crack" else np.ones(len(ki), bool)
            mon.true("segments", np.allclose(seg["li"], li) and np.array_equal(np.asarray(seg["ki"], bool), want), {"got": [seg["li"], seg["ki"]], "want": [li, want]})
            mi = np.zeros(len(li) - 1)
            k = [i for i in range(len(li) - 1) if abs(e[i] - e[-1] / 2) <= 1e-6][-1]
            mi[k] = w
            o2, s2, C2 = solve(sc, li, want, mi)
            x2, z2, xb2 = o2.rasterize_solution(C=C2, phi=sc["phi"], num=800, **s2)
            sg, ta = obs.weak(m, z2)
            f = np.isfinite(xb2)
            got = [np.asarray(v, float)[np.isfinite(np.asarray(v, float))] for v in (x, sig, tau)]
            if len({v.size for v in got}) > 1:        # values given at unsupported positions, too
                g = np.isfinite(np.asarray(x, float))
                got = [np.asarray(v, float)[g] for v in (x, sig, tau)] if len({np.size(v) for v in (x, sig, tau)}) == 1 else got
            x, sig, tau = got
            ok = mon.true("stresses", x.size == sig.size == tau.size == np.count_nonzero(f), {"sizes": [x.size, sig.size, tau.size, np.count_nonzero(f)]})
            if ok:
                top = 1e3 * max(np.max(np.abs(sg)), np.max(np.abs(ta)))
                mon.le("stresses", np.abs(np.asarray(sig) - 1e3 * sg[f]) / top, 1e-5, "normal")
                mon.le("stresses", np.abs(np.asarray(tau) - 1e3 * ta[f]) / top, 1e-5, "shear")
                mon.le("stresses", np.abs(np.asarray(x) - xb2[f] / 10) / L, 1e-9, "positions")


def peak(sc, m, L, w):
    """Extremes of the criterion along the uncracked weak layer under the weight w in the middle."""
    sol = refer(sc, m, [L / 2, L / 2], [True, True], [w])
    d = min(L / 2, 45 / m.lmin())
    xs = L / 2 + np.unique(np.concatenate([np.linspace(-d, d, 201), np.linspace(-600, 600, 121)]))
    xs = xs[np.abs(xs - L / 2) <= L / 2]
    v = exceed(sc, m, sol, xs)
    i = int(np.argmax(v))
    fine = np.linspace(xs[max(i - 1, 0)], xs[min(i + 1, xs.size - 1)], 41)
    return max(np.max(v), np.max(exceed(sc, m, sol, fine))), np.min(v), sol


def force(sc, mon, cc, m, lay):
    L = 1000 * sum(h for _, h in sc["layers"])
    kw = dict(sc["strength"], E=sc["weak"]["E"], t=sc["weak"]["t"])
    for fn, extra in ((cc.find_minimum_force, {}), (cc.find_minimum_force_dampened, {"dampening": 1})):
        li, ki = [L / 2, 0, 0, L / 2], [True] * 4
        w, o, C, seg, x, sig, tau, dmax, dmin = fn(lay, sc["phi"], li, ki, **kw, **extra)
        mon.true("inputs", li == [L / 2, 0, 0, L / 2] and ki == [True] * 4, "segments changed")
        if w == 0:
            mon.counts["no critical load"] += 1
            continue
        hi, lo, _ = peak(sc, m, L, w)
        if dmin >= 1:
            mon.counts["exceeded everywhere"] += 1
            mon.true("collapse", lo >= 1 - 1e-3, {"weight": w, "least": lo, "reported": dmin})
            continue
        o2, s2, C2 = solve(sc, [L / 2, 0, 0, L / 2], [True] * 4, [0, w, 0])
        xr = o2.rasterize_solution(C=C2, phi=sc["phi"], num=800, **s2)[0]       # positions of the samples
        sol = refer(sc, m, [L / 2, L / 2], [True, True], [w])
        # shear stresses jump below the skier, where either side may be taken
        at = [float(np.max(exceed(sc, m, sol, np.where(np.abs(xr - L / 2) < 1e-3, L / 2 + d, xr)))) for d in (-1e-3, 1e-3)]
        mon.le("critical load", np.min(np.abs(np.array(at) - 1)), 0.0102 if extra else 0.0101,
               {"fn": fn.__name__, "weight": w, "criterion": at, "reported": dmax})
        mon.true("critical load", hi <= 1.5, {"fn": fn.__name__, "weight": w, "between the samples": hi})
        mon.true("weight", w > 0 and skier_at(seg)[1] and abs(skier_at(seg)[1][0] - w) <= 1e-9 * w, {"weight": w, "in the system": skier_at(seg)})


def nucleation(sc, mon, cc, m, lay, watch):
    L0 = sum(h for _, h in sc["layers"])
    kw = dict(sc["strength"], E=sc["weak"]["E"], t=sc["weak"]["t"])
    phi = sc["phi"]
    search = cc.find_new_anticrack_length
    if sc["what"] == "dampened":
        r = cc.check_coupled_criterion_anticrack_nucleation_dampened(lay, phi, 80, dampening=1, **kw)
    else:
        if sc["what"] == "injected":
            left = [25]

            def failing(profile, weight, *a, **k):
                if left[0] > 0:
                    left[0] -= 1
                    return 0, [L0 * 500, L0 * 500], [True, True]
                return search(profile, weight, *a, **k)
            cc.find_new_anticrack_length = failing
        try:
            r = cc.check_coupled_criterion_anticrack_nucleation(lay, phi, 80, **kw)
        finally:
            cc.find_new_anticrack_length = search
        if sc["what"] == "injected" and left[0] == 0:
            mon.counts["injected"] += 1
    if watch.met:           # a listed defect made the search one of another system
        mon.counts["met a listed defect"] += 1
        return
    ok, a, w, seg, collapse, pure, wc, g, its = r[0], r[1], r[2], r[5], r[13], r[14], r[15], r[16], r[9]
    info = {"result": ok, "crack": a, "weight": w, "critical": wc, "g": g, "iterations": its, "pure": pure, "collapse": collapse, "what": sc["what"]}
    li, ki = np.asarray(seg["li"], float), np.asarray(seg["ki"], bool)
    L = float(np.sum(li))
    if collapse:
        hi, lo, _ = peak(sc, m, L, 1.0)
        mon.counts["self-collapse"] += 1
        mon.true("collapse", ok and w == 0 and lo >= 1 - 1e-3, {**info, "least": lo})
        return
    if not ok or not any(~ki):
        mon.counts["no solution"] += 1
        if ok is False and wc < 1:
            mon.counts["critical below 1 kg"] += 1
        return
    mon.le("nucleation:length", abs(np.sum(li[~ki]) - a) / L, 1e-9, info)
    at, ws = skier_at(seg)
    if not mon.true("nucleation:skier", len(at) == 1 and abs(at[0]) <= 1e-6 * L and abs(ws[0] - w) <= 1e-9 * w, {**info, "at": at, "weights": ws, "li": li}):
        return
    Gi = increment(sc, m, li, ki, w)
    mine = toughness(*Gi)
    mon.le("nucleation:rate", abs(mine - g) / (1e-9 + max(mine, g)), 1e-4, {**info, "own": mine})
    hist = {"weights": r[11], "lengths": r[12], "g": r[18], "envelope": r[19]}
    mon.true("history", len(r[10]) == len(r[11]) == len(r[12]) == len(r[18]) == len(r[19]) == its and np.all(np.diff(r[10]) >= 0)
             and abs(r[18][-1] - g) <= 1e-9 * abs(g) + 1e-12 and abs(r[11][-1] - w) <= 1e-9 * w, {**info, **{k: len(v) for k, v in hist.items()}})
    hi, lo, sol = peak(sc, m, L, w)
    mon.true("nucleation:weight", w >= wc * (1 - 1e-9) and hi >= 0.8, {**info, "criterion": hi})
    if pure:
        mon.true("pure stress", g > 1 - 0.02 and hi <= 1.55 and its == 1, {**info, "criterion": hi})
        return
    mon.le("nucleation:energy", abs(mine - 1), 0.0021, {**info, "own": mine})
    e = np.concatenate([[0], np.cumsum(li)])
    tips = [e[i] for i in range(1, len(li)) if ki[i] != ki[i - 1]]
    mon.le("nucleation:edges", np.abs(exceed(sc, m, sol, tips) - 1), 1e-4, {**info, "tips": tips})
    for i in range(len(li)):
        if li[i] < 1e-3:
            continue
        d = np.linspace(0.02, 0.98, 9) if not ki[i] else np.linspace(0.001, 0.999, 60)
        v = exceed(sc, m, sol, e[i] + d * li[i])
        if ki[i]:
            mon.true("nucleation:outside", np.max(v) <= 1 + 1e-3, {**info, "segment": i, "max": np.max(v), "li": li, "ki": ki})
        else:
            mon.true("nucleation:inside", np.min(v) >= 1 - 1e-3, {**info, "segment": i, "min": np.min(v), "li": li, "ki": ki})


def propagation(sc, mon, cc, m, lay, rng, watch):
    E, t, phi = sc["weak"]["E"], sc["weak"]["t"], sc["phi"]
    L = 1000 * sum(h for _, h in sc["layers"])

    def own(a, w):
        li, ki = [L / 2 - a / 2, a / 2, a / 2, L / 2 - a / 2], [True, False, False, True]
        S = refer(sc, m, li, ki, [0, w, 0])[0]
        G = np.zeros(2)
        for j, x in ((0, S.segs[0][1]), (3, 0.0)):            # the mean of both edges
            sig, tau = obs.weak(m, S.at(j, [x]))
            G += np.ravel([1e3 * sig ** 2 / (2 * m.kn), 1e3 * tau ** 2 / (2 * m.kt)]) / 2
        return toughness(*G), li, ki
    for a, w in ((float(rng.uniform(20, 1500)), 0), (float(rng.uniform(20, 1500)), float(rng.uniform(0, 200)))):
        g, li, ki = own(a, w)
        segs = {"li": li, "ki": ki}
        watch.met.clear()
        got, flag = cc.check_crack_propagation_criterion(lay, phi, segs, skier_weight=w, E=E, t=t)
        if watch.met:
            continue
        mon.le("propagation", abs(got - g) / (1e-12 + g), 1e-5, {"crack": a, "weight": w, "got": got, "own": g})
        mon.true("propagation", abs(g - 1) < 1e-4 or bool(flag) == bool(g >= 1), {"g": g, "flag": flag})
        mon.true("inputs", segs == {"li": li, "ki": ki}, "segments changed")
    lo, hi = own(1, 0)[0], own(3000, 0)[0]
    try:
        a = cc.find_min_crack_length_self_propagation(lay, phi, E, t)
    except ValueError:
        mon.true("self-propagation bracket", (lo - 1) * (hi - 1) > -1e-6, {"ends": [lo, hi]})
        return
    if a is not None:
        mon.le("self-propagation", abs(own(a, 0)[0] - 1), 1e-4, {"crack": a})
        mon.true("self-propagation", 1 <= a <= 3000, {"crack": a})


def parts(sc, mon, cc, rng):
    """Envelopes, splitting and locating of segments."""
    S, T = strength(sc)
    sig, tau = rng.normal(size=40) * S * 2, rng.normal(size=40) * T * 2
    keep = sig.copy(), tau.copy()
    got = cc.stress_envelope(sig, tau, **sc["strength"])
    mon.close("envelope", got, (sig / S) ** 2 + (tau / T) ** 2, 1e-9)
    mon.true("inputs", np.array_equal(sig, keep[0]) and np.array_equal(tau, keep[1]), "stresses changed")
    st = dict(sc["strength"])
    s = np.linspace(0, S, 12)
    if st.pop("envelope", "") == "schottner":
        mon.close("envelope", (s / S) ** 2 + (cc.failure_envelope_schottner(s, **st) / T) ** 2, np.ones(12), 1e-9)
    elif 0.55 <= st.get("scaling_factor", 1) <= 1:
        mon.close("envelope", (s / S) ** 2 + (cc.failure_envelope_adam_unpublished(s, **st) / T) ** 2, np.ones(12), 1e-9)
    G1 = rng.uniform(0, GC[0][0], 12)
    G2 = cc.fracture_toughness_envelope(G1)
    crit = np.array([cc.fracture_toughness_criterion(a, b) for a, b in zip(G1, G2)])
    mon.le("envelope", np.abs(crit - 1), 0.02, "toughness")          # the two state the exponent as 2.2 and 1/0.45
    a, b = rng.normal(size=2)
    mon.close("envelope", cc.fracture_toughness_criterion(a, b), toughness(a, b), 1e-9)
    for name in ("s-RG1", "s-RG2", "s-FCDH"):
        p0, tT, pT = {"s-RG1": (7.0, 3.53, 1.49), "s-RG2": (2.33, 1.22, 0.19), "s-FCDH": (1.45, 0.61, 0.17)}[name]
        s = np.linspace(max(0, pT - p0), pT, 7)[1:-1]
        mon.close("envelope", cc.failure_envelope_mede(s, name), tT / p0 * (s + p0 - pT), 1e-9)
        mon.close("envelope", cc.stress_envelope(s, cc.failure_envelope_mede(s, name), envelope="mede_" + name), np.ones(s.size), 1e-9)
        s = pT + p0 * np.linspace(0.05, 0.98, 6)
        mon.close("envelope", (cc.failure_envelope_mede(s, name) / tT) ** 2 + ((s - pT) / p0) ** 2, np.ones(6), 1e-9)
        on = cc.stress_envelope(s, cc.failure_envelope_mede(s, name), envelope="mede_" + name)
        mon.true("mede", np.allclose(on, 1, rtol=1e-9), {"type": name, "on the envelope": on}, finding="mede-scale" if np.allclose(on, tT ** 2, rtol=1e-9) else None)
        s = np.linspace(max(0, pT - p0), pT, 5)[1:-1]
        inside = tT / p0 * (s + p0 - pT) * rng.uniform(0.1, 0.9, s.size)
        v = cc.stress_envelope(s, inside, envelope="mede_" + name)
        mon.true("mede", np.all(v < 1), {"type": name, "inside": v},
                 finding="mede-side" if np.allclose(v, (s + p0 - inside * p0 / tT) / pT, rtol=1e-9) else None)
    try:
        cc.stress_envelope([1.0], [1.0], envelope=gen.pick(rng, "", "mede", "Schottner"))
        mon.true("envelope", False, "unknown envelope accepted")
    except ValueError:
        mon.true("envelope", True)
    for _ in range(4):
        n = int(rng.integers(1, 7))
        li, ki = [float(gen.logu(rng, 1, 5000)) for _ in range(n)], [bool(rng.random() < 0.5) for _ in range(n)]
        a, b = list(li), list(ki)
        l2, k2 = cc.split_segments_at_midpoint(a, b)
        mon.true("inputs", a == li and b == ki, "segments changed")
        if doubled(li, ki, (l2, k2)):
            mon.true("split", False, {"li": li, "got": [l2, k2]}, finding="split-first-segment")
            continue
        L, e = sum(li), np.cumsum(l2)
        mon.le("split", abs(e[-1] - L) / L, 1e-12, {"li": li, "ki": ki, "got": [l2, k2]})
        mon.le("split", np.min(np.abs(e - L / 2)) / L, 1e-12, {"li": li, "ki": ki, "got": [l2, k2]})
        mon.true("split", len(l2) == len(k2) and all(v >= 0 for v in l2), {"li": li, "got": [l2, k2]})
        ends = np.cumsum(li)
        mids = rng.uniform(0, L, 8)
        for x in mids:
            i, j = int(np.searchsorted(ends, x)), int(np.searchsorted(e, x))
            if np.min(np.abs(np.concatenate([ends, e]) - x)) > 1e-6 * L and e[-1] >= L * (1 - 1e-9):
                mon.true("split", ki[i] == k2[j], {"li": li, "ki": ki, "got": [l2, k2], "x": x})
            k, r = cc.find_segment_index(li, x)
            mon.true("locate", k == i or abs(ends[min(i, k)] - x) <= 1e-9 * L, {"li": li, "x": x, "got": k, "want": i})
            mon.le("locate", abs(r + (ends[k - 1] if k else 0) - x) / L, 1e-9, {"li": li, "x": x, "got": [k, r]})
