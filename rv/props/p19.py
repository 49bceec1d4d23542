"""P19: touchdown_distance against the touchdown stages of a very long PST."""
import numpy as np
from rv import gen, ref, touch

RULE = ("random layerings in every representation, modulus constants, weak layers and inclinations; the three lengths are inserted into the reference "
        "cantilever of a 100 m PST and compared with Layered driven by hand; non-trivial = three lengths obtained and compared")
REQUIRED = {"first": 40, "full": 40, "steady": 40, "driven": 40, "symmetric": 30, "defaults": 20, "array": 5, "profile": 5, "list": 10, "default-layers": 3}
N = {"quick": 64, "thorough": 1200}
CASE_TIMEOUT = 120
L = 1e5


def cases(rng, tier):
    out = []
    while len(out) < N[tier]:
        sc = {"layers": gen.layers(rng), "phi": gen.phi(rng, 60), "kind": gen.pick(rng, "list", "list", "array", "profile", "default", "tuple")}
        if sc["kind"] == "profile":
            sc["layers"] = gen.pick(rng, *"abcdefh", "soft", "medium", "hard", "comp")
        if sc["kind"] == "default":
            sc["layers"] = None
        for k, v in (("C0", float(rng.uniform(3, 10))), ("C1", float(rng.uniform(3.8, 5))), ("Ewl", gen.logu(rng, 0.1, 5)), ("t", float(rng.uniform(5, 60)))):
            if rng.random() < 0.6:
                sc[k] = v
        # keep to slabs whose weight does not collapse the layer and whose contact length fits the column
        m = ref.Model(rows(sc), 0.25, {"t": sc.get("t", 10.0), "E": sc.get("Ewl", 0.25)})
        q = sum(m.loads(sc["phi"])[::2])
        tc = 0.5 * m.t - q / m.kn
        if tc < 0.05 * m.t:
            continue
        a1 = (8 * (m.lam.D - m.lam.B**2 / m.lam.A) * tc / q) ** 0.25
        if not 250 < a1 < 15000:
            continue
        out.append(sc)
    return out


def rows(sc):
    if sc["kind"] == "profile":
        return ref.profile_rows(sc["layers"])
    C0, C1 = sc.get("C0", 6.5), sc.get("C1", 4.4)
    return [[r, h, C0 * 1e3 * (r / 917.0) ** C1] for r, h in (sc["layers"] or [[240.0, 200.0]])]


def run(sc, mon):
    import weac
    from weac.tools import touchdown_distance
    phi = sc["phi"]
    m = ref.Model(rows(sc), 0.25, {"t": sc.get("t", 10.0), "E": sc.get("Ewl", 0.25)})
    layers = sc["layers"]
    if sc["kind"] == "array":
        layers = np.array(layers)
    elif sc["kind"] == "tuple":
        layers = tuple(tuple(r) for r in layers)
    mon.counts["default-layers" if sc["kind"] == "default" else sc["kind"]] += 1
    kw = {k: sc[k] for k in ("C0", "C1", "Ewl", "t") if k in sc}
    mon.counts["defaults"] += len(kw) < 4
    if sc["kind"] != "default":
        kw["layers"] = layers
    got = np.array(touchdown_distance(**kw, phi=phi), float)
    info = {"got": got}
    if not mon.true("finite", got.shape == (3,) and np.isfinite(got).all() and (got > 0).all(), info):
        return
    a1, a2, lC = got
    mon.true("order", a1 < a2, info)
    c = touch.Cantilever(m, L, phi, 0.5, 1000.0)
    mon.le("first", abs(c.sag(a1)), 1e-6, info)
    lo, hi = c.full(a2 * (1 - 1e-6)), c.full(a2 * (1 + 1e-6))
    mon.true("full", lo * hi <= 0, {**info, "slope": [lo, hi]})
    a = 5 * a1
    lo, hi = c.rested(lC * (1 - 1e-6), a), c.rested(min(lC * (1 + 1e-6), a), a)
    mon.true("steady", lo * hi <= 0, {**info, "slope": [lo, hi]})
    mon.true("steady-range", lC <= a, info)
    # sign of the inclination; default inclination is zero
    mon.close("symmetric", touchdown_distance(**kw, phi=-phi), got, 1e-9)
    if phi == 0:
        mon.close("symmetric", touchdown_distance(**kw), got, 1e-12)
    # driving Layered
    o = weac.Layered("pst-", layers=layers if sc["kind"] != "default" else None, touchdown=True)
    o.set_foundation_properties(E=sc.get("Ewl", 0.25), t=sc.get("t", 10.0), update=True)
    if "C0" in sc or "C1" in sc:
        o.set_beam_properties(layers if sc["kind"] != "default" else [[240, 200]], **{k: sc[k] for k in ("C0", "C1") if k in sc}, update=True)
    o.calc_segments(L=L, a=0, phi=phi)
    d1, d2 = o.calc_a1(), o.calc_a2()
    o.calc_segments(L=L, a=5 * d1, phi=phi)
    mon.close("driven", got, [d1, d2, o.calc_lC()], 1e-9)
    mon.close("driven", got[2], o.td, 1e-9)
