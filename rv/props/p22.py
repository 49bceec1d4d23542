"""P22: floating-point sanitizer on long and stiff systems, far-field values."""
import numpy as np
from rv import gen, obs

RULE = ("random systems with far segments from tens of characteristic lengths to kilometers, very soft to very stiff weak layers and slabs; all "
        "results computed under numpy's overflow/invalid/divide traps, far-field states compared with the undisturbed slab and between lengths; "
        "non-trivial = far-field observed")
REQUIRED = {"finite": 300, "far-stress": 200, "far-state": 200, "length-independent": 100, "trapped": 200, "eig:all-real": 5, "eig:complex": 50,
            "long>1km": 20, "surface-load": 30, "phi-": 10, "phi+": 10}
N = {"quick": 1320, "thorough": 26400}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.material(rng, beam=0.5, extreme=0.15)
        if rng.random() < 0.6:
            sc["weak"] = {"t": float(gen.pick(rng, rng.uniform(1, 10), rng.uniform(10, 200))), "E": gen.logu(rng, 0.003, 300), "nu": float(rng.uniform(0, 0.48))}
        if rng.random() < 0.3 and not isinstance(sc["layers"], str):
            # very stiff and very soft slabs: many real eigenvalues
            sc["beam"] = {"C0": gen.logu(rng, 0.05, 100), "C1": float(rng.uniform(3, 5))}
        sc["system"] = gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers")
        sc["m"] = float(gen.pick(rng, 0.0, 80.0, rng.uniform(1, 500)))
        sc["a"] = float(gen.pick(rng, 0.0, rng.uniform(1, 3000)))
        sc["far"] = [float(gen.logu(rng, 60, 500)), float(gen.logu(rng, 80, 3000))]
        sc["km"] = bool(rng.random() < 0.25)
        sc["num"] = int(rng.integers(20, 150))
        out.append(sc)
    return out


def layout(sc, far):
    a, s = sc["a"], sc["system"]
    if s in gen.PST + gen.VPST:
        return {"L": far + a, "a": a}
    if s == "skier":
        return {"L": 2 * far + a, "a": a, "m": sc["m"]}
    return {"li": [far, a / 2, a / 2 + 1.0, far], "mi": [sc["m"], 0.0, sc["m"] / 2], "ki": [True, a == 0, True, True], "k0": [True] * 4}


def run(sc, mon):
    m = gen.features(sc, mon)
    phi = sc["phi"]
    ell = 1.0 / m.lmin()
    qn, qt, pn, pt = m.loads(phi)
    r = np.deg2rad(phi)
    tot = m.lam.q + m.p
    zp = m.particular(phi)
    near = []
    for f in sc["far"]:
        far = max(f * ell, 100.0)
        if sc["km"] and f == sc["far"][1]:
            far = max(far, 1e6 + f)
        mon.counts["long>1km"] += far >= 1e6
        with np.errstate(over="raise", invalid="raise", divide="raise"):
            try:
                o = gen.instance(sc)
                both = o.calc_segments(phi=phi, **layout(sc, far))
                segs = both["crack"]
                C0 = o.assemble_and_solve(phi=phi, **both["nocrack"])
                C = o.assemble_and_solve(phi=phi, **segs)
                xq, zq, xb = gen.raster(o, sc, segs, C, sc["num"])
                res = [C0, C, xq, zq, o.sig(zq), o.tau(zq), o.gdif(C, phi, **segs), o.N(zq), o.M(zq), o.V(zq),
                       o.Sxx(zq[:, :3], phi, dz=20), o.Txz(zq[:, :3], phi, dz=20), o.Szz(zq[:, :3], phi, dz=20),
                       o.principal_stress_slab(zq[:, :3], phi, dz=20), o.principal_stress_weaklayer(zq)]
                if sc["a"] > 0:
                    res.append(o.ginc(C0, C, phi, **both["both"]))
            except FloatingPointError as exc:
                mon.fail("floating-point", {"error": str(exc), "far": far})
                return
        mon.counts["trapped"] += len(res)
        for k, v in enumerate(res):
            mon.true("finite", np.isfinite(np.asarray(v, float)).all(), {"result": k, "far": far})
        # far field: inside the long supported segments, 45 decay lengths from either end
        li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"])
        c0 = obs.section(m, np.zeros((6, 1)))
        for i, l in enumerate(li):
            if not ki[i] or l < 0.4 * far:
                continue
            lo, hi = 45 * ell, l - 45 * ell
            if sc["system"] in ("skier", "skiers"):
                lo, hi = (0.0, hi) if i == 0 else (lo, l) if i == len(li) - 1 else (lo, hi)
            if hi < lo:
                continue
            x = np.linspace(lo, hi, 7)
            Z = gen.states(o, sc, segs, C, i, x)
            # decayed rest of the complementary solution against the size of the disturbance
            Zs = gen.states(o, sc, segs, C, i, np.linspace(0, l, 9))
            s = m.scales(np.hstack([Zs, zq]), 1e-2)
            mon.le("far-state", np.abs(Z - zp[:, None]) / s[:, None], 1e-7, {"segment": i, "far": far, "ell": ell})
            sc_ = np.abs(tot) + 1e-6 * max(np.abs(o.sig(zq)).max(), np.abs(o.tau(zq)).max())
            mon.le("far-stress", np.abs(o.sig(Z) + tot * np.cos(r)), 1e-6 * sc_, {"segment": i, "far": far})
            mon.le("far-stress", np.abs(o.tau(Z) + tot * np.sin(r)), 1e-6 * sc_, {"segment": i, "far": far})
        # states near the disturbance do not depend on the far length
        k = 1 if len(li) > 2 else int(np.argmin(li))
        if sc["system"] in gen.PST + gen.VPST:
            left = li[0] > li[-1] or (sc["a"] == 0 and sc["system"].endswith("-"))
            i = 0 if left else len(li) - 1
            d = np.linspace(0, 3 * ell, 9)
            x = li[i] - d if left else d
            near.append(gen.states(o, sc, segs, C, i, x))
            k = 1 - i
        if li[k] > 0:
            near.append(gen.states(o, sc, segs, C, k, np.linspace(0, li[k], 9)))
    n = len(near) // 2
    for a, b in zip(near[:n], near[n:]):
        # rigid offsets aside, states at the disturbance agree
        s = m.scales(np.hstack(near), 1e-2)
        mon.le("length-independent", np.abs(a - b) / s[:, None], 1e-7, {"far": sc["far"]})
