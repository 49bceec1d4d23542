"""P21: ill-posed requests raise ValueError, documented ones are processed."""
import os, shutil, tempfile
import numpy as np
from rv import gen

RULE = ("random models asked for ill-posed things (no support, inconsistent lists, unsupported outer segments, unknown names) and for valid, "
        "often minimal ones; non-trivial = the outcome of each request recorded as rejected (ValueError), accepted, or other")
REQUIRED = {"no-support": 60, "mismatch": 200, "outer": 60, "system": 60, "profile": 60, "component": 60, "normalization": 60, "field": 20,
            "valid": 300, "valid-field": 20, "valid-system": 60}
N = {"quick": 370, "thorough": 7400}
CASE_TIMEOUT = 120
NAMES = ["", "pst", "PST-", "skiers ", "rot2", "vpst", "-pst-", "snowboard", "none"]
PROFILES = ["g", "z", "i", "hardest", "Profile", "profile x", "hard soft mediu", "ab", "1", "compp"]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.scenario(rng)
        sc["seed"] = int(rng.integers(1 << 30))
        sc["plot"] = i % 4 == 0
        out.append(sc)
    return out


def outcome(f):
    try:
        f()
    except ValueError:
        return "ValueError"
    except Exception as exc:  # noqa: BLE001 - the class of the error is the observation
        return type(exc).__name__
    return "accepted"


def reject(mon, name, f, detail):
    got = outcome(f)
    mon.true(name, got == "ValueError", {"request": detail, "outcome": got})


def accept(mon, name, f, detail):
    mon.counts[name] += 1
    try:
        return f()
    except Exception as exc:  # noqa: BLE001
        mon.fail(name, {"request": detail, "outcome": f"{type(exc).__name__}: {exc}"})
    return None


def lists(rng, v, kind):
    return list(v) if kind == 0 else tuple(v) if kind == 1 else np.array(v)


def run(sc, mon):
    import weac
    m = gen.features(sc, mon)
    rng = np.random.default_rng(sc["seed"])
    phi, system = sc["phi"], sc["system"]
    skier = system in ("skier", "skiers")
    o = gen.instance(sc)
    segs = o.calc_segments(phi=phi, **gen.segkw(sc))["crack"]
    C = o.assemble_and_solve(phi=phi, **segs)
    solve = lambda li, mi, ki: o.assemble_and_solve(phi=phi, li=li, mi=mi, ki=ki)
    for kind in (0, 1, 2):
        n = int(rng.integers(1, 7))
        li = [float(v) for v in rng.uniform(100, 1000, n)]
        if skier:
            li[0] = li[-1] = 8000.0
        mi = [float(v) for v in rng.uniform(0, 100, n - 1)]
        ki = [True] * n
        L_ = lambda v: lists(rng, v, kind)
        # nothing supported
        reject(mon, "no-support", lambda: solve(L_(li), L_(mi), L_([False] * n)), {"ki": [False] * n, "kind": kind})
        # inconsistent numbers of entries
        for dl, dm, dk in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (0, 1, 1), (0, 2, 0)):
            a = (li + [500.0] * dl)[:n + dl]
            b = (mi + [0.0] * dm)[:max(0, n - 1 + dm)]
            c = (ki + [True] * dk)[:n + dk]
            if len(a) == len(c) and len(b) == len(a) - 1:
                continue
            reject(mon, "mismatch", lambda: solve(L_(a), L_(b), L_(c)), {"lengths": [len(a), len(b), len(c)], "kind": kind})
        # consistent lists are solved
        Cn = accept(mon, "valid", lambda: solve(L_(li), L_(mi), L_(ki)), {"li": li, "mi": mi, "ki": ki, "kind": kind})
        if Cn is not None:
            mon.true("valid-shape", np.shape(Cn) == (6, n) and np.isfinite(Cn).all(), {"n": n, "shape": np.shape(Cn)})
        # outer segments of infinite systems
        if n >= 2:
            for outer in ((False, True), (True, False), (False, False)):
                k2 = list(ki) + [True]
                l2, m2 = list(li) + [8000.0], list(mi) + [0.0]
                k2[0], k2[-1] = outer
                if skier:
                    reject(mon, "outer", lambda: solve(L_(l2), L_(m2), L_(k2)), {"ki": k2})
                elif n >= 2:
                    # interior support long enough to hold two free ends
                    accept(mon, "valid", lambda: solve(L_(l2), L_(m2), L_(k2)), {"ki": k2})
    # outer segments regardless of the family of the scenario
    for s in ("skier", "skiers"):
        os_ = gen.instance(sc, system=s, touchdown=False)
        for k in ([False, True, True], [True, True, False], [False, True, False]):
            reject(mon, "outer", lambda: os_.assemble_and_solve(phi=phi, li=[8000.0, 300.0, 8000.0], mi=[0, 0], ki=k), {"system": s, "ki": k})
    # names of systems
    bad = NAMES[int(rng.integers(len(NAMES)))]
    reject(mon, "system", lambda: weac.Layered(system=bad).calc_segments(L=5000, a=300, phi=phi), bad)
    for s in gen.PST + gen.VPST + ["skier"]:
        def full(s=s):
            w = weac.Layered(system=s)
            b = w.calc_segments(L=2e4, a=gen.pick(rng, 0, 300), m=gen.pick(rng, 0, 80), phi=phi)
            c0, c1 = w.assemble_and_solve(phi=phi, **b["nocrack"]), w.assemble_and_solve(phi=phi, **b["crack"])
            w.rasterize_solution(C=c1, phi=phi, **b["crack"])
            w.ginc(c0, c1, phi, **b["both"])
            w.gdif(c1, phi, **b["crack"])
        accept(mon, "valid-system", full, s)
    # minimal calls
    accept(mon, "valid", lambda: weac.Layered(), "Layered()")
    accept(mon, "valid", lambda: weac.Inverse(), "Inverse()")
    accept(mon, "valid", lambda: weac.Layered().calc_segments(), "calc_segments()")
    accept(mon, "valid", lambda: weac.Layered(layers=[]), "empty layers use the default")
    accept(mon, "valid", lambda: weac.Layered(layers=None), "default layers")
    # profiles
    bad = PROFILES[int(rng.integers(len(PROFILES)))]
    reject(mon, "profile", lambda: weac.Layered(layers=bad), bad)
    reject(mon, "profile", lambda: o.__class__().set_beam_properties(bad), bad)
    reject(mon, "profile", lambda: weac.Inverse(layers=bad), bad)
    for name in ("A", "profile b", "Comp", "HARD", "layer medium", "h"):
        accept(mon, "valid", lambda: weac.Layered(layers=name), name)
    # principal stresses
    xq, zq, xb = gen.raster(o, sc, segs, C, num=30)
    for v in ("mid", "MAX", "", None, "minmax"):
        reject(mon, "component", lambda: o.principal_stress_slab(zq, phi, val=v), v)
        reject(mon, "component", lambda: o.principal_stress_weaklayer(zq, val=v), v)
    for u in ("kPa", "MPa"):
        reject(mon, "normalization", lambda: o.principal_stress_slab(zq, phi, val="min", normalize=True, unit=u), u)
        reject(mon, "normalization", lambda: o.principal_stress_weaklayer(zq, val="max", normalize=True, unit=u), u)
        for v in ("min", "max"):
            accept(mon, "valid", lambda: o.principal_stress_slab(zq, phi, val=v, unit=u), [v, u])
            accept(mon, "valid", lambda: o.principal_stress_weaklayer(zq, val=v, unit=u), [v, u])
    if not sc["plot"]:
        return
    import matplotlib.pyplot as plt
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="rv21_")
    try:
        os.chdir(tmp)
        for f in ("v", "U", "sxx", "", "Principal", "all"):
            reject(mon, "field", lambda: weac.plot.deformed(o, xsl=xq, xwl=xb, z=zq, phi=phi, dz=20, levels=5, field=f), f)
        plt.close("all")
        for f in ("w", "Sxx", "Txz", "Szz", "principal"):
            accept(mon, "valid-field", lambda: weac.plot.deformed(o, xsl=xq, xwl=xb, z=zq, phi=phi, dz=20, levels=5, field=f), f)
        plt.close("all")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
