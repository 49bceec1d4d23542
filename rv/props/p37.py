"""P37: models are independent objects: copies, pickles and concurrent use."""
import copy, hashlib, pickle, sys, threading, time
import numpy as np
from rv import gen, meta, obs
from rv.props import p01

RULE = ("random experiments run alone, on deep copies and unpickled models made before and after solving, and in several threads at once with random pauses, minimal switch interval and "
        "a thread that changes other models; all results must be those of the experiment run alone; non-trivial = results of copies and threads compared; distinct call interleavings are counted")
REQUIRED = {"copy": 300, "pickle": 300, "continued": 300, "original": 300, "thread": 600, "interleaving": 100, "switches": 1000, "sys:skiers": 20, "sys:pst-": 10, "touchdown": 20, "surface-load": 20,
            "inverse": 20, "disturbed": 100}
N = {"quick": 400, "thorough": 8000}
CASE_TIMEOUT = 120
TOL = 1e-9


def cases(rng, tier):
    out = []
    for _ in range(N[tier]):
        group = []
        while len(group) < 3:
            if rng.random() < 0.25:
                sc = p01.gen_touch(rng)
                if sc is None:
                    continue
            else:
                sc = gen.scenario(rng)
            group.append(sc)
        out.append({**group[0], "others": group[1:], "seed": int(rng.integers(1 << 30))})
    return out


def steps(sc, o, pause):
    """An experiment on model o; pause(label) is called between any two calls."""
    phi, out = sc["phi"], {}
    pause("segments")
    every = o.calc_segments(phi=phi, **gen.segkw(sc))
    pause("uncracked")
    C0 = meta.quiet_free(o.assemble_and_solve, phi=phi, **every["nocrack"])
    pause("cracked")
    segs = every["crack"]
    C = meta.quiet_free(o.assemble_and_solve, phi=phi, **segs)
    pause("raster")
    x, z, xb = o.rasterize_solution(C=C, phi=phi, num=25, **segs)
    out["lengths"], out["x"], out["xb"], out["z"] = np.asarray(segs["li"], float), x, xb, z
    pause("fields")
    out["N"], out["M"], out["V"] = o.N(z), o.M(z), o.V(z)
    out["sig"], out["tau"] = o.sig(z), o.tau(z)
    pause("derivatives")
    out["dz"] = o.dz_dx(z[:, :4], phi)
    pause("gdif")
    out["gdif"] = o.gdif(C, phi, li=segs["li"], ki=segs["ki"])
    b = every["both"]
    if np.any(np.asarray(b["k0"], bool) & ~np.asarray(b["ki"], bool)):
        pause("ginc")
        out["ginc"] = o.ginc(C0, C, phi, li=b["li"], ki=b["ki"], k0=b["k0"])
    pause("slab")
    out["Sxx"] = o.Sxx(z[:, :3], phi, dz=20)
    out["Txz"] = o.Txz(z[:, :3], phi, dz=20)
    if sc.get("touchdown"):
        pause("springs")
        out["spring"] = o.substitute_stiffness(500.0, "rested", "rot")
    pause("end")
    return {k: np.array(v, float) for k, v in out.items()}


def same(mon, name, got, want, info):
    for k, w in want.items():
        g = got.get(k)
        if not mon.true(name, g is not None and g.shape == w.shape, {"quantity": k, **info}):
            return
        if k == "z":
            s = np.abs(w).max(axis=1, keepdims=True) + 1e-300
            mon.le(name, np.abs(g - w) / s, TOL, {"quantity": k, **info})
        else:
            mon.close(name, g, w, TOL, detail={"quantity": k, **info})


def change(o, rng):
    """Give a model other properties."""
    o.set_beam_properties([[float(rng.uniform(100, 400)), float(rng.uniform(50, 500))] for _ in range(int(rng.integers(1, 4)))], update=True)
    o.set_foundation_properties(t=float(rng.uniform(5, 50)), E=float(rng.uniform(0.1, 2)), update=True)
    o.set_surface_load(float(rng.uniform(0, 1e-3)))
    o.calc_segments(L=4000.0, a=300.0, phi=float(rng.uniform(-40, 40)), li=[6000.0, 100.0, 6000.0], mi=[50.0, 0.0], ki=[True, False, True], k0=[True] * 3)


def run(sc, mon):
    import weac
    rng = np.random.default_rng(sc["seed"])
    gen.features(sc, mon)
    mon.counts["touchdown"] += bool(sc.get("touchdown"))
    nothing = lambda label: None
    alone = steps(sc, gen.instance(sc), nothing)
    # copies and pickles of prepared and of used models
    for when in ("prepared", "used"):
        o = gen.instance(sc)
        if when == "used":
            steps(sc, o, nothing)
        twins = [("copy", copy.deepcopy(o)), ("pickle", pickle.loads(pickle.dumps(o, int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1)))))]
        for name, t in twins:
            mon.true(name, type(t) is type(o), {"type": str(type(t))})
            same(mon, name, steps(sc, t, nothing), alone, {"when": when})
        # changing the copies does not change the original, nor the other way round
        for _, t in twins:
            change(t, rng)
        same(mon, "original", steps(sc, o, nothing), alone, {"when": when})
        c = copy.deepcopy(o)
        change(o, rng)
        same(mon, "continued", steps(sc, c, nothing), alone, {"when": when})
    # Inverse models as well
    inv = weac.Inverse("pst-", layers=[[float(rng.uniform(100, 300)), 120.0], [250.0, 180.0]], parameters=(6.2, 4.5, float(rng.uniform(0.1, 1))))
    iv = pickle.loads(pickle.dumps(inv))
    mon.true("inverse", iv.kn == inv.kn and np.array_equal(iv.slab, inv.slab) and iv is not inv, "pickled")
    # concurrent experiments on different models
    group = [sc, *sc["others"]]
    wants = [alone] + [steps(s, gen.instance(s), nothing) for s in sc["others"]]
    log, errors, results = [], [], {}
    stop = threading.Event()
    start = threading.Barrier(len(group) + 1)
    seeds = rng.integers(1 << 30, size=len(group) + 1)

    def worker(i):
        r = np.random.default_rng(int(seeds[i]))

        def pause(label):
            log.append((i, label))
            u = r.random()
            if u < 0.3:
                time.sleep(float(r.uniform(0, 3e-4)))
            elif u < 0.5:
                time.sleep(0)
        try:
            start.wait(20)
            results[i] = steps(group[i], gen.instance(group[i]), pause)
        except Exception as e:  # noqa: BLE001
            errors.append((i, repr(e)[:300]))

    def disturber():
        r = np.random.default_rng(int(seeds[-1]))
        try:
            start.wait(20)
            q = [weac.Layered("skiers"), weac.Layered("pst-", layers="profile b")]
            while not stop.is_set():
                change(q[int(r.integers(2))], r)
                log.append(("d", "change"))
                mon.counts["disturbed"] += 1
                time.sleep(0)
        except Exception as e:  # noqa: BLE001
            errors.append(("d", repr(e)[:300]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(len(group))]
        d = threading.Thread(target=disturber, daemon=True)
        for t in [*ts, d]:
            t.start()
        for t in ts:
            t.join(60)
        stop.set()
        d.join(30)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        return                                  # too slow to tell
    mon.true("thread", not errors, errors)
    for i, want in enumerate(wants):
        if i in results:
            same(mon, "thread", results[i], want, {"thread": i})
    order = [w for w, _ in log if w != "d"]
    mon.counts["switches"] += int(sum(a != b for a, b in zip(order, order[1:])))
    if len(set(order)) > 1:
        mon.counts["interleaving"] += 1
    mon.tag("interleaving#" + hashlib.sha1(repr([e for e in log if e[0] != "d"]).encode()).hexdigest()[:2])   # distinct orders, up to 256
