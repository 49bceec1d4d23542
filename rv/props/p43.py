"""P43: repeated use accumulates nothing: leak and work monitor over long runs of the same requests."""
import contextlib, gc, io, os, pickle, shutil, sys, tempfile, threading, tracemalloc, weakref
import numpy as np
from rv import gen, meta
from rv.props import p01

RULE = ("long runs of one kind of request (fresh models, one model set up again and again, repeated evaluation, material functions, plots) under a memory tracer; after warm-up, traced memory, "
        "model size, function calls per request, live models and figures, open files, threads and module-level containers must not grow; non-trivial = a run of requests completed")
REQUIRED = {"memory": 60, "work": 30, "size": 20, "files": 40, "containers": 40, "alive": 6, "figures": 4, "requests": 4000, "kind:fresh": 8, "kind:one": 8, "kind:evaluate": 8,
            "kind:functions": 4, "kind:plot": 2}
N = {"quick": 48, "thorough": 480}
CASE_TIMEOUT = 600
KINDS = ["fresh", "one", "evaluate", "functions", "fresh", "one", "evaluate", "plot"]
PART = {"fresh": 100, "one": 100, "evaluate": 50, "functions": 150, "plot": 12}      # requests of each part; the first is warm-up (bounded caches may fill)
PER_REQUEST = 160    # bytes left behind by each request (arrays, models, figures); smaller things are seen in the containers and model sizes


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        while True:
            sc = p01.gen_touch(rng) if rng.random() < 0.25 else gen.scenario(rng)
            if sc is not None:
                break
        kind = KINDS[i % len(KINDS)]
        out.append({**sc, "kind": kind, "seed": int(rng.integers(1 << 30))})
    return out


def solve(o, sc, phi=None):
    phi = sc["phi"] if phi is None else phi
    every = o.calc_segments(phi=phi, **gen.segkw(sc))
    return every, o.assemble_and_solve(phi=phi, **every["crack"])


def evaluate(o, sc, every, C):
    phi, segs = sc["phi"], every["crack"]
    x, z, xb = o.rasterize_solution(C=C, phi=phi, num=12, **segs)
    o.gdif(C, phi, li=segs["li"], ki=segs["ki"])
    o.sig(z), o.tau(z), o.N(z), o.M(z), o.V(z), o.dz_dx(z[:, :2], phi)
    o.get_slab_deflection(x=x, z=z, unit="um"), o.get_weaklayer_shearstress(x=xb, z=z, unit="kPa")
    o.Sxx(z[:, :2], phi, dz=40), o.principal_stress_slab(z[:, :2], phi, dz=40)


def rows(sc):
    return [[r, h] for r, h, *_ in gen.rows_of(sc)]


def request(sc, mon, rng):
    """A function that makes one request, and the model it works on, if it is always the same."""
    import weac
    from weac import tools
    kind = sc["kind"]
    if kind == "fresh":
        def once():
            o = gen.instance(sc)
            every, C = solve(o, sc)
            if rng.random() < 0.1:
                evaluate(o, sc, every, C)
            return o
        return once, None
    o = gen.instance(sc)
    if kind == "one":
        base = rows(sc)

        def once():
            f = rng.uniform(0.8, 1.2, (len(base), 2))
            o.set_beam_properties((np.array(base) * f).tolist(), update=bool(rng.random() < 0.5))
            o.set_foundation_properties(t=float(rng.uniform(10, 40)), E=float(rng.uniform(0.2, 2)), update=True)
            o.set_surface_load(float(rng.uniform(0, 1e-3)))
            if rng.random() < 0.3 and not sc.get("touchdown"):
                solve(o, sc, float(rng.uniform(-30, 30)))
        return once, o
    if kind == "evaluate":
        every, C = solve(o, sc)
        C0 = o.assemble_and_solve(phi=sc["phi"], **every["nocrack"])
        b = every["both"]

        def once():
            evaluate(o, sc, every, C)
            if rng.random() < 0.03 and np.any(np.asarray(b["k0"], bool) & ~np.asarray(b["ki"], bool)):
                o.ginc(C0, C, sc["phi"], li=b["li"], ki=b["ki"], k0=b["k0"])
        return once, o
    if kind == "functions":
        def once():
            rho = float(rng.uniform(80, 400))
            tools.bergfeld(rho), tools.gerling(rho), tools.scapozza(rho), tools.tensile_strength_slab(rho), tools.load_dummy_profile(gen.pick(rng, *"abcdef"))
            lay = np.column_stack([rng.uniform(100, 300, 3), rng.uniform(20, 200, 3)])
            slab = tools.calc_center_of_gravity(np.column_stack([lay, lay[:, 0]]))
            weac.Inverse("pst-", layers=lay.tolist(), parameters=tuple(float(v) for v in rng.uniform([5, 4, 0.2], [7, 5, 1])))
            return slab
        return once, None
    every, C = solve(o, sc)
    x, z, xb = o.rasterize_solution(C=C, phi=sc["phi"], num=40, **every["crack"])

    def once():
        from weac import plot
        plot.slab_profile(o)
        plot.displacements(o, x=x, z=z, **every["crack"])
        plot.stresses(o, x=xb, z=z, **every["crack"])
        if rng.random() < 0.5:
            plot.deformed(o, xsl=x, xwl=xb, z=z, phi=sc["phi"], window=100, scale=100, field=gen.pick(rng, "w", "Sxx", "principal"), dz=60)
    return once, o


def containers():
    """Sizes of the containers that outlive a call: of modules, classes and function defaults."""
    n = {}
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "weac" or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, (list, dict, set)) and not k.startswith("__"):
                n[name, k] = len(v)
            if isinstance(v, type) and (v.__module__ or "").startswith("weac"):
                for kk, vv in list(vars(v).items()):
                    if isinstance(vv, (list, dict, set)):
                        n[name, k, kk] = len(vv)
                    for d in getattr(vv, "__defaults__", None) or ():
                        if isinstance(d, (list, dict, set)):
                            n[name, k, kk, "default"] = len(d)
            for d in getattr(v, "__defaults__", None) or ():
                if isinstance(d, (list, dict, set)):
                    n[name, k, "default"] = len(d)
    return n


def calls(f):
    """How many functions a request calls."""
    n = [0]

    def count(frame, event, arg):
        n[0] += 1
    sys.setprofile(count)
    try:
        f()
    finally:
        sys.setprofile(None)
    return n[0]


def files():
    return len(os.listdir("/proc/self/fd"))


def run(sc, mon):
    gen.features(sc, mon)
    mon.counts["kind:" + sc["kind"]] += 1
    here, d = os.getcwd(), tempfile.mkdtemp(prefix="rv_p43_")
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            watch(sc, mon)
    finally:
        tracemalloc.stop()
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def watch(sc, mon):
    import matplotlib.figure
    kind = sc["kind"]
    part = 30 if kind == "fresh" and sc.get("touchdown") else PART[kind]      # searches for transition lengths take their time
    once, o = request(sc, mon, np.random.default_rng(sc["seed"]))
    fixed, _ = request(sc, mon, Constant())
    fixed()
    fixed()
    early = calls(fixed)
    refs, sizes, mem, seen = [], [], [], []
    if kind != "plot":           # the plotting library keeps caches of its own, and tracing slows it down
        tracemalloc.start(1)
    for k in range(4):
        for _ in range(part):
            r = once()
            mon.counts["requests"] += 1
            if kind == "fresh" and k == 0:
                refs.append(weakref.ref(r))
            del r
        gc.collect()
        mem.append(tracemalloc.get_traced_memory()[0])
        seen.append((files(), threading.active_count(), containers()))
        if o is not None:
            sizes.append(len(pickle.dumps(o)))
    tracemalloc.stop()
    info = {"kind": kind, "traced": mem}
    if kind != "plot":
        # what is left behind by every request shows in every part; a single cache filled in between does not
        mon.le("memory", min(mem[2] - mem[1], mem[3] - mem[2]), PER_REQUEST * part, info)
        mon.le("memory", (mem[3] - mem[1]) / 2, 400 * part, info)
    late = calls(fixed)
    mon.le("work", late, 1.3 * early + 60, {**info, "calls early": early})
    if sizes:
        mon.le("size", max(sizes[1:]), sizes[0] + 256 + sizes[0] // 8, {**info, "sizes": sizes})
    f, t, c = zip(*seen)
    mon.true("files", max(f[1:]) <= f[0] and max(t[1:]) <= t[0], {**info, "files": f, "threads": t})
    for key in c[-1]:
        mon.true("containers", not (c[1].get(key, 0) < c[2].get(key, 0) < c[3][key]), {**info, "container": key, "sizes": [s.get(key) for s in c]})
    mon.true("containers", True)
    if refs:
        alive = sum(r() is not None for r in refs)
        mon.true("alive", alive <= 8, {**info, "alive": alive, "of": len(refs)})
    if kind == "plot":
        import matplotlib.pyplot as plt
        figs = sum(isinstance(x, matplotlib.figure.Figure) for x in gc.get_objects())
        mon.true("figures", len(plt.get_fignums()) <= 4 and figs <= 12, {**info, "open": len(plt.get_fignums()), "alive": figs})
        plt.close("all")


class Constant:
    """A generator that always draws the same, so that requests are the same."""

    def random(self):
        return 0.99

    def uniform(self, a, b, size=None):
        m = (np.asarray(a, float) + np.asarray(b, float)) / 2
        return np.full(size, m) if size is not None else (m if m.ndim else float(m))

    def integers(self, n):
        return 0

    def choice(self, n):
        return 0
