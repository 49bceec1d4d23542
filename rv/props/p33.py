"""P33: computations have no side effects outside the model that runs them."""
import contextlib, copy, io, locale, os, random, signal, sys, threading, warnings
import numpy as np
from rv import gen

RULE = ("random sequences of public calls (model set-up, solving, evaluation, analysis, touchdown, material functions), valid and failing ones; a process "
        "audit hook, captured output and warnings, snapshots of global numeric state and of every argument object watch each call; non-trivial = calls watched")
REQUIRED = {"call": 8000, "arguments": 8000, "global-state": 8000, "audit-alive": 100, "audit": 8000, "output": 8000, "warning": 8000, "bystander": 300, "failed-call": 300,
            "array-argument": 3000, "sys:skiers": 20, "sys:pst-": 20, "touchdown": 20, "copy": 100, "short-end": 300}
N = {"quick": 700, "thorough": 14000}
CASE_TIMEOUT = 120

# --- audit hook ---------------------------------------------------------------
_EVENTS = None
_INSTALLED = False
WATCH = ("open", "os.", "shutil.", "subprocess.", "socket.", "tempfile.", "glob.", "urllib.", "ftplib.", "smtplib.", "sqlite3.", "ctypes.dlopen", "signal.", "webbrowser.",
         "code.", "builtins.input", "pty.", "resource.", "syslog.", "time.sleep")
IGNORE = ("os.listdir", "os.scandir", "os.walk")


def hook(event, args):
    if _EVENTS is None or not event.startswith(WATCH) or event in IGNORE:
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        writing = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not writing:
            return
        if isinstance(path, str) and path.endswith((".pyc", ".nbi", ".nbc")) or path == os.devnull:
            return  # bytecode caches and the null device
    _EVENTS.append((event, repr(args)[:200]))


def install():
    global _INSTALLED
    if not _INSTALLED:
        sys.addaudithook(hook)
        _INSTALLED = True


# --- snapshots ----------------------------------------------------------------

def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ("object", id(x))


def world():
    s = np.random.get_state()
    return {
        "numpy error state": np.geterr(), "numpy print options": str(sorted(np.get_printoptions().items(), key=str)),
        "numpy random state": (s[0], s[1].tobytes(), s[2:]), "python random state": hash(random.getstate()), "cwd": os.getcwd(), "environ": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "threads": threading.active_count(), "umask-free": None,
        "sys.path": list(sys.path), "argv": list(sys.argv), "SIGINT": signal.getsignal(signal.SIGINT), "trace": sys.gettrace(), "profile": sys.getprofile(), "excepthook": sys.excepthook}


class Watch:
    def __init__(self, mon):
        self.mon = mon
        install()

    def __call__(self, label, f, *a, fails=False, **k):
        global _EVENTS
        mon = self.mon
        mon.counts["call"] += 1
        mon.counts["array-argument"] += any(isinstance(v, np.ndarray) for v in [*a, *k.values()])
        # states that any write would change
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        np.random.random(), random.random()
        np.set_printoptions(precision=5 + mon.counts["call"] % 3, threshold=900 + mon.counts["call"] % 7)
        before, args = world(), freeze([list(a), k])
        filters = list(warnings.filters)
        out, err = io.StringIO(), io.StringIO()
        exc = res = None
        with warnings.catch_warnings(record=True) as seen, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            warnings.simplefilter("always")
            inner = list(warnings.filters)
            _EVENTS = []
            try:
                res = f(*a, **k)
            except Exception as e:  # noqa: BLE001
                exc = e
            finally:
                events, _EVENTS = _EVENTS, None
            mon.true("global-state", list(warnings.filters) == inner, {"call": label, "what": "warnings filters"})
        after = world()
        for key in before:
            if not mon.true("global-state", before[key] == after[key], {"call": label, "what": key}):
                break
        mon.true("arguments", freeze([list(a), k]) == args, {"call": label})
        mon.true("audit", not events, {"call": label, "events": events[:5]})
        due = label == "assemble_and_solve" and "li" in k and min(float(k["li"][0]), float(k["li"][-1])) < 5001
        mon.true("output", due or (not out.getvalue() and not err.getvalue()), {"call": label, "out": out.getvalue()[:200], "err": err.getvalue()[:200]})
        if not fails:
            mon.true("warning", due or not seen, {"call": label, "warnings": [f"{w.category.__name__}: {w.message}"[:200] for w in seen[:3]]})
            if exc is not None:
                raise exc
        else:
            mon.counts["failed-call"] += exc is not None
        return res


def cases(rng, tier):
    from rv.props import p01
    out = []
    while len(out) < N[tier]:
        if rng.random() < 0.15:
            sc = p01.gen_touch(rng)
            if sc is None:
                continue
        else:
            sc = gen.scenario(rng)
        sc["seed"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def rep(rng, v):
    """A list-like argument as a list, tuple or array."""
    k = int(rng.integers(3))
    v = [x.item() if isinstance(x, np.generic) else x for x in v]
    return v if k == 0 else tuple(v) if k == 1 else np.array(v)


def fingerprint(o, phi):
    segs = {"li": [3000.0, 500.0, 3000.0], "mi": [60.0, 0.0], "ki": [True, False, True]}
    C = o.assemble_and_solve(phi=phi, **segs)
    x, z, xb = o.rasterize_solution(C=C, phi=phi, li=segs["li"], ki=segs["ki"], num=20)
    return np.concatenate([z.ravel(), o.gdif(C, phi, li=segs["li"], ki=segs["ki"]), np.asarray(o.slab, float).ravel(), [o.kn, o.kt, o.t, o.p]])


def ends(o, rng, phi, mon):
    """End segments that are too short to count as infinite are announced; long ones are not."""
    for side in ("left", "right", "both", "none"):
        a = b = float(rng.uniform(5500, 30000))
        s = float(rng.uniform(1000, 4500))
        a, b = (s if side in ("left", "both") else a), (s if side in ("right", "both") else b)
        crack = float(rng.uniform(50, 900))
        out, err = io.StringIO(), io.StringIO()
        with warnings.catch_warnings(record=True) as seen, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            warnings.simplefilter("always")
            o.assemble_and_solve(phi=phi, li=[a, crack, b], mi=[60.0, 0.0], ki=[True, False, True])
        said = bool(out.getvalue() or err.getvalue() or seen)
        mon.true("short-end", said == (side != "none"), {"side": side, "li": [a, crack, b], "said": out.getvalue()[:100]})


def run(sc, mon):
    import weac
    from weac import tools
    gen.features(sc, mon)
    rng = np.random.default_rng(sc["seed"])
    w = Watch(mon)
    phi = sc["phi"]
    # the hook works: a deliberate event is seen
    global _EVENTS
    _EVENTS = []
    with open(os.devnull, "rb"):
        pass
    sys.audit("os.system", b"true")
    seen, _EVENTS = _EVENTS, None
    if len(seen) == 1:
        mon.counts["audit-alive"] += 1
    # a second model that must not notice anything
    by = weac.Layered("skiers", layers=[[180, 130], [260, 170]])
    by.set_foundation_properties(t=21.0, E=0.7, nu=0.2, update=True)
    by_print = fingerprint(by, 23.0)
    rows = sc["layers"] if isinstance(sc["layers"], str) else gen.pick(rng, [list(r) for r in sc["layers"]], tuple(tuple(r) for r in sc["layers"]), np.array(sc["layers"]))
    o = w("Layered", weac.Layered, sc["system"], rows, bool(sc.get("touchdown")))
    mon.counts["touchdown"] += bool(sc.get("touchdown"))
    w("set_beam_properties", o.set_beam_properties, rows, update=bool(rng.random() < 0.5), **sc.get("beam", {}))
    w("set_foundation_properties", o.set_foundation_properties, update=True, **sc.get("weak", {}))
    w("calc_fundamental_system", o.calc_fundamental_system)
    w("set_surface_load", o.set_surface_load, sc["p"])
    if rng.random() < 0.3:
        # copies are independent models
        mon.counts["copy"] += 1
        q = copy.deepcopy(o)
        q.set_foundation_properties(t=11.0, E=3.0, update=True)
        q.set_beam_properties([[333, 44]], update=True)
        q.set_surface_load(0.01)
    seg = {k: (rep(rng, v) if isinstance(v, list) else v) for k, v in sc["seg"].items()}
    both = w("calc_segments", o.calc_segments, phi=phi, **seg)["both"]
    li, mi, ki, k0 = (rep(rng, both[k]) for k in ("li", "mi", "ki", "k0"))
    C0 = w("assemble_and_solve", o.assemble_and_solve, phi=phi, li=li, mi=mi, ki=k0)
    C = w("assemble_and_solve", o.assemble_and_solve, phi=phi, li=li, mi=mi, ki=ki)
    x, z, xb = w("rasterize_solution", o.rasterize_solution, C=C, phi=phi, li=li, ki=ki, num=int(rng.integers(5, 60)))
    i = int(np.argmax(np.asarray(ki, bool)))
    l = float(np.asarray(li, float)[i])
    L = float(np.sum(np.asarray(li, float)))
    Zt = w("z", o.z, rep(rng, [0.0, 0.3 * l, l]), C[:, [i]], l, phi, bed=True)
    ops = [("w", lambda: w("w", o.w, z, unit="cm")), ("u", lambda: w("u", o.u, z, z0=2.0)), ("psi", lambda: w("psi", o.psi, z, unit="deg")), ("N", lambda: w("N", o.N, z)),
           ("M", lambda: w("M", o.M, z)), ("V", lambda: w("V", o.V, z)), ("sig", lambda: w("sig", o.sig, z)), ("tau", lambda: w("tau", o.tau, z, unit="kPa")),
           ("eps", lambda: w("eps", o.eps, z)), ("gamma", lambda: w("gamma", o.gamma, z)), ("Gi", lambda: w("Gi", o.Gi, Zt)), ("Gii", lambda: w("Gii", o.Gii, Zt, unit="J/m^2")),
           ("dz", lambda: w("dz_dx", o.dz_dx, Zt, phi)), ("dzz", lambda: w("dz_dxdx", o.dz_dxdx, Zt, phi)), ("u2", lambda: w("du0_dxdx", o.du0_dxdx, Zt, phi)),
           ("p3", lambda: w("dpsi_dxdxdx", o.dpsi_dxdxdx, Zt, phi)), ("gdif", lambda: w("gdif", o.gdif, C, phi, li=li, ki=ki, unit="J/m^2")),
           ("zmesh", lambda: w("get_zmesh", o.get_zmesh, dz=9.0)), ("Sxx", lambda: w("Sxx", o.Sxx, Zt, phi, dz=9.0)), ("Txz", lambda: w("Txz", o.Txz, Zt, phi, dz=9.0)),
           ("Szz", lambda: w("Szz", o.Szz, Zt, phi, dz=9.0)), ("ps", lambda: w("principal_stress_slab", o.principal_stress_slab, Zt, phi, dz=9.0, val="max", normalize=True)),
           ("pw", lambda: w("principal_stress_weaklayer", o.principal_stress_weaklayer, Zt, normalize=True)),
           ("gw", lambda: w("get_weaklayer_shearstress", o.get_weaklayer_shearstress, xb, z, removeNaNs=bool(rng.random() < 0.5))),
           ("gn", lambda: w("get_weaklayer_normalstress", o.get_weaklayer_normalstress, xb, z)),
           ("gd", lambda: w("get_slab_displacement", o.get_slab_displacement, x, z, loc="top")), ("gf", lambda: w("get_slab_deflection", o.get_slab_deflection, x, z)),
           ("gr", lambda: w("get_slab_rotation", o.get_slab_rotation, x, z)), ("ks", lambda: w("substitute_stiffness", o.substitute_stiffness, 500.0, "supported", "rot")),
           ("loads", lambda: (w("get_weight_load", o.get_weight_load, phi), w("get_surface_load", o.get_surface_load, phi), w("get_skier_load", o.get_skier_load, 80, phi)))]
    if np.any(np.asarray(k0, bool) & ~np.asarray(ki, bool)):
        ops.append(("ginc", lambda: w("ginc", o.ginc, C0, C, phi, li=li, ki=ki, k0=k0)))
    if sc["system"] in gen.PST and sc.get("touchdown"):
        for name in ("external_potential", "internal_potential", "total_potential"):
            ops.append((name, lambda name=name: w(name, getattr(o, name), C, phi, L, li=li, mi=mi, ki=ki, k0=k0)))
    rho = np.array([120.0, 240.0, 333.0])
    slab = np.asarray(o.slab)
    ops += [("tools", lambda: [w(f.__name__, f, rho) for f in (tools.bergfeld, tools.gerling, tools.scapozza, tools.tensile_strength_slab)]),
            ("cog", lambda: w("calc_center_of_gravity", tools.calc_center_of_gravity, slab[:, :2].copy())),
            ("wedge", lambda: w("calc_vertical_bc_center_of_gravity", tools.calc_vertical_bc_center_of_gravity, slab, phi)),
            ("profile", lambda: w("load_dummy_profile", tools.load_dummy_profile, gen.pick(rng, "a", "b", "soft", "comp", "E" if False else "h")))]
    if rng.random() < 0.1:
        ops.append(("td", lambda: w("touchdown_distance", tools.touchdown_distance, layers=np.array([[240.0, 200.0], [300.0, 100.0]]), Ewl=0.3, t=12, fails=False)))
    if sc["system"] in ("skier", "skiers"):
        ops.append(("ends", lambda: ends(o, rng, phi, mon)))
    # failing calls must not leave traces either
    ops += [("bad-unit", lambda: w("w bad unit", o.w, z, unit="mile", fails=True)), ("bad-lists", lambda: w("solve bad lists", o.assemble_and_solve, phi=phi, li=[1000.0, 2000.0], mi=[0, 0, 0], ki=[True, True], fails=True)),
            ("bad-profile", lambda: w("bad profile", weac.Layered, layers="profile nowhere", fails=True)),
            ("bad-val", lambda: w("bad component", o.principal_stress_slab, Zt, phi, val="mid", fails=True)),
            ("bad-loc", lambda: w("bad loc", o.get_slab_displacement, x, z, loc="side", fails=True)),
            ("floating", lambda: w("floating slab", weac.Layered("pst-").assemble_and_solve, phi=phi, li=[500.0, 500.0], mi=[0], ki=[False, False], fails=True))]
    for k in rng.permutation(len(ops)):
        ops[int(k)][1]()
    mon.true("bystander", np.array_equal(fingerprint(by, 23.0), by_print), "other instance")
    fresh = weac.Layered()
    mon.true("bystander", np.allclose(np.asarray(fresh.slab, float)[:, :2], [[240, 200]]) and fresh.t == 30 and fresh.p == 0 and fresh.touchdown is False, "fresh instance")
    Zn = w("z again", o.z, [0.0, 0.3 * l, l], C[:, [i]], l, phi, bed=True)
    mon.true("bystander", np.allclose(Zn, Zt, rtol=1e-9, atol=0), "same model")
