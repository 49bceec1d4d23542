"""P09: random call histories on live instances against fresh instances with the same current inputs."""
import copy, sys, threading
import numpy as np
from rv import gen, core, ref, zygote

RULE = ("random histories of 8-20 public calls (property updates, surface loads, segment computations with and without "
        "touchdown, solving, all post-processing) on two live instances; after every call the result is compared with that "
        "of a fresh instance given the same current inputs in a pristine process, arguments are compared with copies, and calls are repeated; some "
        "histories run in parallel threads on separate instances; non-trivial = at least 3 results compared")
REQUIRED = {"vs-fresh": 1500, "repeat": 200, "args-unmodified": 1000, "threads": 8, "op:solve": 100, "op:segments": 100,
            "op:gdif": 50, "op:ginc": 15, "op:stress": 30, "op:beam": 50, "op:foundation": 50, "op:load": 50, "stage:B": 1, "stage:C": 2,
            "op:spring": 20, "op:potential": 10, "op:output": 20, "op:thresholds": 10, "op:derivative": 60, "op:both": 30, "focused": 30}
N = {"quick": 400, "thorough": 2500}
TOL = 1e-7
FRESH = True
CASE_TIMEOUT = 120


def cases(rng, tier):
    return [{"seed": int(rng.integers(1 << 40)), "threads": bool(i % 12 == 11), "len": int(rng.integers(8, 21))}
            for i in range(N[tier])]


class Track:
    """One live instance together with its current inputs."""

    def __init__(self, rng):
        self.cfg = gen.material(rng)
        self.cfg["system"] = gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers", "skier", "skiers", "pst-", "-pst")
        self.cfg["touchdown"] = bool(self.cfg["system"] in gen.PST and rng.random() < 0.6)
        self.o = gen.instance(self.cfg)
        self.past, self.pastw = [], []
        self.seg = None             # arguments of the last calc_segments since the last update
        self.last = None            # its result
        self.C = {}

    def invalidate(self):
        self.C = {}
        if self.cfg["touchdown"]:       # touchdown depends on all properties
            self.seg, self.last = None, None


def apply(o, spec):
    """Run one public call (or read attributes) and return a plain result."""
    method, args, kw = spec
    if method == "read":
        return [getattr(o, a) for a in args]
    if method == "thresholds":
        return [o.calc_a1(), o.calc_a2()]
    if method == "loads":
        return [o.get_surface_load(*args), o.get_weight_load(*args), o.get_skier_load([70.0, 80.0], *args), o.zp(10.0, *args), o.zp(10.0, *args, bed=False)]
    if method == "calc_segments" and o.touchdown:
        return [o.calc_segments(**kw), o.td, o.tc, {"A": 0, "B": 1, "C": 2}[o.mode]]
    return getattr(o, method)(*args, **kw)


def pristine(req):
    """The same request on a fresh instance in a pristine process."""
    cfg, seg, spec = req
    o = gen.instance(cfg)
    if seg is not None:
        o.calc_segments(**seg)
    return apply(o, spec)


def flat(x):
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in flat(x[k])]
    if isinstance(x, (tuple, list)) and any(isinstance(v, (dict, tuple, list, np.ndarray)) for v in x):
        return [v for e in x for v in flat(e)]
    return [np.asarray(x, float)]


def agree(mon, name, a, b, detail):
    a, b = flat(a), flat(b)
    if not mon.true(name, len(a) == len(b), detail):
        return
    for x, y in zip(a, b):
        if x.shape == y.shape and x.ndim == 2 and x.shape[0] == 6:
            for i in range(6):          # rows of states and constants have different units
                mon.close(name, x[i], y[i], TOL, scale=1e-6 * (np.nanmax(np.abs(y)) if y.size else 0) + 1e-300, detail=detail)
        else:
            mon.close(name, x, y, TOL, scale=1e-300, detail=detail)


def segargs(rng, t):
    sc = t.cfg
    m = gen.model(sc)
    ph = gen.phi(rng, 50)
    if sc["touchdown"]:
        m_qn = sum(m.loads(ph)[::2])
        cf = float(rng.uniform(0.3, 0.9))
        tc = cf * m.t - m_qn / m.kn
        if tc < 0.05 * m.t:
            return None
        a1 = (8 * (m.lam.D - m.lam.B**2 / m.lam.A) * tc / m_qn) ** 0.25
        a = a1 * float(rng.uniform(0.5, 2.5))
        return dict(phi=ph, L=max(6 * a1, a + 2500.0), a=a, cf=cf, ratio=float(gen.pick(rng, 100.0, 1000.0)))
    if sc["system"] == "skiers":
        s = gen.segs_skiers(rng, nmax=5)
        return dict(phi=ph, **{k: (np.array(v) if rng.random() < 0.5 else v) for k, v in s.items()})
    s = gen.segs_skier(rng) if sc["system"] == "skier" else gen.segs_pst(rng)
    return dict(phi=ph, **s)


def op_segments(rng, t):
    a = segargs(rng, t)
    if a is None:
        return None
    t.seg, t.C = a, {}
    return "calc_segments", (), a


def op_solve(rng, t, conf=None):
    if t.seg is None or t.last is None:
        return None
    conf = conf or gen.pick(rng, "crack", "nocrack")
    if conf == "nocrack" and t.cfg["touchdown"]:
        conf = "crack"
    t.conf = conf
    return "assemble_and_solve", (), dict(phi=t.seg["phi"], **t.last[conf])


def op_raster(rng, t):
    if "crack" not in t.C:
        return None
    return "rasterize_solution", (), dict(C=t.C["crack"], phi=t.seg["phi"], num=int(rng.integers(5, 60)), **t.last["crack"])


def op_gdif(rng, t):
    if "crack" not in t.C:
        return None
    return "gdif", (), dict(C=t.C["crack"], phi=t.seg["phi"], unit=gen.pick(rng, "kJ/m^2", "J/m^2"), **t.last["crack"])


def op_ginc(rng, t):
    if t.last is None or t.cfg["touchdown"]:
        return None
    for conf in ("crack", "nocrack"):
        if conf not in t.C:
            return op_solve(rng, t, conf)
    b = t.last["both"]
    n = np.asarray(b["k0"]) & ~np.asarray(b["ki"])
    if not n.any() or np.asarray(b["li"])[n].sum() < 1:
        return None
    return "ginc", (), dict(C0=t.C["nocrack"], C1=t.C["crack"], phi=t.seg["phi"], **b)


def op_stress(rng, t):
    Z = rng.normal(size=(6, 4)) * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    kw = dict(Z=Z, phi=gen.phi(rng), dz=float(rng.uniform(2, 20)), unit=gen.pick(rng, "kPa", "MPa"))
    return gen.pick(rng, "Sxx", "Txz", "Szz", "principal_stress_slab"), (), kw


def op_derivative(rng, t):
    Z = rng.normal(size=(6, 4)) * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    return gen.pick(rng, "dz_dx", "dz_dxdx", "du0_dxdxdx", "dpsi_dxdxdx", "du0_dxdx", "dpsi_dxdx"), (), dict(z=Z, phi=gen.phi(rng))


def op_field(rng, t):
    Z = rng.normal(size=(6, 5)) * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    fn, args = gen.pick(rng, ("sig", (Z, "kPa")), ("tau", (Z, "kPa")), ("N", (Z,)), ("M", (Z,)), ("V", (Z,)), ("eps", (Z,)), ("gamma", (Z,)),
                        ("Gi", (Z, "J/m^2")), ("Gii", (Z, "J/m^2")), ("principal_stress_weaklayer", (Z,)))
    return fn, args, {}


def op_output(rng, t):
    Z = rng.normal(size=(6, 7)) * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    x = np.cumsum(rng.uniform(1, 10, 7))
    x[rng.random(7) < 0.3] = np.nan
    fn, kw = gen.pick(rng, ("get_weaklayer_shearstress", {"unit": "kPa"}), ("get_weaklayer_normalstress", {"removeNaNs": True}),
                      ("get_slab_displacement", {"loc": "top", "unit": "um"}), ("get_slab_deflection", {"unit": "cm"}),
                      ("get_slab_rotation", {}), ("get_weaklayer_normalstress", {}))
    return fn, (), dict(x=x, z=Z, **kw)


def op_potential(rng, t):
    if "crack" not in t.C or t.cfg["system"] not in gen.PST:
        return None
    return (gen.pick(rng, "internal_potential", "external_potential", "total_potential"), (),
            dict(C=t.C["crack"], phi=t.seg["phi"], L=t.seg["L"], **t.last["crack"]))


def op_spring(rng, t):
    if t.seg is None:
        return None
    L = gen.pick(rng, float(rng.uniform(50, 3000)), 500.0, 1000.0)
    return "substitute_stiffness", (L, gen.pick(rng, "rested", "supported"), gen.pick(rng, "rot", "trans")), {}


def op_thresholds(rng, t):
    if t.seg is None or not t.cfg["touchdown"]:
        return None
    return "thresholds", (), {}


def related_slab(rng, t):
    """A new slab, often one that shares much with the present or an earlier one."""
    now = (t.cfg["layers"], t.cfg.get("beam", {}))
    t.past.append(copy.deepcopy(now))
    kind = rng.random()
    if kind < 0.15:
        return copy.deepcopy(t.past[int(rng.integers(len(t.past)))])      # back to an earlier one, or the same again
    if kind < 0.6:
        rows = [list(r) for r in ref.profile_rows(now[0])] if isinstance(now[0], str) else copy.deepcopy(now[0])
        rows, beam = [r[:2] for r in rows], dict(now[1])
        h, n = sum(r[1] for r in rows), len(rows)
        what = int(rng.integers(8))
        if what == 0:
            rows = rows[::-1]
        elif what == 1:
            rows = [rows[i] for i in rng.permutation(n)]
        elif what == 2:                 # same thicknesses, other densities
            rows = [[float(rng.uniform(60, 480)), r[1]] for r in rows]
        elif what == 3:                 # same densities, same total, other thicknesses
            w = rng.dirichlet(np.full(n, 2.0)) * 0.9 + 0.1 / n
            rows = [[r[0], float(max(1.0, h * x))] for r, x in zip(rows, w)]
        elif what == 4:                 # one property of one layer
            i, j = int(rng.integers(n)), int(rng.integers(2))
            rows[i][j] = float(rows[i][j] * rng.uniform(0.7, 1.4))
        elif what == 5:                 # Poisson's ratio only
            beam["nu"] = float(rng.uniform(0, 0.4))
        elif what == 6:                 # modulus constants only
            beam[gen.pick(rng, "C0", "C1")] = float(rng.uniform(4, 5))
        else:                           # same weight, other density
            f = float(rng.uniform(0.7, 1.4))
            rows = [[r[0] * f, r[1] / f] for r in rows]
        return rows, beam
    new = gen.material(rng)
    return new["layers"], new.get("beam", {})


def related_weak(rng, t):
    w = {"t": 30.0, "E": 0.25, "nu": 0.25, **t.cfg.get("weak", {})}
    t.pastw.append(w)
    kind = int(rng.integers(10))
    f = float(rng.uniform(0.4, 2.5))
    if kind == 0:
        return dict(t.pastw[int(rng.integers(len(t.pastw)))])
    if kind == 1:
        return {**w, "t": w["t"] * f, "E": w["E"] * f}                    # same stiffnesses
    if kind == 2:
        return {**w, "nu": float(rng.uniform(0, 0.45))}
    if kind == 3:
        return {**w, "E": w["E"] * f}
    if kind == 4:
        return {**w, "t": w["t"] * f}
    if kind == 5:                                                         # same normal stiffness, other shear stiffness
        nu = float(rng.uniform(0, 0.45))
        return {**w, "nu": nu, "E": w["E"] * (1 - nu**2) / (1 - w["nu"]**2)}
    return gen.weak(rng)


def op_beam(rng, t):
    t.cfg["layers"], t.cfg["beam"] = related_slab(rng, t)
    new = t.cfg
    t.invalidate()
    arg = np.array(new["layers"]) if not isinstance(new["layers"], str) and rng.random() < 0.5 else new["layers"]
    keep = copy.deepcopy(arg)
    if rng.random() < 0.4:
        t.o.set_beam_properties(arg, **t.cfg["beam"])
        t.o.calc_fundamental_system()
    else:
        t.o.set_beam_properties(arg, **t.cfg["beam"], update=True)
    t.extra = isinstance(arg, str) or np.array_equal(arg, keep)
    if isinstance(arg, np.ndarray):
        arg *= 0.5                      # the caller reuses its array afterwards
    return "read", ("h", "zs", "A11", "B11", "D11", "kA55", "slab"), {}


def op_foundation(rng, t):
    t.cfg["weak"] = related_weak(rng, t)
    t.invalidate()
    t.o.set_foundation_properties(**t.cfg["weak"], update=True)
    return "read", ("kn", "kt", "t"), {}


def op_both(rng, t):
    """New slab and new weak layer with one recalculation, by whichever call comes last."""
    t.cfg["layers"], t.cfg["beam"] = related_slab(rng, t)
    t.cfg["weak"], new = related_weak(rng, t), t.cfg
    t.invalidate()
    if rng.random() < 0.5:
        t.o.set_beam_properties(new["layers"], **t.cfg["beam"])
        t.o.set_foundation_properties(**t.cfg["weak"], update=True)
    else:
        t.o.set_foundation_properties(**t.cfg["weak"])
        t.o.set_beam_properties(new["layers"], **t.cfg["beam"], update=True)
    return "read", ("h", "zs", "A11", "B11", "D11", "kA55", "slab", "kn", "kt", "t"), {}


def op_load(rng, t):
    t.cfg["p"] = float(gen.pick(rng, gen.load(rng), gen.load(rng), t.cfg.get("p", 0.0) * rng.uniform(0.5, 2)))
    t.invalidate()
    t.o.set_surface_load(t.cfg["p"])
    return "loads", (gen.phi(rng),), {}


OPS = {"segments": op_segments, "solve": op_solve, "raster": op_raster, "gdif": op_gdif, "ginc": op_ginc, "stress": op_stress,
       "output": op_output, "potential": op_potential, "spring": op_spring, "thresholds": op_thresholds, "beam": op_beam,
       "foundation": op_foundation, "load": op_load, "derivative": op_derivative, "field": op_field, "both": op_both}
ORDER = ["segments", "solve", "solve", "raster", "gdif", "ginc", "stress", "output", "potential", "spring", "thresholds", "beam", "foundation",
         "load", "segments", "solve", "potential", "gdif", "ginc", "derivative", "field", "both"]
READERS = ["solve", "raster", "gdif", "ginc", "stress", "output", "potential", "spring", "thresholds", "derivative", "field", "stress", "derivative"]
UPDATES = ["foundation", "beam", "load", "both", "segments"]


def plan(rng):
    """A reader before and after updates on one instance, other calls on the other instance in between."""
    r = gen.pick(rng, *READERS)
    out = [(0, "segments"), (0, "solve"), (0, r)] + ([(0, r)] if r == "ginc" else [])
    for _ in range(int(rng.integers(1, 4))):
        out += [(0, gen.pick(rng, *UPDATES))] * (1 if rng.random() < 0.8 else 2) + ([(0, "segments")] if rng.random() < 0.6 else []) + [(0, "solve")] + [(0, r)] * (3 if r == "ginc" else 1)
        if rng.random() < 0.3:
            out += [(1, gen.pick(rng, *UPDATES)), (1, gen.pick(rng, "segments", "stress", "derivative"))]
    return out


def unchanged(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b


def history(rng, n, mon, zyg):
    log = []
    tracks = [Track(rng), Track(rng)]
    done = tries = 0
    fixed = plan(rng) if rng.random() < 0.5 else None
    if fixed:
        mon.tag("focused")
        n = len(fixed)
    while done < n and tries < 20 * n:
        tries += 1
        t = tracks[int(rng.integers(2))]
        name = ORDER[int(rng.integers(len(ORDER)))]
        if fixed is not None:
            if not fixed:
                break
            k, name = fixed.pop(0)
            t = tracks[k]
        elif t.seg is None and rng.random() < 0.6:
            name = "segments"
        elif t.seg is not None and t.last is not None and not t.C and rng.random() < 0.6:
            name = "solve"
        elif "crack" in t.C and "nocrack" not in t.C and rng.random() < 0.3:
            name = "ginc"
        t.extra = True
        spec = OPS[name](rng, t)
        if spec is None:
            continue
        if spec[0] == "assemble_and_solve":
            name = "solve"
        keep = copy.deepcopy(spec[2])
        got = apply(t.o, spec)
        log.append(name)
        mon.tag("op:" + name)
        mon.counts["op:" + name] += 1
        mon.true("args-unmodified", t.extra and all(unchanged(spec[2][k], keep[k]) for k in keep), {"op": name, "method": spec[0]})
        if name == "segments":
            t.last = got[0] if t.cfg["touchdown"] else got
            got = copy.deepcopy(got)
            if t.cfg["touchdown"]:
                mon.counts["stage:%s" % t.o.mode] += 1
        elif name == "solve":
            t.C[t.conf] = np.array(got)
        seg = None if name == "segments" else t.seg
        if not t.cfg["touchdown"] and name in ("solve", "raster", "gdif", "ginc", "stress", "output") and rng.random() < 0.5:
            seg = None              # without touchdown these do not depend on calc_segments at all
        status, want = zyg.ask((t.cfg, seg, (spec[0], spec[1], keep)))
        if mon.true("fresh-works", status == "ok", {"op": name, "error": want}):
            agree(mon, "vs-fresh", got, want, {"op": spec[0], "system": t.cfg["system"], "touchdown": t.cfg["touchdown"], "history": log[-12:]})
        if rng.random() < 0.3:
            agree(mon, "repeat", apply(t.o, spec), got, {"op": spec[0]})
        done += 1


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if not case["threads"]:
        zyg = zygote.Zygote(pristine)
        try:
            history(rng, case["len"], mon, zyg)
        finally:
            zyg.close()
        return
    # separate instances in parallel threads with frequent switches
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    mons, errs = [core.Monitor() for _ in range(4)], []
    zygs = [zygote.Zygote(pristine) for _ in range(4)]

    def work(i):
        try:
            history(np.random.default_rng([case["seed"], i]), case["len"], mons[i], zygs[i])
        except Exception as exc:  # noqa: BLE001
            errs.append(exc)
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(4)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        for z in zygs:
            z.close()
    if errs:
        raise errs[0]
    for x in mons:
        mon.counts.update(x.counts)
        mon.violations.extend(x.violations)
        mon.tags |= x.tags
    mon.true("threads", True)
