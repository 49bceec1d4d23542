"""P10: abort public calls at internal call boundaries and inspect the instance afterwards."""
import ast, copy, glob, os, sys
import numpy as np
from rv import gen, core
from rv.props import p09

RULE = ("public calls (touchdown segments, substitute stiffness, solving, rasterizing, energy release rates, potentials, "
        "stresses) aborted by an injected exception or interrupt at randomly chosen entries of functions of the package or at "
        "the n-th linear-algebra call, or by natural errors (ill-posed segments, singular systems); after each abort the "
        "material state is compared with that before the call and repeated and other calls with those of an undisturbed "
        "instance; non-trivial = at least one injected abort that propagated to the caller")
REQUIRED = {"aborted": 150, "state": 300, "repeat-after-abort": 150, "distinct-points": 10,
            "inside:touchdown": 20, "op:calc_segments": 50, "op:substitute_stiffness": 50, "op:assemble_and_solve": 20, "natural-error": 30}
N = {"quick": 60, "thorough": 1500}
TOL = 1e-8
CASE_TIMEOUT = 120
STATE = ("system", "kn", "kt", "t", "weak", "slab", "p", "k", "h", "zs", "A11", "B11", "D11", "kA55", "K0", "touchdown",
         "g", "lski", "ewC", "ewR", "evC", "evR", "sC", "sR")


class Abort(BaseException):
    """Injected interrupt."""


class Fault(Exception):
    """Injected error."""


def cases(rng, tier):
    return [{"seed": int(rng.integers(1 << 40)), "aborts": 8} for _ in range(N[tier])]


_CLEAN = None


def cleanup_lines():
    """Lines of the package that belong to handlers, finally blocks and __exit__ methods (no injection there)."""
    global _CLEAN
    if _CLEAN is None:
        _CLEAN = {}
        for f in glob.glob(os.path.join(core.REPO, "weac", "**", "*.py"), recursive=True):
            lines = set()
            try:
                tree = ast.parse(open(f).read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                blocks = []
                if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
                    blocks = list(n.finalbody) + [s for h in n.handlers for s in h.body]
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__"):
                    blocks = [n]
                for b in blocks:
                    lines.update(range(b.lineno, b.end_lineno + 1))
            _CLEAN[os.path.realpath(f)] = lines
    return _CLEAN


def in_cleanup(frame):
    clean = cleanup_lines()
    while frame is not None:
        c = clean.get(os.path.realpath(frame.f_code.co_filename)) if frame.f_code.co_filename in _FILES else None
        if c and frame.f_lineno in c:
            return True
        if frame.f_code.co_name in ("__exit__", "__del__"):
            return True
        frame = frame.f_back
    return False


_FILES = {}


def is_pkg(filename):
    if filename not in _FILES:
        root = os.path.realpath(os.path.join(core.REPO, "weac")) + os.sep
        if os.path.realpath(filename).startswith(root):
            _FILES[filename] = True
        else:
            return False
    return True


class Tracer:
    """Counts entries of package functions; raises at the chosen one."""

    def __init__(self, at=None, exc=Abort):
        self.n, self.at, self.exc, self.where, self.names = 0, at, exc, None, []

    def __call__(self, frame, event, arg):
        if event != "call" or not is_pkg(frame.f_code.co_filename):
            return None
        if frame.f_back is None or not is_pkg(frame.f_back.f_code.co_filename) and self.n == 0:
            # entry of the public call itself
            self.n += 1
            return None
        if frame.f_code.co_name.startswith("<") or in_cleanup(frame.f_back):
            return None
        self.n += 1
        self.names.append(frame.f_code.co_name)
        if self.at is not None and self.n == self.at:
            self.where = frame.f_code.co_name
            sys.settrace(None)
            raise self.exc("injected")
        return None


class LinAlg:
    """Lets the n-th call of solve/eig fail."""

    def __init__(self, at, exc):
        self.n, self.at, self.exc, self.hit = 0, at, exc, False
        self.orig = (np.linalg.solve, np.linalg.eig)

    def wrap(self, fn):
        def inner(*a, **k):
            if not in_cleanup(sys._getframe(1)):
                self.n += 1
                if self.n == self.at:
                    self.hit = True
                    raise self.exc("injected")
            return fn(*a, **k)
        return inner

    def __enter__(self):
        np.linalg.solve, np.linalg.eig = (self.wrap(f) for f in self.orig)
        return self

    def __exit__(self, *a):
        np.linalg.solve, np.linalg.eig = self.orig


def snapshot(o):
    return {k: copy.deepcopy(getattr(o, k)) for k in STATE if hasattr(o, k)}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, bool)) or a is None:
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= 1e-9 * np.max(np.abs(a)))


def make(rng):
    while True:
        t = p09.Track(rng)
        if rng.random() < 0.75:
            t.cfg["system"] = gen.pick(rng, "pst-", "-pst")
            t.cfg["touchdown"] = True
        a = p09.segargs(rng, t)
        if a is not None:
            t.o = gen.instance(t.cfg)
            return t, a


def ops(rng, t, a, segs, C):
    """Public calls as specs (see p09.apply) whose results do not depend on aborted ones."""
    ph = a["phi"]
    crack = segs["crack"]
    out = [("calc_segments", (), a), ("assemble_and_solve", (), dict(phi=ph, **crack)),
           ("rasterize_solution", (), dict(C=C, phi=ph, num=12, **crack)), ("gdif", (), dict(C=C, phi=ph, **crack)),
           ("substitute_stiffness", (float(rng.uniform(100, 2000)), "rested", gen.pick(rng, "rot", "trans")), {}),
           ("substitute_stiffness", (float(rng.uniform(100, 2000)), "supported", gen.pick(rng, "rot", "trans")), {})]
    if t.cfg["system"] in gen.PST:
        out.append((gen.pick(rng, "internal_potential", "external_potential", "total_potential"), (), dict(C=C, phi=ph, L=a["L"], **crack)))
    Z = rng.normal(size=(6, 3)) * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    out.append((gen.pick(rng, "Sxx", "Txz", "Szz", "principal_stress_slab"), (), dict(Z=Z, phi=ph, dz=10)))
    if t.cfg["touchdown"]:
        out += [("calc_segments", (), a)] * 3 + [("thresholds", (), {})]
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    t, a = make(rng)
    segs = t.o.calc_segments(**a)
    C = t.o.assemble_and_solve(phi=a["phi"], **segs["crack"])
    specs = ops(rng, t, a, segs, C)
    # undisturbed results
    truth = []
    for sp in specs:
        f = gen.instance(t.cfg)
        f.calc_segments(**a)
        truth.append(p09.apply(f, sp))
    before = snapshot(t.o)
    seen = set()
    for _ in range(case["aborts"]):
        j = int(rng.integers(len(specs)))
        sp = specs[j]
        name = sp[0]
        mon.counts["op:" + name] += 1
        f = gen.instance(t.cfg)
        if name != "calc_segments":
            f.calc_segments(**a)
        kind = rng.random()
        aborted = False
        where = None
        if kind < 0.7:
            count = Tracer()
            sys.settrace(count)
            try:
                p09.apply(f, sp)
            finally:
                sys.settrace(None)
            if count.n < 2:
                continue
            # every function of the call tree is equally likely to be hit, at any of its entries
            names = sorted(set(count.names))
            pick = names[int(rng.integers(len(names)))]
            hits = [i for i, x in enumerate(count.names) if x == pick]
            at = 2 + hits[int(rng.integers(len(hits)))]
            tr = Tracer(at, gen.pick(rng, Abort, Fault))
            sys.settrace(tr)
            try:
                p09.apply(t.o, sp)
            except (Abort, Exception):
                aborted = True
            finally:
                sys.settrace(None)
            where = tr.where
        else:
            with LinAlg(None, Fault) as lc:
                p09.apply(f, sp)
            if lc.n == 0:
                continue
            at = int(rng.integers(1, lc.n + 1))
            with LinAlg(at, gen.pick(rng, Abort, Fault, np.linalg.LinAlgError)) as la:
                try:
                    p09.apply(t.o, sp)
                except (Abort, Exception):
                    aborted = True
            where = "eigh/solve"
        if not aborted:
            continue
        mon.counts["aborted"] += 1
        mon.tag("at:%s" % where)
        seen.add(where)
        mon.counts["inside:touchdown"] += bool(name in ("calc_segments", "substitute_stiffness", "assemble_and_solve") and t.cfg["touchdown"])
        judge(mon, t, a, specs, truth, before, j, rng, {"op": name, "where": where, "at": at})
    mon.counts["distinct-points"] += len(seen)
    # natural errors
    for bad in (dict(li=[1e3, 1e3], mi=[0], ki=[False, False]), dict(li=[1e3, 1e3], mi=[], ki=[True, True]), dict(li=[0.0], mi=[0], ki=[True]),
                dict(li=[np.nan, 1e3], mi=[0], ki=[True, True])):
        try:
            t.o.assemble_and_solve(phi=a["phi"], **bad)
        except Exception:  # noqa: BLE001
            mon.counts["natural-error"] += 1
        judge(mon, t, a, specs, truth, before, int(rng.integers(len(specs))), rng, {"op": "ill-posed"})
    for call in (lambda: t.o.substitute_stiffness(np.nan, "rested", "rot"), lambda: t.o.substitute_stiffness(100.0, "rested", "nope"),
                 lambda: t.o.substitute_stiffness("x", "rested", "trans")):
        try:
            call()
        except Exception:  # noqa: BLE001 - any error will do
            mon.counts["natural-error"] += 1
        judge(mon, t, a, specs, truth, before, int(rng.integers(len(specs))), rng, {"op": "substitute_stiffness, ill-posed"})
    # an impossible touchdown request, then the possible one again
    if t.cfg["touchdown"]:
        for impossible in (dict(a, L=a["a"] * 0.2, a=a["a"] * 0.05), dict(a, cf=1e-9), dict(a, L=np.nan)):
            try:
                t.o.calc_segments(**impossible)
            except Exception:  # noqa: BLE001
                mon.counts["natural-error"] += 1
            judge(mon, t, a, specs, truth, before, int(rng.integers(len(specs))), rng, {"op": "calc_segments, impossible"})


def judge(mon, t, a, specs, truth, before, j, rng, detail):
    now = snapshot(t.o)
    diff = [k for k in before if not same(before[k], now.get(k))]
    mon.true("state", not diff, {**detail, "changed": diff})
    if rng.random() < 0.6:
        # repeat: the touchdown request is renewed first, then the aborted and another call
        order = [0, j, int(rng.integers(len(specs)))]
        for q in order:
            got = p09.apply(t.o, specs[q])
            m2 = core.Monitor()
            p09.agree(m2, "repeat-after-abort", got, truth[q], {**detail, "then": specs[q][0]})
            mon.counts.update(m2.counts)
            mon.nontrivial = True
            mon.violations.extend(m2.violations[:2])
