"""P25: the same numbers in different representations give the same results."""
import numpy as np
from rv import gen, ref

RULE = ("random scenarios with integer-valued inputs, each run in a canonical form (lists of Python floats) and in random other representations "
        "(tuples, arrays, several integer and float types, numpy scalars, single precision, property setters in any order, update=True or a later "
        "calc_fundamental_system()); all results compared; non-trivial = at least three variants compared")
REQUIRED = {"states": 500, "stress": 500, "G": 400, "segments": 500, "raster": 500, "variant": 500, "int32": 100, "tuple": 100, "np-scalar": 100,
            "deferred": 100, "touchdown": 5, "utility": 300, "positions": 500, "single": 500, "states single": 500, "sys:skiers": 20, "sys:pst-": 10}
N = {"quick": 780, "thorough": 15600}
CASE_TIMEOUT = 120


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        n = int(rng.integers(1, 6))
        sc = {"layers": [[float(rng.integers(8, 45) * 10), float(rng.integers(2, 40) * 10)] for _ in range(n)],
              "weak": {"t": float(rng.integers(5, 60)), "E": float(rng.integers(1, 9)), "nu": 0.25}, "phi": float(rng.integers(-60, 61)),
              "p": float(gen.pick(rng, 0.0, 0.001, 0.002)), "system": gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers", "skiers"),
              "beam": {"C0": float(rng.integers(4, 9)), "C1": float(rng.integers(4, 6)), "nu": 0.25},
              "seed": int(rng.integers(1 << 30)), "num": int(rng.integers(10, 90)), "touchdown": False}
        s = sc["system"]
        if s in gen.PST + gen.VPST:
            sc["seg"] = {"L": float(rng.integers(20, 60) * 100), "a": float(rng.integers(1, 20) * 50)}
            if s in gen.PST and rng.random() < 0.5:
                m = ref.Model([[r, h, sc["beam"]["C0"] * 1e3 * (r / 917.0) ** sc["beam"]["C1"]] for r, h in sc["layers"]], 0.25, sc["weak"], sc["p"])
                if 0.5 * m.t - sum(m.loads(sc["phi"])[::2]) / m.kn > 0.05 * m.t:
                    sc["touchdown"] = True
                    sc["seg"]["L"] = 20000.0
        elif s == "skier":
            sc["seg"] = {"L": float(rng.integers(150, 250) * 100), "a": float(rng.integers(1, 20) * 50), "m": float(rng.integers(0, 200))}
        else:
            d = gen.segs_skiers(rng, 6)
            sc["seg"] = {"li": [float(max(10, round(v))) for v in d["li"]], "mi": [float(round(v)) for v in d["mi"]], "ki": d["ki"], "k0": d["k0"]}
        out.append(sc)
    return out


SCALARS = [("float", float), ("int", int), ("np.float64", np.float64), ("np.int64", np.int64), ("np.int32", np.int32)]
SEQS = [("list", list), ("tuple", tuple), ("array", np.array)]


class Form:
    """A random representation of numbers and sequences."""

    def __init__(self, rng, mon, canonical=False, single=False):
        self.rng, self.mon, self.canonical, self.single = rng, mon, canonical, single
        self.used = []

    def num(self, v):
        if self.canonical:
            return v
        if self.single:
            self.mon.counts["single"] += 1
            return np.float32(v)
        name, f = SCALARS[int(self.rng.integers(len(SCALARS)))]
        if float(v) != int(v):
            f, name = ((float, "float"), (np.float64, "np.float64"))[int(self.rng.integers(2))]
        self.used.append(name)
        self.mon.counts["np-scalar"] += name.startswith("np")
        return f(v)

    def seq(self, v):
        if self.canonical:
            return list(v)
        if self.single:
            return np.array(v, np.float32) if self.rng.random() < 0.5 else [np.float32(x) for x in v]
        name, f = SEQS[int(self.rng.integers(3))]
        self.mon.counts["tuple"] += name == "tuple"
        if name == "array":
            dt = (float, np.int64, np.int32, None)[int(self.rng.integers(4))]
            self.mon.counts["int32"] += dt is np.int32
            self.used.append(f"array:{dt}")
            return np.array([int(x) for x in v] if dt is None else v).astype(dt or int)
        self.used.append(name)
        return f([self.num(x) for x in v] if self.rng.random() < 0.5 else [int(x) for x in v])

    def bools(self, v):
        if self.canonical:
            return list(v)
        name, f = SEQS[int(self.rng.integers(3))]
        self.used.append("bool " + name)
        return f([bool(x) for x in v]) if self.rng.random() < 0.6 else f([np.bool_(x) for x in v])

    def rows(self, v):
        if self.canonical:
            return [list(r) for r in v]
        if self.single:
            return np.array(v, np.float32)
        k = int(self.rng.integers(6))
        self.used.append(f"rows {k}")
        if k == 0:
            return tuple(tuple(r) for r in v)
        if k == 1:
            return np.array(v)
        if k == 2:
            return np.array(v).astype(int)
        if k == 3:
            self.mon.counts["int32"] += 1
            return np.array(v).astype(np.int32)
        if k == 4:
            return [np.array(r) for r in v]
        return [[int(x) for x in r] for r in v]


def drive(sc, form):
    import weac
    rng = form.rng
    if form.canonical:
        o = weac.Layered(system=sc["system"], layers=form.rows(sc["layers"]), touchdown=sc["touchdown"])
        o.set_beam_properties(form.rows(sc["layers"]), **sc["beam"], update=True)
        o.set_foundation_properties(**sc["weak"], update=True)
        o.set_surface_load(sc["p"])
    else:
        first = form.rows(sc["layers"]) if rng.random() < 0.6 else gen.pick(rng, None, "profile a", [[300, 500]])
        o = weac.Layered(sc["system"], first, sc["touchdown"])
        upd = [bool(rng.random() < 0.5) for _ in range(2)]
        steps = [lambda: o.set_beam_properties(layers=form.rows(sc["layers"]), C0=form.num(sc["beam"]["C0"]), C1=form.num(sc["beam"]["C1"]), nu=0.25, update=upd[0]),
                 lambda: o.set_foundation_properties(t=form.num(sc["weak"]["t"]), E=form.num(sc["weak"]["E"]), nu=0.25, update=upd[1]),
                 lambda: o.set_surface_load(form.num(sc["p"]))]
        order = rng.permutation(3)
        for k in order:
            steps[k]()
        last = [k for k in order if k < 2][-1]
        if not upd[last]:
            o.calc_fundamental_system()
            form.mon.counts["deferred"] += 1
            form.used.append("deferred")
    seg = sc["seg"]
    phi = form.num(sc["phi"])
    kw = {}
    for k, v in seg.items():
        kw[k] = form.num(v) if not isinstance(v, list) else form.bools(v) if k in ("ki", "k0") else form.seq(v)
    both = o.calc_segments(phi=phi, **kw)
    b = both["both"]
    out = {"segments": [np.asarray(b[k], float) for k in ("li", "mi", "ki", "k0")] + [[ord(str(o.mode)[0])]]}
    if form.canonical:
        li, mi, ki, k0 = ([x.item() if hasattr(x, "item") else x for x in np.asarray(b[k])] for k in ("li", "mi", "ki", "k0"))
        li, mi = [float(x) for x in li], [float(x) for x in mi]
    elif rng.random() < 0.5:
        li, mi, ki, k0 = (b[k] for k in ("li", "mi", "ki", "k0"))
    else:
        li, mi = (form.seq(b[k]) if all(float(x) == int(x) for x in np.asarray(b[k])) else list(np.asarray(b[k])) for k in ("li", "mi"))
        ki, k0 = form.bools(np.asarray(b["ki"])), form.bools(np.asarray(b["k0"]))
    C0 = o.assemble_and_solve(phi=phi, li=li, mi=mi, ki=k0)
    C = o.assemble_and_solve(phi=phi, li=li, mi=mi, ki=ki)
    xq, zq, xb = o.rasterize_solution(C=C, phi=phi, li=li, ki=ki, num=sc["num"])
    out["raster"] = [xq, np.nan_to_num(xb, nan=-1.0)]
    out["states"] = [zq]
    out["stress"] = [o.sig(zq), o.tau(zq), o.Sxx(zq[:, ::7], phi, dz=form.num(20.0)), o.Txz(zq[:, ::7], phi, dz=form.num(20.0)),
                     o.Szz(zq[:, ::7], phi, dz=form.num(20.0)), o.get_zmesh(dz=form.num(7.0))]
    out["G"] = [o.gdif(C, phi, li=li, ki=ki)]
    k0a, kia = np.asarray(k0), np.asarray(ki)
    if np.any(k0a & ~kia):
        out["G"].append(o.ginc(C0, C, phi, li=li, ki=ki, k0=k0))
    # positions
    i = int(np.argmax(kia))
    l = np.asarray(li)[i]
    xs = [0.0, 10.0, 17.0]
    pos = form.seq(xs)
    out["positions"] = [o.z(pos, C[:, [i]], l, phi, bed=True)]
    out["positions"].append(np.hstack([o.z(form.num(x), C[:, [i]], l, phi, bed=True) for x in xs]))
    j = np.where(~kia)[0]
    if j.size:
        out["positions"].append(o.z(form.seq([1.0, 500.0, 2000.0]), C[:, [j[0]]], np.asarray(li)[j[0]], phi, bed=False))
    return out, o


def run(sc, mon):
    from weac import tools
    m = gen.features(sc, mon)
    mon.counts["touchdown"] += sc["touchdown"]
    rng = np.random.default_rng(sc["seed"])
    want, ow = drive(sc, Form(rng, mon, True))
    tolerance = {"segments": 1e-9, "raster": 1e-9, "positions": 1e-6, "stress": 1e-6, "G": 1e-5}
    scale = {"stress": 0.0}
    for v in range(6):
        # the last variant is in single precision, which rounds the results
        loose = 1e4 if v == 5 else 1.0
        form = Form(rng, mon, single=v == 5)
        got, o = drive(sc, form)
        d = {"forms": form.used}
        mon.counts["variant"] += 1
        for k in want:
            if not mon.true("number", len(got[k]) == len(want[k]), {**d, "which": k}):
                continue
            grid = v < 5 or all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-4, atol=1e-2) for a, b in zip(got["raster"], want["raster"]))
            for j, (a, b) in enumerate(zip(got[k], want[k])):
                a, b = np.asarray(a, float), np.asarray(b, float)
                if v == 5 and (k in ("raster", "states", "stress") and not grid or k == "stress" and j > 1):
                    mon.counts["single: other grid"] += 1    # lengths rounded across a grid step
                    continue
                if k in ("states", "positions"):
                    if mon.true("shape", a.shape == b.shape, {**d, "which": k, "got": a.shape, "want": b.shape}):
                        s = m.scales(b)
                        mon.le(k + " single" * (v == 5), np.abs(a - b) / s[:, None], 1e-7 * loose, d)
                else:
                    mon.close(k + " single" * (v == 5), a, b, tolerance[k] if v < 5 else 1e-3, 1e-9, d)
    # helper functions of one number or an array of numbers
    rho = [float(r) for r, _ in sc["layers"]]
    form = Form(rng, mon)
    for f in (tools.bergfeld, tools.gerling, tools.scapozza, tools.tensile_strength_slab):
        base = np.array([f(r) for r in rho])
        mon.close("utility", [f(int(r)) for r in rho], base, 1e-12)
        for dt in (float, np.int64, np.int32):
            mon.close("utility", f(np.array(rho).astype(dt)), base, 1e-9, detail=[f.__name__, str(dt)])
            mon.close("utility", [f(dt(r)) for r in rho], base, 1e-9, detail=[f.__name__, str(dt)])
    H = tools.calc_center_of_gravity(np.array(sc["layers"]))
    mon.close("utility", tools.calc_center_of_gravity(np.array(sc["layers"]).astype(int)), H, 1e-12)
    mon.close("utility", tools.calc_center_of_gravity(np.array(sc["layers"]).astype(np.int32)), H, 1e-12)
    W = tools.calc_vertical_bc_center_of_gravity(ow.slab, sc["phi"])
    mon.close("utility", tools.calc_vertical_bc_center_of_gravity(ow.slab, int(sc["phi"])), W, 1e-12)
    mon.close("utility", ow.get_skier_load(int(77), sc["phi"]), ow.get_skier_load(77.0, sc["phi"]), 1e-12)
