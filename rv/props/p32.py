"""P32: omitting an optional argument is the same as giving its documented default."""
import numpy as np
from rv import gen, ref

RULE = ("random models and experiments in which a random subset of the optional arguments takes its documented default; run once with these arguments "
        "written out and once with them left out (on fresh and on used models); all results compared; non-trivial = at least one argument left out")
REQUIRED = {"model": 200, "segments": 200, "states": 200, "results": 1500, "parts": 500, "omitted": 400, "Inverse": 15, "reset": 100, "touchdown-distance": 20, "substitute": 100,
            "phi-": 10, "phi+": 10, "constants": 200, "seg:L": 20, "seg:a": 20, "seg:m": 20, "seg:phi": 20, "seg:cf": 20, "seg:ratio": 20, "no-layers": 50}
N = {"quick": 420, "thorough": 8400}
CASE_TIMEOUT = 120
# documented defaults
LAYERS = [[240, 200]]
FOUND = {"t": 30.0, "E": 0.25, "nu": 0.25}
BEAM = {"C0": 6.5, "C1": 4.4, "nu": 0.25}
SEG = {"L": 1e4, "a": 0.0, "m": 0.0, "phi": 0.0, "cf": 0.5, "ratio": 1000.0}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = {"layers": gen.layers(rng, nmax=6), "system": gen.pick(rng, "pst-", "-pst", "vpst-", "-vpst", "skier", "skier", "skiers"), "seed": int(rng.integers(1 << 30)),
              "touchdown": False, "nolayers": bool(rng.random() < 0.3)}
        v = {"t": gen.logu(rng, 5, 60), "E": gen.logu(rng, 0.1, 5), "nu": float(rng.uniform(0, 0.4))}
        sc["weak"] = {k: (x if rng.random() < 0.4 else FOUND[k]) for k, x in v.items()}
        v = {"C0": float(rng.uniform(4, 9)), "C1": float(rng.uniform(4, 5)), "nu": float(rng.uniform(0, 0.4))}
        sc["beam"] = {k: (x if rng.random() < 0.4 else BEAM[k]) for k, x in v.items()}
        v = {"L": float(rng.uniform(8000, 20000)), "a": float(rng.uniform(20, 1500)), "m": float(rng.uniform(10, 200)), "phi": gen.phi(rng, 50),
             "cf": float(rng.uniform(0.3, 0.9)), "ratio": float(gen.pick(rng, 100.0, 3000.0))}
        sc["seg"] = {k: (x if rng.random() < 0.6 else SEG[k]) for k, x in v.items()}
        sc["phi"] = sc["seg"]["phi"]
        if sc["system"] == "skiers":
            sc["lists"] = gen.segs_skiers(rng, 5)
        elif sc["system"] in gen.PST and rng.random() < 0.6:
            sc["touchdown"] = True
            sc["seg"]["L"] = float(gen.pick(rng, 1e4, 1e4, rng.uniform(2e4, 6e4)))
            sc["seg"]["a"] = float(gen.pick(rng, 0.0, rng.uniform(20, 6000)))
        sc["p"] = gen.load(rng)
        sc["num"] = int(gen.pick(rng, 250, rng.integers(10, 100)))
        out.append(sc)
    return out


class Call:
    """Keyword arguments with (some) defaults left out."""

    def __init__(self, rng, mon, omit):
        self.rng, self.mon, self.omit, self.left = rng, mon, omit, []

    def __call__(self, given, defaults, tag=""):
        out = {}
        for k, v in given.items():
            drop = self.rng.random() < 0.8
            if k in defaults and defaults[k] == v and self.omit and drop:
                self.left.append(k)
                self.mon.counts["omitted"] += 1
                if tag:
                    self.mon.counts[f"{tag}:{k}"] += 1
                continue
            out[k] = v
        return out


def drive(sc, rng, mon, omit, used):
    import weac
    call = Call(rng, mon, omit)
    rows = LAYERS if sc["nolayers"] else sc["layers"]
    if not omit:
        o = weac.Layered(system=sc["system"], layers=rows, touchdown=sc["touchdown"])
    else:
        kw = call({"system": sc["system"], "touchdown": sc["touchdown"]}, {"system": "pst-", "touchdown": False})
        if sc["nolayers"]:
            mon.counts["no-layers"] += 1
            o = weac.Layered(**kw) if rng.random() < 0.5 else weac.Layered(layers=gen.pick(rng, None, []), **kw)
        else:
            o = weac.Layered(layers=rows, **kw)
    if used:
        # a model that has been used with other values before
        mon.counts["reset"] += 1
        o.set_foundation_properties(t=17.0, E=1.3, nu=0.11, update=True)
        o.set_beam_properties([[190, 130], [280, 90]], C0=5.1, C1=4.1, nu=0.05, update=True)
        o.set_stiffness_ratio(77)
        if sc["system"] != "skiers":
            o.calc_segments(L=7777.0, a=333.0, m=55.0, phi=11.0, cf=0.71, ratio=321.0)
    if not omit or used or any(sc["beam"][k] != BEAM[k] for k in BEAM) or rng.random() < 0.5:
        o.set_beam_properties(rows, update=True, **call(sc["beam"], BEAM))
    if not omit or used or any(sc["weak"][k] != FOUND[k] for k in FOUND) or rng.random() < 0.5:
        o.set_foundation_properties(update=True, **call(sc["weak"], FOUND))
    if sc["p"] or not omit:
        o.set_surface_load(sc["p"])
    phi = sc["phi"]
    if sc["system"] == "skiers":
        seg = {**sc["lists"], **call({k: sc["seg"][k] for k in ("phi", "cf", "ratio")}, SEG, "seg")}
    else:
        seg = call(sc["seg"], SEG, "seg")
    both = o.calc_segments(**seg)["both"]
    out = {"segments": [np.asarray(both[k], float) for k in ("li", "mi", "ki", "k0")] + [[ord(str(o.mode)[0])]]}
    d = {k: both[k] for k in ("li", "mi", "ki")}
    C = o.assemble_and_solve(phi=phi, **d)
    C0 = o.assemble_and_solve(phi=phi, li=both["li"], mi=both["mi"], ki=both["k0"])
    kw = call({"num": sc["num"]}, {"num": 250})
    xq, zq, xb = o.rasterize_solution(C=C, phi=phi, li=both["li"], ki=both["ki"], **kw)
    i = int(np.argmax(np.asarray(both["ki"], bool)))
    l = np.asarray(both["li"], float)[i]
    out["states"] = [zq, o.z([0.3 * l], C[:, [i]], l, phi, **call({"bed": True}, {"bed": True}))]
    # parts of the solution: columns of the complementary solution, particular solution, end conditions
    for xx, d in ((0.0, dict(l=0, bed=True)), (0.2 * l, dict(l=0.7 * l, bed=True)), (0.2 * l, dict(l=0, bed=True)), (0.2 * l, dict(l=0, bed=False))):
        out.setdefault("parts", []).append(np.asarray(o.zh(xx, **call(d, dict(l=0, bed=True))), float) if xx < 3 * sc["weak"]["t"] or d["l"] or not d["bed"] else np.zeros(1))
    out["parts"].append(np.asarray(o.zp(0.2 * l, phi, **call({"bed": True}, {"bed": True})), float))
    out["results"] = [xq, np.nan_to_num(xb, nan=-1.0)]
    g = lambda f, u, *a, **k: np.asarray(f(*a, **k, **call({"unit": u}, {"unit": u})), float)
    Z = zq[:, ::11]
    out["results"] += [g(o.w, "mm", zq), g(o.psi, "rad", zq), g(o.u, "mm", zq, z0=3.0), g(o.sig, "MPa", zq), g(o.tau, "MPa", zq), g(o.Gi, "kJ/m^2", Z), g(o.Gii, "kJ/m^2", Z),
                       g(o.gdif, "kJ/m^2", C, phi, li=both["li"], ki=both["ki"])]
    for f in (o.Sxx, o.Txz, o.Szz):
        out["results"].append(np.asarray(f(Z, phi, **call({"dz": 2, "unit": "kPa"}, {"dz": 2, "unit": "kPa"})), float))
    out["results"].append(o.get_zmesh(**call({"dz": 2}, {"dz": 2})))
    out["results"].append(o.principal_stress_slab(Z, phi, **call(dict(dz=2, unit="kPa", val="max", normalize=False), dict(dz=2, unit="kPa", val="max", normalize=False))))
    d = dict(sc=2.6, unit="kPa", val="min", normalize=False)
    out["results"].append(o.principal_stress_weaklayer(Z, **call(d, d)))
    out["results"].append(o.principal_stress_weaklayer(Z, normalize=True, **call(dict(sc=2.6), d)))
    for f, u in ((o.get_weaklayer_shearstress, "MPa"), (o.get_weaklayer_normalstress, "MPa")):
        d = dict(unit=u, removeNaNs=False)
        out["results"] += [np.nan_to_num(np.asarray(v, float), nan=-1.0) for v in f(xb, zq, **call(d, d))]
    d = dict(loc="mid", unit="mm")
    out["results"] += [np.asarray(v, float) for v in o.get_slab_displacement(xq, zq, **call(d, d))]
    out["results"] += [np.asarray(v, float) for v in o.get_slab_deflection(xq, zq, **call(dict(unit="mm"), d))]
    out["results"] += [np.asarray(v, float) for v in o.get_slab_rotation(xq, zq, **call(dict(unit="degrees"), dict(unit="degrees")))]
    if np.any(np.asarray(both["k0"], bool) & ~np.asarray(both["ki"], bool)):
        out["results"].append(o.ginc(C0, C, phi, li=both["li"], ki=both["ki"], k0=both["k0"]))
    d = dict(support="rested", dof="rot")
    s = gen.pick(np.random.default_rng(sc["seed"]), ("rested", "rot"), ("rested", "trans"), ("supported", "rot"))
    mon.counts["substitute"] += 1
    out["results"].append([o.substitute_stiffness(800.0, **call(dict(support=s[0], dof=s[1]), d))])
    o.set_stiffness_ratio(**call(dict(ratio=1000), dict(ratio=1000)))
    out["results"].append([o.substitute_stiffness(800.0)])
    if sc["touchdown"]:
        kw = call({"ratio": sc["seg"]["ratio"]}, SEG)
        o.calc_touchdown_system(sc["seg"]["L"], sc["seg"]["a"], sc["seg"]["cf"], phi, **kw)
        out["results"].append([float(o.td), ord(o.mode)])
    return out, o, call.left


def compare(mon, m, got, want, info):
    for k in want:
        if not mon.true("number", len(got[k]) == len(want[k]), {**info, "which": k}):
            continue
        for j, (a, b) in enumerate(zip(got[k], want[k])):
            a, b = np.asarray(a, float), np.asarray(b, float)
            d = {**info, "which": f"{k}[{j}]"}
            if not mon.true("shape", a.shape == b.shape, {**d, "got": a.shape, "want": b.shape}):
                continue
            if k == "parts":
                if not info.get("used"):
                    mon.le(k, np.abs(a - b) / (np.abs(b).max(axis=0) + 1e-300), 1e-6, d)
            elif k == "states":
                mon.le(k, np.abs(a - b) / m.scales(want["states"][0])[:, None], 1e-7, d)
            else:
                mon.close(k, a, b, 1e-6 if k == "results" else 1e-9, 1e-12, d)


def run(sc, mon):
    import weac
    from weac import tools
    rows = LAYERS if sc["nolayers"] else sc["layers"]
    full = {**sc, "layers": rows}
    m = gen.features(full, mon)
    rng = np.random.default_rng(sc["seed"])
    want, ow, _ = drive(sc, rng, mon, False, False)
    for v in range(3):
        got, o, left = drive(sc, rng, mon, True, used=v == 2)
        compare(mon, m, got, want, {"left out": sorted(set(left)), "used": v == 2})
    # what the model reports about itself
    mon.counts["model"] += 1
    slab = np.asarray(o.slab, float)
    lam = m.lam
    for name, a, b in (("rho", slab[:, 0], lam.rho), ("h", slab[:, 1], lam.t), ("E", slab[:, 2], lam.E), ("nu", slab[:, 4], np.full(lam.t.size, sc["beam"]["nu"])),
                       ("t", o.t, sc["weak"]["t"]), ("Ewl", o.weak["E"], sc["weak"]["E"]), ("nuwl", o.weak["nu"], sc["weak"]["nu"]), ("kn", o.kn, m.kn), ("kt", o.kt, m.kt)):
        mon.close("constants", a, b, 1e-9, 1e-12, name)
    mon.close("constants", [o.g, o.lski, o.k], [9810.0, 1000.0, 5 / 6], 1e-9, detail="g, lski, k")
    F = o.get_skier_load(80.0, sc["phi"])
    r = np.deg2rad(sc["phi"])
    mon.close("constants", F, 80e-3 * 9.81 * np.array([np.cos(r), -np.sin(r)]), 1e-9, detail="skier")
    # Inverse
    if rng.random() < 0.15:
        p = [float(rng.uniform(4, 8)), float(rng.uniform(4, 5)), float(rng.uniform(0.1, 1))] if rng.random() < 0.4 else [6.0, 4.6, 0.25]
        kw = {} if p == [6.0, 4.6, 0.25] else {"parameters": p}
        if sc["system"] != "pst-":
            kw["system"] = sc["system"]
        if not sc["nolayers"]:
            kw["layers"] = rows
        i = weac.Inverse(**kw)
        j = weac.Layered(system=sc["system"], layers=rows)
        j.set_beam_properties(rows, C0=p[0], C1=p[1], nu=0.25, update=True)
        j.set_foundation_properties(t=30.0, E=p[2], nu=0.25, update=True)
        mon.counts["Inverse"] += 1
        mon.true("constants", i.system == sc["system"], "Inverse system")
        for k in ("A11", "B11", "D11", "kA55", "kn", "kt", "h", "zs"):
            mon.close("constants", float(getattr(i, k)), float(getattr(j, k)), 1e-9, 1e-9 * float(j.A11) * float(j.h), detail="Inverse " + k)
    # touchdown distance
    if rng.random() < 0.12:
        d = {"C0": 6.5, "C1": 4.4, "Ewl": 0.25, "t": 10.0, "phi": 0.0}
        v = {"C0": sc["beam"]["C0"], "C1": sc["beam"]["C1"], "Ewl": sc["weak"]["E"], "t": float(rng.uniform(9, 20)) if rng.random() < 0.5 else 10.0,
             "phi": float(rng.uniform(-30, 30)) if rng.random() < 0.5 else 0.0}
        mm = ref.Model([[a, b, v["C0"] * 1e3 * (a / 917.0) ** v["C1"]] for a, b in rows], 0.25, {"E": v["Ewl"], "t": v["t"]}, 0.0)
        if 0.5 * mm.t - mm.loads(v["phi"])[0] / mm.kn > 0.1 * mm.t:
            try:
                want = tools.touchdown_distance(layers=rows, **v)
            except ValueError:
                want = None  # no contact within the span searched: the same has to happen below
            for _ in range(2):
                call = Call(rng, mon, True)
                kw = call(v, d)
                if not sc["nolayers"]:
                    kw["layers"] = rows
                mon.counts["touchdown-distance"] += 1
                try:
                    got = tools.touchdown_distance(**kw)
                except ValueError:
                    got = None
                if mon.true("results", (got is None) == (want is None), {"touchdown_distance": call.left}) and got is not None:
                    mon.close("results", got, want, 1e-9, detail={"touchdown_distance": call.left})
