"""P24: Inverse and Layered driven in lockstep."""
import numpy as np
from rv import gen, ref

RULE = ("random parameter triples, layerings and systems; an Inverse model and a Layered model set to the same properties are driven through the "
        "same calls and all results compared, and the Inverse solution also with the reference boundary value problem; non-trivial = solutions compared")
REQUIRED = {"segments": 150, "states": 150, "stress": 150, "G": 120, "reference": 120, "default-parameters": 20, "default-layers": 8, "database-profile": 8,
            "sys:skiers": 10, "sys:skier": 10, "sys:pst-": 10, "sys:-vpst": 5, "positional": 20}
N = {"quick": 1560, "thorough": 31200}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.scenario(rng, beam=0, extreme=0.08)
        sc["weak"] = {}
        sc["par"] = [float(rng.uniform(3, 10)), float(rng.uniform(3.8, 5)), gen.logu(rng, 0.05, 10)] if rng.random() < 0.8 else None
        sc["default-layers"] = bool(rng.random() < 0.1)
        sc["num"] = int(rng.integers(10, 150))
        sc["positional"] = bool(rng.random() < 0.3)
        out.append(sc)
    return out


def run(sc, mon):
    import weac
    phi = sc["phi"]
    par = sc["par"] or [6.0, 4.6, 0.25]
    C0, C1, Ew = par
    if sc["default-layers"]:
        sc["layers"] = [[240.0, 200.0]]
    kw = {} if sc["par"] is None else {"parameters": tuple(par)}
    if sc["default-layers"]:
        inv = weac.Inverse(system=sc["system"], **kw)
        mon.counts["default-layers"] += 1
    elif sc["positional"]:
        inv = weac.Inverse(sc["system"], sc["layers"], *kw.values())
        mon.counts["positional"] += 1
    else:
        inv = weac.Inverse(system=sc["system"], layers=sc["layers"], **kw)
    mon.counts["default-parameters"] += sc["par"] is None
    lay = weac.Layered(system=sc["system"], layers=sc["layers"])
    lay.set_beam_properties(sc["layers"], C0=C0, C1=C1, update=True)
    lay.set_foundation_properties(E=Ew, update=True)
    if sc.get("p"):
        inv.set_surface_load(sc["p"])
        lay.set_surface_load(sc["p"])
    sc = dict(sc, beam={} if isinstance(sc["layers"], str) else {"C0": C0, "C1": C1}, weak={"E": Ew})
    m = gen.features(sc, mon)
    res = []
    for o in (inv, lay):
        both = o.calc_segments(phi=phi, **gen.segkw(sc))
        segs = both["crack"]
        c0, c1 = o.assemble_and_solve(phi=phi, **both["nocrack"]), o.assemble_and_solve(phi=phi, **segs)
        xq, zq, xb = gen.raster(o, sc, segs, c1, sc["num"])
        _, z0, _ = gen.raster(o, sc, both["nocrack"], c0, sc["num"])
        res.append({"segs": [np.asarray(both["both"][k], float) for k in ("li", "mi", "ki", "k0")], "x": [xq, np.nan_to_num(xb, nan=-1.0)], "z": [zq, z0],
                    "s": [o.sig(zq), o.tau(zq), o.sig(z0), o.N(zq), o.M(zq), o.V(zq), o.Sxx(zq[:, ::9], phi, dz=15), o.Txz(zq[:, ::9], phi, dz=15),
                          o.Szz(zq[:, ::9], phi, dz=15), o.principal_stress_slab(zq[:, ::9], phi, dz=15, normalize=True), o.principal_stress_weaklayer(zq, normalize=True)],
                    "G": [o.gdif(c1, phi, **segs), o.ginc(c0, c1, phi, **both["both"]) if np.any(np.asarray(both["both"]["ki"]) != np.asarray(both["both"]["k0"])) and
                          np.sum(np.asarray(segs["li"])[~np.asarray(segs["ki"])]) > 0 else np.zeros(3)],
                    "raw": (segs, c1)})
    a, b = res
    for x, y in zip(a["segs"] + a["x"], b["segs"] + b["x"]):
        mon.close("segments", x, y, 1e-12)
    for x, y in zip(a["z"], b["z"]):
        s = m.scales(y)
        if mon.true("states-shape", x.shape == y.shape):
            mon.le("states", np.abs(x - y) / s[:, None], 1e-7)
    for k, (x, y) in enumerate(zip(a["s"], b["s"])):
        mon.close("stress", x, y, 1e-6, 1e-9, k)
    for x, y in zip(a["G"], b["G"]):
        mon.close("G", x, y, 5e-3, 1e-12)
    segs, c = a["raw"]
    S = gen.reference(sc, segs, m)
    for i, l in enumerate(np.asarray(segs["li"], float)):
        if l > 0:
            x = np.linspace(0, l, 5)
            R = S.at(i, x)
            Z = gen.states(inv, sc, segs, c, i, x)
            s = m.scales(np.hstack([R, a["z"][0]]))
            mon.le("reference", np.abs(Z - R) / s[:, None], 1e-5, {"segment": i})
