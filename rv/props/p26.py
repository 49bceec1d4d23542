"""P26: material parametrizations, profile database and wedge geometry against their documented values."""
import numpy as np
from rv import gen, ref

RULE = ("random densities (scalars, 1D and 2D arrays), constants and units for every parametrization; every database profile by random spelling, "
        "alone and through Layered and Inverse; wedges and centers of gravity of random layerings at random inclinations; non-trivial = values compared")
REQUIRED = {"bergfeld": 400, "gerling": 400, "scapozza": 400, "tensile": 400, "database": 100, "database-model": 100, "wedge": 400, "centroid": 400, "pure": 400,
            "wedge-flat": 50, "wedge-mirror": 400, "unknown-profile": 50, "slab": 400}
N = {"quick": 2400, "thorough": 48000}
SIGRIST = {"kPa": 240.0, "MPa": 0.24}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.material(rng, profile=0.25, beam=0.7, extreme=0.1)
        if i % 20 == 0:
            sc["layers"] = gen.layers(rng, 15, 60)
        name = gen.pick(rng, *"abcdefh", "soft", "medium", "hard", "comp")
        sc["name"] = name
        sc["spelling"] = gen.pick(rng, "", "profile ", "the old Profile  ", "Type A ", "soft ") + gen.pick(rng, name, name.upper(), name.capitalize())
        sc["rho"] = [float(v) for v in rng.uniform(30, 916, int(rng.integers(1, 9)))]
        sc["C"] = [float(rng.uniform(0.5, 15)), float(rng.uniform(2, 6)), float(rng.uniform(850, 950))]
        sc["phis"] = [sc["phi"], float(rng.uniform(-80, 80)), gen.pick(rng, 0.0, 0.01, -0.01, 45.0, -30.0), 0.0]
        sc["unknown"] = gen.pick(rng, "g", "i", "profile", "soft1", "medium hard x", "ab", "1", "0", "default", "a b z")
        out.append(sc)
    return out


def both_forms(mon, name, f, law, rho):
    """Scalars and arrays of densities, without touching the input."""
    want = np.array([law(r) for r in rho])
    for r, w in zip(rho, want):
        mon.close(name, f(r), w, 1e-12)
    for shape in ((-1,), (1, -1), (-1, 1)):
        a = np.array(rho).reshape(shape)
        b = a.copy()
        got = np.asarray(f(a), float)
        mon.true(name + "-shape", got.shape == a.shape, {"got": got.shape, "want": a.shape})
        mon.close(name, got.ravel(), want, 1e-12)
        mon.true("pure", np.array_equal(a, b), {"function": name, "before": b, "after": a})
    mon.true(name + "-monotone", np.all(np.diff([float(f(r)) for r in sorted(set(rho))]) > 0), rho)


def run(sc, mon):
    import weac
    from weac import tools
    rho = sc["rho"]
    C0, C1, r0 = sc["C"]
    both_forms(mon, "bergfeld", tools.bergfeld, lambda r: 6500.0 * (r / 917.0) ** 4.4, rho)
    both_forms(mon, "bergfeld", lambda r: tools.bergfeld(r, C0=C0, C1=C1, rho0=r0), lambda r: C0 * 1000.0 * (r / r0) ** C1, rho)
    both_forms(mon, "bergfeld", lambda r: tools.bergfeld(r, r0, C0), lambda r: C0 * 1000.0 * (r / r0) ** 4.4, rho)
    both_forms(mon, "gerling", tools.gerling, lambda r: 6e-10 * r ** 4.6, rho)
    both_forms(mon, "gerling", lambda r: tools.gerling(r, C0=C0, C1=C1), lambda r: C0 * 1e-10 * r ** C1, rho)
    both_forms(mon, "gerling", lambda r: tools.gerling(r, C0, C1), lambda r: C0 * 1e-10 * r ** C1, rho)
    both_forms(mon, "scapozza", tools.scapozza, lambda r: 5070.0 * (r / 917.0) ** 5.13, rho)
    both_forms(mon, "tensile", tools.tensile_strength_slab, lambda r: 240.0 * (r / 917.0) ** 2.44, rho)
    for u, k in SIGRIST.items():
        both_forms(mon, "tensile", lambda r: tools.tensile_strength_slab(r, unit=u), lambda r: k * (r / 917.0) ** 2.44, rho)
    # database
    want = np.array(ref.profile_rows(sc["name"]))
    for key in (sc["name"], sc["name"].upper(), sc["name"].capitalize()):
        L, E = tools.load_dummy_profile(key)
        mon.close("database", np.asarray(L), want[:, :2], 1e-12)
        mon.close("database", np.asarray(E), want[:, 2], 1e-12)
        mon.true("database-shape", np.shape(L) == (len(want), 2) and np.shape(E) == (len(want),), [np.shape(L), np.shape(E)])
        # a caller that edits its copy does not change the database
        np.asarray(L)[:] = -1.0
        np.asarray(E)[:] = -1.0
    o = weac.Layered("pst-", layers=sc["spelling"])
    mon.close("database-model", np.asarray(o.slab)[:, :3], want, 1e-12, detail=sc["spelling"])
    o = weac.Layered("skier")
    o.set_beam_properties(sc["spelling"], C0=3.3, C1=5.5, nu=0.1)
    mon.close("database-model", np.asarray(o.slab)[:, :3], want, 1e-12, detail=sc["spelling"])
    o = weac.Inverse("skier", layers=sc["spelling"])
    mon.close("database-model", np.asarray(o.slab)[:, :3], want, 1e-12, detail=sc["spelling"])
    for f in (lambda: tools.load_dummy_profile(sc["unknown"]), lambda: weac.Layered("pst-", layers=sc["unknown"])):
        try:
            f()
        except ValueError as exc:
            mon.true("unknown-profile", sc["unknown"].split()[-1] in str(exc), str(exc))
        else:
            mon.true("unknown-profile", False, sc["unknown"])
    # slab assembled from the parametrization
    m = gen.features(dict(sc, system="pst-"), mon)
    lam = m.lam
    o = gen.instance(dict(sc, system="pst-"))
    mon.close("slab", np.asarray(o.slab)[:, :3], np.column_stack([lam.rho, lam.t, lam.E]), 1e-12)
    mon.close("slab", np.asarray(o.slab)[:, 3], lam.E / 2 / (1 + lam.nu), 1e-12)
    # center of gravity and wedge
    layers = np.column_stack([lam.rho, lam.t])
    keep = layers.copy()
    H, zs = tools.calc_center_of_gravity(layers)
    mon.close("centroid", [H, zs], [lam.h, lam.zs], 1e-11, scale=lam.h)
    mon.true("pure", np.array_equal(keep, layers), "calc_center_of_gravity")
    slab = np.array(o.slab)
    keep = slab.copy()
    for ph in sc["phis"]:
        got = tools.calc_vertical_bc_center_of_gravity(slab, ph)
        mon.true("pure", np.array_equal(keep, slab), "calc_vertical_bc_center_of_gravity")
        if ph == 0:
            mon.true("wedge-flat", list(got) == [0, 0, 0], got)
            continue
        w, xs, zs = lam.wedge(ph)
        mon.close("wedge", got[0], xs, 1e-9, detail=ph)
        mon.close("wedge", got[1], zs, 1e-9, scale=0.1 * lam.h, detail=ph)
        mon.close("wedge", got[2], w, 1e-9, detail=ph)
        # only the first two columns of the slab matter
        other = slab.copy()
        other[:, 2:] *= 3.7
        mon.close("wedge", tools.calc_vertical_bc_center_of_gravity(other, ph), got, 1e-12, detail=ph)
        mir = tools.calc_vertical_bc_center_of_gravity(slab, -ph)
        mon.close("wedge-mirror", mir[0], -got[0], 1e-12, detail=ph)
        mon.close("wedge-mirror", mir[1], got[1], 1e-12, scale=lam.h, detail=ph)
        mon.close("wedge-mirror", mir[2], -got[2], 1e-12, detail=ph)
