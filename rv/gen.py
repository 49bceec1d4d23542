"""Workload generators: scenarios are JSON dicts that build() turns into solved systems."""
import numpy as np
from . import ref

PST = ["pst-", "-pst"]
VPST = ["vpst-", "-vpst"]


def pick(rng, *options):
    return options[int(rng.integers(len(options)))]


def logu(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def layers(rng, nmin=1, nmax=12):
    kind = rng.random()
    if kind < 0.12:
        n = 1
    elif kind < 0.6:
        n = int(rng.integers(2, 6))
    else:
        n = int(rng.integers(4, nmax + 1))
    n = max(nmin, min(nmax, n))
    if nmax == 12 and rng.random() < 0.05:
        n = int(rng.integers(13, 41))      # finely resolved profiles
    total = logu(rng, 60, 1500)
    w = rng.dirichlet(np.full(n, 1.2)) if n > 1 else np.array([1.0])
    h = np.maximum(w * total, 1.0)
    rho = rng.uniform(60, 480, n)
    mode = rng.random()
    if mode < 0.2:
        rho = np.sort(rho)
    elif mode < 0.4:
        rho = np.sort(rho)[::-1]
    elif mode < 0.5:
        rho[:] = rho[0]
    if rng.random() < 0.35:
        rho, h = np.round(rho / 10) * 10, np.maximum(np.round(h / 5) * 5, 5.0)
    rows = [[float(a), float(b)] for a, b in zip(rho, h)]
    return rows


def weak(rng):
    if rng.random() < 0.2:
        return {}
    w = {}
    if rng.random() < 0.8:
        w["t"] = pick(rng, logu(rng, 3, 80), float(rng.integers(5, 60)))
    if rng.random() < 0.8:
        w["E"] = pick(rng, logu(rng, 0.03, 15), 0.15, 0.2, 1.0)
    if rng.random() < 0.6:
        w["nu"] = pick(rng, 0.0, 0.1, 0.25, 0.3, 0.45, float(rng.uniform(0, 0.45)))
    return w


def phi(rng, steep=70):
    r = rng.random()
    if r < 0.12:
        return 0.0
    if r < 0.2:
        return float(pick(rng, -1, 1) * rng.uniform(0.05, 3))
    if r < 0.35:
        return float(pick(rng, -1, 1) * pick(rng, 25, 30, 35, 38, 45, 60))
    return float(pick(rng, -1, 1) * rng.uniform(3, steep))


def load(rng):
    return 0.0 if rng.random() < 0.45 else logu(rng, 1e-5, 5e-3)


def extreme_material(rng):
    """Very thick, thin, light or dense slabs on very soft or stiff, thin or thick weak layers."""
    n = int(rng.integers(1, 8))
    total = logu(rng, 15, 4000)
    w = rng.dirichlet(np.full(n, 0.8)) * 0.9 + 0.1 / n
    rho = rng.uniform(*pick(rng, (30, 120), (400, 700), (30, 700)), n)
    return {"layers": [[float(r), float(max(0.5, total * x))] for r, x in zip(rho, w)],
            "weak": {"t": logu(rng, 0.5, 300), "E": logu(rng, 2e-3, 300), "nu": float(rng.uniform(0, 0.48))},
            "p": 0.0 if rng.random() < 0.5 else logu(rng, 1e-6, 5e-2), "phi": phi(rng, 85)}


def material(rng, profile=0.12, beam=0.3, extreme=0.0):
    sc = {"layers": layers(rng), "weak": weak(rng), "p": load(rng), "phi": phi(rng)}
    if extreme and rng.random() < extreme:
        return extreme_material(rng)
    if rng.random() < profile:
        sc["layers"] = "profile " + pick(rng, *"abcdefh", "soft", "medium", "hard", "comp")
    if rng.random() < beam:
        sc["beam"] = {}
        if rng.random() < 0.7:
            sc["beam"]["nu"] = pick(rng, 0.0, 0.1, 0.2, 0.3, 0.4)
        if not isinstance(sc["layers"], str):
            if rng.random() < 0.7:
                sc["beam"]["C0"] = float(rng.uniform(3, 10))
            if rng.random() < 0.7:
                sc["beam"]["C1"] = float(rng.uniform(3.8, 5))
    return sc


def rows_of(sc):
    """Rows (density, thickness, E) of the slab a scenario describes."""
    if isinstance(sc["layers"], str):
        return ref.profile_rows(sc["layers"])
    b = sc.get("beam", {})
    C0, C1 = b.get("C0", 6.5), b.get("C1", 4.4)
    return [[r, h, C0 * 1e3 * (r / 917.0) ** C1] for r, h in sc["layers"]]


def model(sc):
    return ref.Model(rows_of(sc), sc.get("beam", {}).get("nu", 0.25), sc.get("weak"), sc.get("p", 0.0))


def segs_pst(rng):
    L = pick(rng, float(rng.uniform(600, 4000)), float(rng.integers(10, 80) * 100))
    a = L * float(pick(rng, rng.uniform(0.02, 0.3), rng.uniform(0.2, 0.7), 0.5))
    if rng.random() < 0.3:
        a = float(max(1.0, round(a / 10) * 10))
    return {"L": L, "a": a}


def segs_skier(rng):
    L = float(rng.uniform(12000, 30000))
    a = float(pick(rng, 0.0, rng.uniform(10, 400), rng.uniform(400, 2500)))
    return {"L": L, "a": a, "m": float(pick(rng, 0.0, 80.0, rng.uniform(10, 300)))}


def segs_skiers(rng, nmax=8, far=(6000, 12000), kscale=True):
    n = int(rng.integers(2, nmax + 1))
    if nmax == 8 and rng.random() < 0.06:
        n = int(rng.integers(9, 31))       # groups of skiers, many cracks
    li = [float(pick(rng, rng.uniform(30, 500), rng.uniform(300, 3000), float(rng.integers(1, 30) * 100))) for _ in range(n)]
    li[0], li[-1] = float(rng.uniform(*far)), float(rng.uniform(*far))
    ki = [bool(rng.random() < 0.55) for _ in range(n)]
    ki[0] = ki[-1] = True
    # keep unsupported stretches moderate
    for i in range(n):
        if not ki[i]:
            li[i] = min(li[i], float(rng.uniform(30, 1500)))
    k0 = [True] * n
    if rng.random() < 0.35:
        k0 = [True if k else bool(rng.random() < 0.6) for k in ki]
    mi = [float(pick(rng, 0.0, rng.uniform(20, 150), 80.0)) for _ in range(n - 1)]
    if rng.random() < 0.1:
        mi = [0.0] * (n - 1)
    return {"li": li, "mi": mi, "ki": ki, "k0": k0}


def scenario(rng, systems=("pst", "vpst", "skier", "skiers"), touchdown=False, **kw):
    sc = material(rng, **kw)
    fam = pick(rng, *systems)
    if fam == "pst":
        sc["system"] = pick(rng, *PST)
        sc["seg"] = segs_pst(rng)
    elif fam == "vpst":
        sc["system"] = pick(rng, *VPST)
        sc["seg"] = segs_pst(rng)
    elif fam == "skier":
        sc["system"] = "skier"
        sc["seg"] = segs_skier(rng)
    else:
        sc["system"] = "skiers"
        sc["seg"] = segs_skiers(rng)
    sc["touchdown"] = touchdown
    return sc


def free_li(rng, nmax=6, pst=True):
    """Arbitrary segment lists for direct assemble_and_solve of pst/vpst systems."""
    n = int(rng.integers(2, nmax + 1))
    if nmax == 6 and rng.random() < 0.06:
        n = int(rng.integers(7, 25))
    li = [float(pick(rng, rng.uniform(30, 500), rng.uniform(300, 2000))) for _ in range(n)]
    ki = [bool(rng.random() < 0.5) for _ in range(n)]
    ki[int(rng.integers(n))] = True
    k = ki.index(True)
    li[k] = max(li[k], float(rng.uniform(500, 2000)))
    for i in range(n):
        if not ki[i]:
            li[i] = min(li[i], 900.0)
    mi = [float(pick(rng, 0.0, rng.uniform(20, 150))) for _ in range(n - 1)]
    return {"li": li, "mi": mi, "ki": ki}


# --- drive the code under test ------------------------------------------------

def instance(sc, system=None, touchdown=None, cls=None):
    """Build a model through the documented interface."""
    import weac
    cls = cls or weac.Layered
    o = cls(system=system or sc.get("system", "pst-"), layers=sc["layers"],
            touchdown=sc.get("touchdown", False) if touchdown is None else touchdown)
    if sc.get("beam"):
        o.set_beam_properties(sc["layers"], **sc["beam"], update=True)
    if sc.get("weak"):
        o.set_foundation_properties(**sc["weak"], update=True)
    if sc.get("p"):
        o.set_surface_load(sc["p"])
    return o


def segkw(sc):
    return dict(sc["seg"])


def solved(sc, config="crack", o=None):
    """Instance, segments of the configuration, and constants."""
    o = o or instance(sc)
    segs = o.calc_segments(phi=sc["phi"], **segkw(sc))[config]
    C = o.assemble_and_solve(phi=sc["phi"], **segs)
    return o, segs, C


def raster(o, sc, segs, C, num=250):
    return o.rasterize_solution(C=C, phi=sc["phi"], num=num, **segs)


def states(o, sc, segs, C, i, x):
    """Solution of segment i at local positions x through the public z()."""
    import numpy as np
    li, ki = np.asarray(segs["li"]), np.asarray(segs["ki"])
    return o.z(np.asarray(x, float), C[:, [i]], li[i], sc["phi"], bed=bool(ki[i]))


def reference(sc, segs, m=None, touch=None):
    """Independent solution of the boundary value problem of these segments."""
    m = m or model(sc)
    system = sc["system"]
    if system in VPST:
        left = right = m.bc_rows("wedge", sc["phi"])
    elif system in ("skier", "skiers"):
        left = right = m.bc_rows("far", sc["phi"])
    else:
        left = right = m.bc_rows("free", sc["phi"])
        if touch:
            kind, side, kw = touch
            row = m.bc_rows(kind, sc["phi"], side=side, **kw)
            if side > 0:
                right = row
            else:
                left = row
    return m.solve(segs["li"], segs["ki"], segs["mi"], sc["phi"], left, right)


def features(sc, mon, segs=None):
    m = model(sc)
    lam = m.lam
    mon.tag("sys:" + sc.get("system", "-"))
    mon.tag("phi0" if sc["phi"] == 0 else "phi+" if sc["phi"] > 0 else "phi-")
    mon.tag("surface-load" if sc.get("p") else None)
    mon.tag("database-profile" if isinstance(sc["layers"], str) else None)
    n = lam.t.size
    mon.tag("layers:1" if n == 1 else "layers:2-4" if n < 5 else "layers:5+")
    mon.tag("B>0" if lam.B > 1e-6 * lam.A * lam.h else "B<0" if lam.B < -1e-6 * lam.A * lam.h else "B=0")
    ew = m.rate()
    mon.tag("eig:all-real" if np.all(np.abs(ew.imag) < 1e-9 * np.abs(ew)) else "eig:complex")
    if segs is not None:
        ki = np.asarray(segs["ki"])
        mon.tag("tips:%d" % min(4, int(np.sum(ki[1:] != ki[:-1]))))
        mon.tag("skiers:%d" % min(3, int(np.sum(np.asarray(segs["mi"]) != 0))))
    return m
