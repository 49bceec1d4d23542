"""P01: propagate the returned state with the exact flow of the reference ODE and compare."""
import numpy as np
from rv import gen, ref

RULE = ("random scenarios (system, layering, weak layer, loads, inclination, segment layout, touchdown) solved by the "
        "real code; non-trivial = at least one segment observed at several points; every pair of consecutive states "
        "is compared with the exact flow of the independently derived equilibrium equations")
REQUIRED = {"flow-bedded": 200, "flow-free": 100, "flow-raster": 100, "B>0": 5, "B<0": 5, "surface-load": 10,
            "eig:all-real": 1, "eig:complex": 10, "phi-": 5, "phi+": 5, "kernel": 20, "stage:B": 1, "stage:C": 1}
ASSUMPTIONS = ["linear theory: first-order shear laminate on a two-parameter spring foundation as documented"]
N = {"quick": 1560, "thorough": 31200}
TOL = 1e-7


def gen_touch(rng):
    """A PST with touchdown whose crack is long enough to reach the collapsed layer."""
    sc = gen.scenario(rng, ("pst",), touchdown=True)
    m = gen.model(sc)
    qn = sum(m.loads(sc["phi"])[::2])
    cf = float(rng.uniform(0.2, 0.9))
    tc = cf * m.t - qn / m.kn
    if tc <= 0.05 * m.t:
        return None
    D = m.lam.D - m.lam.B**2 / m.lam.A
    a1 = (8 * D * tc / qn) ** 0.25
    a = a1 * float(rng.uniform(0.6, 3.0))
    sc["seg"] = {"L": max(4 * a1, 1.3 * a, a + 2000.0) * float(rng.uniform(1.0, 1.6)), "a": a, "cf": cf,
                 "ratio": float(gen.pick(rng, 1000.0, 100.0, 10000.0))}
    return sc


def gen_cases(rng, n, touch=0.15, extreme=0.1):
    out = []
    while len(out) < n:
        if rng.random() < touch:
            sc = gen_touch(rng)
            if sc is None:
                continue
        else:
            sc = gen.scenario(rng, extreme=extreme)
            if sc["system"] in gen.PST + gen.VPST and rng.random() < 0.4:
                sc["direct"] = gen.free_li(rng)
        sc["xs"] = [float(v) for v in rng.uniform(0, 1, 12)]
        sc["num"] = int(rng.integers(20, 400))
        out.append(sc)
    return out


def cases(rng, tier):
    out = gen_cases(rng, N[tier])
    if tier == "thorough":
        # very long, very stiff and very soft systems
        for c in out[::5]:
            c["weak"] = {"t": float(rng.uniform(1, 100)), "E": gen.logu(rng, 0.01, 60), "nu": float(rng.uniform(0, 0.48))}
            if c.get("touchdown"):
                c["touchdown"] = False
    return out


def solve(sc, mon):
    o = gen.instance(sc)
    allsegs = o.calc_segments(phi=sc["phi"], **gen.segkw(sc))
    segs = sc["direct"] if "direct" in sc else allsegs["crack"]
    C = o.assemble_and_solve(phi=sc["phi"], **segs)
    if sc.get("touchdown"):
        mon.tag("stage:%s" % o.mode)
    return o, segs, C


def flow_residual(m, Z, x, bed, phi, s):
    Phi, g = m.flow(np.diff(x), bed, phi)
    pred = np.einsum("nij,jn->in", Phi, Z[:, :-1]) + g.T
    # error relative to the magnitudes that enter the sum
    return np.abs(pred - Z[:, 1:]) / s[:, None]


def run(sc, mon):
    o, segs, C = solve(sc, mon)
    m = gen.features(sc, mon, segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"])
    C = np.asarray(C)
    if not mon.true("constants-shape", C.shape == (6, li.size) and np.isfinite(C).all(), {"shape": C.shape}):
        return
    step = 2.0 / m.lmax()
    zs = []
    for i, l in enumerate(li):
        if l <= 0:
            continue
        # random start points, each followed by a short walk
        starts = np.array(sc["xs"][:6]) * l
        zs.append((i, l, starts))
    Zall = np.hstack([gen.states(o, sc, segs, C, i, np.linspace(0, l, 9)) for i, l, _ in zs])
    if not mon.true("finite", np.isfinite(Zall).all()):
        return
    s = m.scales(Zall)
    for i, l, starts in zs:
        d = min(step, l / 2)
        for x0 in list(starts) + [0.0, l]:
            x = np.array([x0, x0 + d * 0.35, x0 + d])
            if x[-1] > l:
                x = np.array([x0 - d, x0 - d * 0.6, x0])
            x = np.clip(x, 0, l)
            Z = gen.states(o, sc, segs, C, i, x)
            r = flow_residual(m, Z, x, bool(ki[i]), sc["phi"], s)
            mon.le("flow-bedded" if ki[i] else "flow-free", r, TOL, {"segment": i, "x": x, "comp": int(r.max(axis=1).argmax())})
    # the rasterized solution obeys the same flow within each segment
    xq, zq, xb = gen.raster(o, sc, segs, C, num=sc["num"])
    edges = np.concatenate([[0], np.cumsum(li)])
    for i, l, _ in zs:
        k = np.where((xq >= edges[i] - 1e-9) & (xq < edges[i + 1] - 1e-9 * max(l, 1)))[0]
        k = k[np.concatenate([[True], np.diff(xq[k]) > 0])] if k.size else k
        if k.size < 2:
            continue
        keep = [k[0]]
        for j in k[1:]:
            if xq[j] - xq[keep[-1]] >= 0.5 * step or j == k[-1]:
                keep.append(j)
        x = xq[keep]
        ok = np.diff(x) <= 3 * step
        if not ok.any():
            continue
        r = flow_residual(m, zq[:, keep], x, bool(ki[i]), sc["phi"], s)[:, ok]
        mon.le("flow-raster", r, TOL, {"segment": i})
    # complementary solutions: any constants solve the homogeneous equations
    rng = np.random.default_rng([int(1e9 * v) for v in sc["xs"]])
    for bed in (True, False):
        l = float(rng.uniform(100, 3000))
        x = np.sort(rng.uniform(0, 1, 2)) * min(l, step)
        Ci = rng.normal(size=(6, 2))
        if not bed:
            Ci *= np.array([1, 1e-2, 1e-5, 1e-8, 1, 1e-2])[:, None]
        Za = o.z(x, Ci[:, [0]], l, sc["phi"], bed=bed)
        Zb = o.z(x, Ci[:, [1]], l, sc["phi"], bed=bed)
        Zs = o.z(x, Ci[:, [0]] + Ci[:, [1]], l, sc["phi"], bed=bed)
        Z0 = o.z(x, 0 * Ci[:, [0]], l, sc["phi"], bed=bed)
        ss = m.scales(np.hstack([Za, Zb, Z0]))
        for Z in (Za, Zb, Z0):
            mon.le("kernel", flow_residual(m, Z, x, bed, sc["phi"], ss), TOL, {"bed": bed})
        mon.le("affine", np.abs(Za + Zb - Zs - Z0) / ss[:, None], 1e-9)

