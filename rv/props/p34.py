"""P34: different ways to describe the same experiment give the same answer."""
import numpy as np
from rv import gen, obs

RULE = ("random experiments that can be posed in several ways: a skier as 'skier' or 'skiers', normal and vertical faces on flat ground, cuts from the left or right given the "
        "same segments, touchdown on or off before first contact, a crack spanned by one or several calls, far-away ends of any kind, loads given as skier masses or "
        "spread; solved in both ways and compared; non-trivial = at least one pair compared")
REQUIRED = {"skier-skiers": 200, "flat-faces": 200, "cut-side": 200, "touchdown-off": 40, "far-ends": 100, "uncut": 200, "turned": 200, "surface-load": 20, "phi-": 20, "phi+": 20,
            "G": 300, "B>0": 20, "B<0": 20}
N = {"quick": 700, "thorough": 14000}
TOL = 1e-6


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.material(rng, extreme=0.0)
        sc["pst"] = gen.segs_pst(rng)
        sc["skier"] = gen.segs_skier(rng)
        sc["skiers"] = gen.segs_skiers(rng, 5)
        sc["free"] = gen.free_li(rng, 5)
        sc["seed"] = int(rng.integers(1 << 30))
        out.append(sc)
    return out


def solve(sc, system, phi, lists=None, touchdown=False, **seg):
    o = gen.instance({**sc, "system": system, "touchdown": touchdown})
    both = None
    if lists is None:
        both = o.calc_segments(phi=phi, **seg)["both"]
        lists = {k: both[k] for k in ("li", "mi", "ki", "k0")}
    C = o.assemble_and_solve(phi=phi, li=lists["li"], mi=lists["mi"], ki=lists["ki"])
    return o, lists, C


def profile(sc, sol, xs):
    """States at global positions (right-continuous at segment borders)."""
    o, s, C = sol
    li = np.asarray(s["li"], float)
    e = np.concatenate([[0.0], np.cumsum(li)])
    out = []
    for x in xs:
        i = int(np.clip(np.searchsorted(e, x, side="right") - 1, 0, li.size - 1))
        while li[i] == 0:
            i -= 1
        out.append(np.asarray(o.z(np.array([min(x - e[i], li[i])]), C[:, [i]], li[i], sc["phi"], bed=bool(s["ki"][i])), float))
    return np.hstack(out)


def run(sc, mon):
    m = gen.features(sc, mon)
    rng = np.random.default_rng(sc["seed"])
    phi = sc["phi"]

    def same(name, a, b, xs, tol=TOL, detail=None, sa=sc, G=True):
        za, zb = profile(sa, a, xs), profile(sa, b, xs)
        S = m.scales(np.hstack([za, zb]))
        mon.le(name, np.abs(za - zb) / S[:, None], tol, detail)
        if G:
            oa, s, C = a
            ob, t, D = b
            A, B = (np.asarray(o.gdif(c, sa["phi"], li=l["li"], ki=l["ki"], unit="J/m^2"), float) for o, l, c in ((oa, s, C), (ob, t, D)))
            mon.close("G", A, B, max(1e-6, 10 * tol), 1e-9, {"pair": name, "info": detail})

    def points(li, n=9):
        li = np.asarray(li, float)
        e = np.concatenate([[0.0], np.cumsum(li)])
        return np.concatenate([rng.uniform(0, e[-1], n), e[:-1][li > 0] + 1e-3 * li[li > 0], [0.0]])

    # a skier on an infinite slab
    a = solve(sc, "skier", phi, **sc["skier"])
    b = solve(sc, "skiers", phi, **{k: list(np.asarray(a[1][k]).tolist()) for k in ("li", "mi", "ki", "k0")})
    same("skier-skiers", a, b, points(a[1]["li"]), detail=sc["skier"])
    if sc["skier"]["a"] > 0:
        L, cr = sc["skier"]["L"], sc["skier"]["a"]
        c = solve(sc, "skiers", phi, lists={"li": [(L - cr) / 2, cr / 2, cr / 2, (L - cr) / 2], "mi": [0, sc["skier"]["m"], 0], "ki": [True, False, False, True]})
    else:
        c = solve(sc, "skiers", phi, lists={"li": [sc["skier"]["L"] / 2] * 2, "mi": [sc["skier"]["m"]], "ki": [True, True]})
    same("skier-skiers", a, c, points(a[1]["li"]), detail={**sc["skier"], "lists": "by hand"}, G=sc["skier"]["a"] > 0)
    # flat ground: vertical faces are slope-normal faces
    flat = {**sc, "phi": 0.0}
    side = gen.pick(rng, 0, 1)
    a, b = (solve(flat, (gen.PST, gen.VPST)[k][side], 0.0, **sc["pst"]) for k in (0, 1))
    same("flat-faces", a, b, points(a[1]["li"]), sa=flat, detail=sc["pst"])
    # given segments, it does not matter on which side the cut is announced
    fam = gen.pick(rng, gen.PST, gen.VPST)
    a, b = (solve(sc, s, phi, lists=sc["free"]) for s in fam)
    same("cut-side", a, b, points(a[1]["li"]), detail={"systems": fam, **sc["free"]})
    # without a cut both sides are the same experiment
    a, b = (solve(sc, s, phi, L=sc["pst"]["L"], a=0.0) for s in fam)
    same("uncut", a, b, points([sc["pst"]["L"]]), G=False, detail=sc["pst"])
    c = solve(sc, fam[0], phi, lists={"li": [sc["pst"]["L"] * 0.3, sc["pst"]["L"] * 0.7], "mi": [0], "ki": [True, True]})
    same("uncut", a, c, points([sc["pst"]["L"]]), G=False, detail="by hand")
    # turning the slope around: cut from the other side at the opposite inclination
    a = solve(sc, fam[0], phi, **sc["pst"])
    back = {**sc, "phi": -phi}
    b = solve(back, fam[1], -phi, **sc["pst"])
    xs = points(a[1]["li"])
    L = float(np.sum(np.asarray(a[1]["li"], float)))
    za, zb = profile(sc, a, xs), profile(back, b, L - xs)
    # right-continuity picks the other side at borders: leave those out
    e = np.cumsum(np.asarray(a[1]["li"], float))
    ok = np.min(np.abs(xs[:, None] - e[None, :]), axis=1) > 1e-6 * L
    mir = np.array([-1, 1, 1, -1, -1, 1.0])
    S = m.scales(np.hstack([za, zb]))
    mon.le("turned", (np.abs(za - mir[:, None] * zb) / S[:, None])[:, ok], TOL, sc["pst"])
    # touchdown makes no difference before first contact
    qn = sum(m.loads(phi)[::2])
    tc = 0.5 * m.t - qn / m.kn
    if tc > 0.05 * m.t:
        D = m.lam.D - m.lam.B**2 / m.lam.A
        a1 = (8 * D * tc / qn) ** 0.25  # rigidly clamped bound
        for f in (float(rng.uniform(0.02, 0.3)), float(rng.uniform(0.3, 0.9))):
            cut = f * a1
            L = max(6 * a1, cut + 3000.0)
            s = gen.PST[side]
            a = solve(sc, s, phi, touchdown=True, L=L, a=cut)
            if a[0].mode != "A":
                mon.counts["touchdown-early"] += 1
                continue
            b = solve(sc, s, phi, L=L, a=cut)
            same("touchdown-off", a, b, points(a[1]["li"]), detail={"L": L, "a": cut})
    # far away, the kind of end does not matter
    lists = sc["skiers"]
    sols = [solve(sc, s, phi, lists=lists) for s in ("skiers", gen.pick(rng, *gen.PST), gen.pick(rng, *gen.VPST))]
    li = np.asarray(lists["li"], float)
    slow = m.lmin()
    total = float(li.sum())
    for b in sols[1:]:
        near = [x for x in points(li, 14) if slow * min(x, total - x) > 25]
        # the disturbance starts with the size of the end state, which scales with the loads
        if len(near) >= 2 and slow * min(li[0], li[-1]) > 25:
            same("far-ends", sols[0], b, np.array(near), tol=1e-5, detail={"ends": b[0].system})
