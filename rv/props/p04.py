"""P04: global force balance from reported stresses and section forces."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems of every type and touchdown stage; reported weak-layer stresses are integrated by "
        "composite Gauss quadrature over the supported length and balanced with reported end forces and all loads; "
        "non-trivial = at least one supported segment integrated")
REQUIRED = {"normal": 100, "tangential": 100, "surface-load": 20, "stage:B": 1, "stage:C": 2, "raster-balance": 50}
N = {"quick": 810, "thorough": 16200}
TOL = 1e-7


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.2)
    for sc in out:
        sc.pop("xs")
        if sc["system"] == "skier":
            sc["seg"]["L"] = min(sc["seg"]["L"], 15000.0)
    return out


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    li, ki, mi = np.asarray(segs["li"], float), np.asarray(segs["ki"]), np.asarray(segs["mi"], float)
    qn, qt, pn, pt = m.loads(sc["phi"])
    Rn = Rt = Gn = Gt = 0.0
    piece = 2.5 / m.lmax()
    for i, l in enumerate(li):
        if l <= 0 or not ki[i]:
            continue
        x, w = obs.gauss(0, l, piece)
        Z = gen.states(o, sc, segs, C, i, x)
        sig, tau = o.sig(Z), o.tau(Z)
        Rn += w @ sig
        Rt += w @ tau
        Gn += w @ np.abs(sig)
        Gt += w @ np.abs(tau)
    nz = [i for i, l in enumerate(li) if l > 0]
    z0 = gen.states(o, sc, segs, C, nz[0], [0.0])
    z1 = gen.states(o, sc, segs, C, nz[-1], [li[nz[-1]]])
    L = li.sum()
    F = [m.skier(mm, sc["phi"]) for mm in mi]
    Fn, Ft = sum(f[0] for f in F), sum(f[1] for f in F)
    N0, N1, V0, V1 = o.N(z0)[0], o.N(z1)[0], o.V(z0)[0], o.V(z1)[0]
    # V' = kn w - (qn+pn), N' = tau - (qt+pt), jumps -F at skiers
    rn = V1 - V0 + Rn + (qn + pn) * L + Fn
    rt = N1 - N0 - Rt + (qt + pt) * L + Ft
    sn = abs(V0) + abs(V1) + Gn + (qn + pn) * L + abs(Fn)
    st = abs(N0) + abs(N1) + Gt + (abs(qt) + abs(pt)) * L + abs(Ft)
    mon.le("normal", abs(rn) / sn, TOL, {"residual": rn, "total": sn})
    mon.le("tangential", abs(rt) / (st + 1e-6 * sn), TOL, {"residual": rt, "total": st})
    # coarse version from the exported raster
    xq, zq, xb = gen.raster(o, sc, segs, C, num=3000)
    xs, sg = o.get_weaklayer_normalstress(xb, zq, unit="kPa")
    xt, ta = o.get_weaklayer_shearstress(xb, zq, unit="kPa")
    edges = np.concatenate([[0], np.cumsum(li)])
    hq = np.max(np.diff(xq)) * m.lmax()
    if hq > 0.5:
        return
    In = It = 0.0
    # tau jumps at skiers (with w'); one-sided samples there cost half a spacing
    jump = sum(abs(f[0]) for f in F) * m.kt * m.t / 2 / m.lam.S * np.max(np.diff(xq)) / (st + 1e-3 * sn)
    for i, l in enumerate(li):
        if ki[i] and l > 0:
            k = np.where((xq >= edges[i] - 1e-6) & (xq <= edges[i + 1] + 1e-6))[0]
            In += np.trapezoid(sg[k] * 1e-3, xs[k] * 10)
            It += np.trapezoid(ta[k] * 1e-3, xt[k] * 10)
    mon.le("raster-balance", abs(V1 - V0 + In + (qn + pn) * L + Fn) / sn, 0.1 * hq + 1e-6)
    mon.le("raster-balance", abs(N1 - N0 - It + (qt + pt) * L + Ft) / (st + 1e-3 * sn), 0.15 * hq + 1e-6 + jump)
