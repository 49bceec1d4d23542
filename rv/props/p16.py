"""P16: accessor definitions, units and output functions."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems and synthetic states; every accessor in every unit compared with its definition from the independently "
        "computed laminate and spring stiffnesses; non-trivial = states of several segments checked")
REQUIRED = {"u": 500, "w": 500, "psi": 300, "N": 200, "sig": 300, "tau": 300, "strain": 200, "G": 300, "get": 500, "get-nan": 150, "unmodified": 200,
            "B>0": 10, "B<0": 10}
N = {"quick": 1800, "thorough": 36000}
LEN = {"m": 1e-3, "cm": 1e-1, "mm": 1.0, "um": 1e3, None: 1.0}
STR = {"kPa": 1e3, "MPa": 1.0, None: 1.0}
ANG = {"deg": 180 / np.pi, "degree": 180 / np.pi, "degrees": 180 / np.pi, "rad": 1.0, "radian": 1.0, "radians": 1.0}
ERR = {"J/m^2": 1e3, "kJ/m^2": 1.0, "N/mm": 1.0, None: 1.0}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.05)
    for sc in out:
        sc["seed"] = int(rng.integers(1 << 30))
    return out


def kw(u):
    return {} if u is None else {"unit": u}


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    lam, h, t = m.lam, m.lam.h, m.t
    rng = np.random.default_rng(sc["seed"])
    xq, zq, xb = gen.raster(o, sc, segs, C, num=int(rng.integers(5, 120)))
    R = rng.normal(size=(6, 7)) * np.abs(zq).max(axis=1, keepdims=True)
    T = 1e-12
    for Z, x in ((zq, xb), (R, np.where(rng.random(7) < 0.4, np.nan, np.arange(7.0) * 10)), (zq[:, [3]], xb[[3]])):
        Zc, xc = Z.copy(), x.copy()

        def same(name, got, want, scale=0.0, detail=None):
            mon.close(name, got, want, T, scale, detail)
        aU = np.abs(Z[0]).max() + h * np.abs(Z[4]).max()
        for u, f in LEN.items():
            for z0 in (0.0, h / 2, -h / 2, float(rng.uniform(-h, h)), 0):
                same("u", o.u(Z, z0=z0, **kw(u)), f * (Z[0] + z0 * Z[4]), f * aU, {"z0": z0, "unit": u})
            same("w", o.w(Z, **kw(u)), f * Z[2], 0, u)
        same("psi", o.psi(Z), Z[4])
        for u, f in ANG.items():
            same("psi", o.psi(Z, unit=u), f * Z[4], 0, u)
        same("w", o.dw_dx(Z), Z[3])
        same("psi", o.dpsi_dx(Z), Z[5])
        z0 = float(rng.uniform(-h / 2, h / 2))
        same("u", o.du_dx(Z, z0), Z[1] + z0 * Z[5], np.abs(Z[1]).max() + h * np.abs(Z[5]).max())
        a1, a5 = np.abs(Z[1]).max(), np.abs(Z[5]).max()
        F = np.abs([lam.A * a1 + h * lam.A * a5, h * lam.A * a1 + lam.D * a5, lam.S * (np.abs(Z[3]).max() + np.abs(Z[4]).max())])
        for name, got, want, s in zip("NMV", (o.N(Z), o.M(Z), o.V(Z)), obs.section(m, Z), F):
            mon.close(name, got, want, 1e-10, s)
        sg, ta = obs.weak(m, Z)
        sa = m.kt * (aU + t * np.abs(Z[3]).max())
        for u, f in STR.items():
            same("sig", o.sig(Z, **kw(u)), f * sg, 0, u)
            same("tau", o.tau(Z, **kw(u)), f * ta, f * sa, u)
        same("strain", o.eps(Z), -Z[2] / t)
        same("strain", o.gamma(Z), ta / m.kt / t, sa / m.kt / t)
        for u, f in ERR.items():
            same("G", o.Gi(Z, **kw(u)), f * sg**2 / (2 * m.kn), 0, u)
            same("G", o.Gii(Z, **kw(u)), f * ta**2 / (2 * m.kt), f * sa**2 / m.kt, u)
        # output functions
        off = np.isnan(x)
        for u, f in STR.items():
            for fun, want, s in ((o.get_weaklayer_shearstress, ta, sa), (o.get_weaklayer_normalstress, sg, 0)):
                xo, so = fun(x, Z, **kw(u))
                mon.true("get-nan", np.shape(xo) == x.shape and np.array_equal(np.isnan(xo), off) and np.array_equal(np.isnan(so), off), {"unit": u, "fun": fun.__name__})
                same("get", xo, x / 10, 1e-3, fun.__name__)
                same("get", np.asarray(so)[~off], f * want[~off], f * s, {"unit": u, "fun": fun.__name__})
                xo, so = fun(x, Z, removeNaNs=True, **kw(u))
                mon.true("get-nan", np.shape(xo) == np.shape(so) == ((~off).sum(),) and not np.isnan(so).any(), {"unit": u, "fun": fun.__name__})
                same("get", xo, x[~off] / 10, 1e-3, fun.__name__)
                same("get", so, f * want[~off], f * s, {"unit": u, "fun": fun.__name__})
        xa = np.where(off, -1.0, x)
        for xx in (x, xa):
            for u, f in LEN.items():
                for loc, zz in (("top", -h / 2), ("mid", 0.0), ("bot", h / 2), (None, 0.0)):
                    xo, uo = o.get_slab_displacement(xx, Z, **({} if loc is None else {"loc": loc}), **kw(u))
                    same("get", xo, xx / 10, 1e-3, "displacement")
                    same("get", uo, f * (Z[0] + zz * Z[4]), f * aU, {"loc": loc, "unit": u})
                xo, wo = o.get_slab_deflection(xx, Z, **kw(u))
                same("get", xo, xx / 10, 1e-3, "deflection")
                same("get", wo, f * Z[2], 0, {"deflection": u})
            for u, f in [*ANG.items(), (None, 180 / np.pi)]:
                xo, po = o.get_slab_rotation(xx, Z, **kw(u))
                same("get", xo, xx / 10, 1e-3, "rotation")
                same("get", po, f * Z[4], 0, {"rotation": u})
        mon.true("unmodified", np.array_equal(Zc, Z) and np.array_equal(xc, x, equal_nan=True))
