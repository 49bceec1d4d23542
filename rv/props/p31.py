"""P31: field quantities are evaluated position by position."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems; every field quantity evaluated for all positions at once and again for random selections of them (single positions, "
        "permutations, repetitions, strided views, other memory layouts, read-only arrays); values must not change; non-trivial = several selections compared")
REQUIRED = {"field": 4000, "slab-field": 2000, "position": 500, "output": 500, "single": 300, "permuted": 200, "repeated": 200, "strided": 200,
            "fortran": 200, "read-only": 200, "unmodified": 300, "surface-load": 20, "phi-": 20, "phi+": 20}
N = {"quick": 700, "thorough": 14000}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.1, extreme=0.05)
    for sc in out:
        sc["dz"] = float(gen.pick(rng, 5.0, 10.0, rng.uniform(3, 40)))
        sc["seed"] = int(rng.integers(1 << 30))
    return out


def selections(rng, n):
    """(name, index list, how to build the batch)."""
    one = int(rng.integers(n))
    k = int(rng.integers(2, n + 1))
    yield "single", np.array([one]), lambda Z, i: Z[:, i]
    yield "single", np.array([0]), lambda Z, i: Z[:, :1]
    yield "permuted", rng.permutation(n)[:k], lambda Z, i: Z[:, i]
    yield "repeated", rng.integers(0, n, n + 5), lambda Z, i: np.ascontiguousarray(Z[:, i])
    yield "strided", np.arange(n)[::-2], lambda Z, i: Z[:, ::-2]
    yield "fortran", rng.permutation(n), lambda Z, i: np.asfortranarray(Z[:, i])

    def readonly(Z, i):
        R = Z[:, i].copy()
        R.flags.writeable = False
        return R
    yield "read-only", np.sort(rng.permutation(n)[:k]), readonly


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    phi, dz, lam = sc["phi"], sc["dz"], m.lam
    rng = np.random.default_rng(sc["seed"])
    smp = obs.sample(o, sc, segs, C, 4)
    Z = np.asarray(obs.stack(smp), float)
    n = Z.shape[1]
    H, t = lam.h, m.t
    z0 = float(rng.uniform(-H / 2, H / 2))
    # magnitudes of the terms that enter each quantity (sums may cancel)
    K, q = m.system(True, phi)
    b0 = np.abs(Z).max(axis=1)
    b1 = np.abs(K) @ b0 + np.abs(q)
    b2 = np.abs(K) @ b1
    b3 = np.abs(K) @ b2
    loads = float(np.sum(np.abs(m.loads(phi))))
    Q = lam.Q.max()
    sx = Q * (b0[1] + H * b0[5]) + loads
    st = Q * H * (b1[1] + H * b1[5]) + loads
    sz = Q * H * H * (b2[1] + H * b2[5]) + loads
    ss = m.kn * b0[2]
    sh = m.kt * (b0[0] + H * b0[4] + t * b0[3])
    fields = [
        ("w", lambda Y: o.w(Y), b0[2]), ("dw_dx", lambda Y: o.dw_dx(Y), b0[3]), ("psi", lambda Y: o.psi(Y, unit="deg"), 60 * b0[4]),
        ("dpsi_dx", lambda Y: o.dpsi_dx(Y), b0[5]), ("u", lambda Y: o.u(Y, z0=z0, unit="um"), 1e3 * (b0[0] + H * b0[4])),
        ("du_dx", lambda Y: o.du_dx(Y, z0), b0[1] + H * b0[5]), ("N", lambda Y: o.N(Y), lam.A * (b0[1] + H * b0[5])),
        ("M", lambda Y: o.M(Y), lam.A * H * (b0[1] + H * b0[5])), ("V", lambda Y: o.V(Y), lam.S * (b0[3] + b0[4])),
        ("sig", lambda Y: o.sig(Y), ss), ("tau", lambda Y: o.tau(Y, unit="kPa"), 1e3 * sh), ("eps", lambda Y: o.eps(Y), ss / m.kn / t),
        ("gamma", lambda Y: o.gamma(Y), sh / m.kt / t), ("Gi", lambda Y: o.Gi(Y), ss**2 / m.kn), ("Gii", lambda Y: o.Gii(Y, unit="J/m^2"), 1e3 * sh**2 / m.kt),
        ("dz_dx", lambda Y: o.dz_dx(Y, phi), b1), ("dz_dxdx", lambda Y: o.dz_dxdx(Y, phi), b2),
        ("du0_dxdx", lambda Y: o.du0_dxdx(Y, phi), b1[1]), ("dpsi_dxdx", lambda Y: o.dpsi_dxdx(Y, phi), b1[5]),
        ("du0_dxdxdx", lambda Y: o.du0_dxdxdx(Y, phi), b2[1]), ("dpsi_dxdxdx", lambda Y: o.dpsi_dxdxdx(Y, phi), b2[5]),
        ("pw", lambda Y: o.principal_stress_weaklayer(Y), 1e3 * (ss + sh)), ("pwn", lambda Y: o.principal_stress_weaklayer(Y, normalize=True), 1e3 * (ss + sh))]
    strength = 240.0 * (lam.rho.min() / 917.0) ** 2.44
    slab = [
        ("Sxx", lambda Y: o.Sxx(Y, phi, dz=dz), 1e3 * sx), ("Txz", lambda Y: o.Txz(Y, phi, dz=dz), 1e3 * st), ("Szz", lambda Y: o.Szz(Y, phi, dz=dz, unit="MPa"), sz),
        ("ps", lambda Y: o.principal_stress_slab(Y, phi, dz=dz), 1e3 * (sx + st + sz)),
        ("psn", lambda Y: o.principal_stress_slab(Y, phi, dz=dz, val="max", normalize=True), 1e3 * (sx + st + sz) / strength)]
    whole = {k: np.asarray(f(Z), float) for k, f, _ in fields + slab}
    for name, idx, make in selections(rng, n):
        Y = make(Z, idx)
        keep = np.array(Y)
        mon.counts[name] += 1
        for kind, table in (("field", fields), ("slab-field", slab)):
            for k, f, s in table:
                got = np.asarray(f(Y), float)
                want = whole[k][..., idx]
                info = {"quantity": k, "selection": name, "index": idx[:6]}
                if mon.true("shape", got.shape == want.shape, {**info, "got": got.shape, "want": want.shape}):
                    s = np.broadcast_to(np.reshape(s, (-1, 1)) if np.ndim(s) else s, want.shape) + 1e-300
                    mon.le(kind, np.abs(got - want) / s, 1e-10, info)
        mon.true("unmodified", np.array_equal(keep, Y), name)
    # positions within one segment
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"])
    S = m.scales(Z)
    for i in np.where(li > 0)[0]:
        xs = np.concatenate([[0.0, li[i]], rng.uniform(0, li[i], 7)])
        zs = np.asarray(gen.states(o, sc, segs, C, i, xs), float)
        for name, idx, _ in selections(rng, xs.size):
            x = xs[idx] if name != "strided" else xs[::-2]
            got = np.asarray(o.z(x, C[:, [i]], li[i], phi, bed=bool(ki[i])), float)
            if mon.true("shape", got.shape == (6, x.size), {"positions": name, "got": got.shape}):
                mon.le("position", np.abs(got - zs[:, idx]) / S[:, None], 1e-9, {"segment": int(i), "selection": name})
        got = np.hstack([np.asarray(o.z(float(x), C[:, [i]], li[i], phi, bed=bool(ki[i])), float) for x in xs])
        mon.le("position", np.abs(got - zs) / S[:, None], 1e-9, {"segment": int(i), "selection": "scalars"})
    # output functions
    xq, zq, xb = gen.raster(o, sc, segs, C, num=int(rng.integers(10, 60)))
    outs = [("tau", lambda x, y, **k: o.get_weaklayer_shearstress(x, y, **k), xb, sh), ("sig", lambda x, y, **k: o.get_weaklayer_normalstress(x, y, **k), xb, ss),
            ("disp", lambda x, y: o.get_slab_displacement(x, y, loc=gen.pick(rng, "top", "mid", "bot")), xq, None),
            ("defl", lambda x, y: o.get_slab_deflection(x, y), xq, None), ("rot", lambda x, y: o.get_slab_rotation(x, y), xq, None)]
    for k, f, x, s in outs:
        state = rng.bit_generator.state
        X, Y = (np.asarray(v, float) for v in f(x, zq))
        for name, idx, make in selections(np.random.default_rng(sc["seed"] + 1), xq.size):
            rng.bit_generator.state = state
            gx, gy = (np.asarray(v, float) for v in f(x[idx], make(zq, idx)))
            mon.true("output", np.array_equal(gx, X[idx], equal_nan=True), {"quantity": k, "selection": name, "what": "x"})
            mon.close("output", gy, Y[idx], 1e-9, 1e-300 + (s if s is not None else 0.0), detail={"quantity": k, "selection": name})
        rng.bit_generator.state = state
        if s is not None:
            # dropping unsupported positions commutes with selecting
            gx, gy = (np.asarray(v, float) for v in f(x, zq, removeNaNs=True))
            ok = ~np.isnan(X)
            if mon.true("output", np.array_equal(gx, X[ok]), {"quantity": k, "removeNaNs": True}):
                mon.close("output", gy, Y[ok], 1e-9, s + 1e-300, detail={"quantity": k, "removeNaNs": True})
            for name, idx, make in selections(np.random.default_rng(sc["seed"] + 1), xq.size):
                gx, gy = (np.asarray(v, float) for v in f(x[idx], make(zq, idx), removeNaNs=True))
                j = idx[ok[idx]]
                info = {"quantity": k, "removeNaNs": True, "selection": name}
                if mon.true("output", np.array_equal(gx, X[j]), info):
                    mon.close("output", gy, Y[j], 1e-9, s + 1e-300, detail=info)
