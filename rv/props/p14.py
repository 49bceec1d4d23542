"""P14: through-thickness equilibrium of the slab stress fields."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems; Sxx, Txz and Szz at random positions of every segment, for several mesh sizes and both units, compared with "
        "exact layerwise integrals of the equilibrium equations and with the reported section forces and weak-layer stresses; "
        "non-trivial = at least one supported segment integrated over the thickness")
REQUIRED = {"mesh": 300, "Sxx": 300, "N": 300, "M": 300, "Txz": 300, "Txz-bottom": 300, "Szz": 300, "Szz-bottom": 300,
            "unsupported": 100, "surface-load": 20, "phi-": 10, "phi+": 10, "units": 300}
N = {"quick": 750, "thorough": 15000}
ASSUMPTIONS = ["Sxx carries the layer weight of one mesh increment (an O(dz) term); it must vanish with dz and is bounded by rho g dz |sin phi|"]
KEY = "slab-stress-unsupported"


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.1)
    for sc in out:
        sc["dz"] = [float(gen.pick(rng, 1.0, 2.0, 5.0, rng.uniform(0.7, 30))), float(gen.pick(rng, 0.5, 1.0, 3.0, 10.0, 1e4))]
    return out


def exact(m, zi, layer, f2, f3, phi, bed):
    """Exact Txz and Szz (MPa) at mesh rows for second and third derivatives (u'', psi''), (u''', psi''')."""
    lam = m.lam
    qn, qt, pn, pt = m.loads(phi)
    r = np.deg2rad(phi)
    n = lam.t.size
    ncol = f2[0].size
    T = np.zeros((zi.size, ncol))
    S = np.zeros((zi.size, ncol))
    # running integrals at the layer tops
    I1 = np.zeros(ncol)
    J1 = np.zeros(ncol)
    J2 = np.zeros(ncol)
    W = 0.0
    for k in range(n):
        a, b = lam.top[k], lam.top[k] + lam.t[k]
        w = lam.rho[k] * 1e-12 * 9810.0

        def prim(z):
            d1 = z - a
            t1 = lam.Q[k] * (f2[0] * d1 + f2[1] * (z**2 - a**2) / 2)
            s1 = lam.Q[k] * (f3[0] * d1 + f3[1] * (z**2 - a**2) / 2)
            s2 = lam.Q[k] * (f3[0] * d1**2 / 2 + f3[1] * ((z**3 - a**3) / 6 - a**2 * d1 / 2))
            return t1, s1, s2
        for j in np.where(layer == k)[0]:
            t1, s1, s2 = prim(zi[j])
            T[j] = pt + I1 + t1 - np.sin(r) * (W + w * (zi[j] - a))
            S[j] = -pn + J2 + J1 * (zi[j] - a) + s2 - np.cos(r) * (W + w * (zi[j] - a))
        t1, s1, s2 = prim(b)
        J2 = J2 + J1 * (b - a) + s2
        J1 = J1 + s1
        I1 = I1 + t1
        W += w * (b - a)
    return T, S


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    lam, phi = m.lam, sc["phi"]
    r = np.deg2rad(phi)
    H = lam.h
    bounds = np.append(lam.top, H / 2)
    smp = obs.sample(o, sc, segs, C, 5)
    ki = np.asarray(segs["ki"])
    Zall = obs.stack(smp)
    for i, x, Z in smp:
        bed = bool(ki[i])
        K, q = m.system(bed, phi)
        Kb, qb = m.system(True, phi)
        d1 = K @ Z + q[:, None]
        d2 = K @ d1
        e1 = Kb @ Z + qb[:, None]
        e2 = Kb @ e1
        for dz in sc["dz"] + [None]:
            kw = {} if dz is None else {"dz": dz}
            dz = 2.0 if dz is None else dz
            info = {"segment": i, "dz": dz, "bed": bed}
            mesh = np.asarray(o.get_zmesh(**kw), float)
            zi = mesh[:, 0]
            # which layer does a row belong to: interfaces occur twice, first as bottom of the upper layer
            step = np.diff(zi)
            eps = 1e-9 * H
            layer = np.concatenate([[0], np.cumsum(step < eps)])
            ok = layer[-1] == lam.t.size - 1
            if ok:
                for k in range(lam.t.size):
                    zz = zi[layer == k]
                    ok &= zz.size >= 2 and abs(zz[0] - bounds[k]) < 1e-6 * H and abs(zz[-1] - bounds[k + 1]) < 1e-6 * H
            if not mon.true("mesh", ok, info):
                continue
            mon.le("mesh", step, dz * (1 + 1e-6) + eps, info)
            mon.close("mesh-rows", mesh[:, 1], lam.E[layer], 1e-9, detail=info)
            mon.close("mesh-rows", mesh[:, 2], np.full(zi.size, lam.nu), 1e-9, scale=1e-9, detail=info)
            mon.close("mesh-rows", mesh[:, 3], lam.rho[layer], 1e-9, detail=info)
            Sxx, Txz, Szz = (np.asarray(f(Z, phi, unit="MPa", **kw), float) for f in (o.Sxx, o.Txz, o.Szz))
            if not mon.true("shape", all(S.shape == (zi.size, x.size) and np.isfinite(S).all() for S in (Sxx, Txz, Szz)), info):
                continue
            for f, S in ((o.Sxx, Sxx), (o.Txz, Txz), (o.Szz, Szz)):
                mon.close("units", f(Z, phi, unit="kPa", **kw), 1e3 * S, 1e-12, detail=info)
                mon.close("units", f(Z, phi, **kw), 1e3 * S, 1e-12, detail=info)
            dx = min(dz, lam.t.max()) * (1 + 1e-9)
            # axial stress
            want = lam.Q[layer][:, None] * (Z[1] + zi[:, None] * Z[5])
            wmax = lam.rho.max() * 1e-12 * 9810 * abs(np.sin(r))
            slack = 1.01 * wmax * dx
            smax = np.abs(lam.Q[layer][:, None] * np.abs(Z[1]) + lam.Q[layer][:, None] * np.abs(zi[:, None] * Z[5])).max()
            mon.le("Sxx", np.abs(Sxx - want).max(), slack + 1e-10 * smax, info)
            # integrals (the strain is linear in each layer: Simpson on rows is replaced by exact moments of a linear fit)
            Nq, Mq = np.zeros(x.size), np.zeros(x.size)
            for k in range(lam.t.size):
                rows = layer == k
                zz, S = zi[rows], Sxx[rows]
                hh = np.diff(zz)[:, None]
                Nq += (hh * (S[1:] + S[:-1]) / 2).sum(axis=0)
                za, zb = zz[:-1, None], zz[1:, None]
                Mq += (hh / 6 * (S[:-1] * (2 * za + zb) + S[1:] * (za + 2 * zb))).sum(axis=0)
            nscale = smax * H + 1e-300
            mon.le("N", np.abs(Nq - o.N(Z)), slack * H + 1e-10 * nscale, info)
            mon.le("M", np.abs(Mq - o.M(Z)), slack * H * H / 2 + 1e-10 * nscale * H, info)
            # shear and transverse stress
            T, S = exact(m, zi, layer, (d1[1], d1[5]), (d2[1], d2[5]), phi, bed)
            qmax = lam.Q.max()
            tscale = qmax * H * (np.abs(e1[1]).max() + H * np.abs(e1[5]).max()) + sum(map(abs, m.loads(phi))) + np.abs(T).max()
            serr = H * dx**2 / 12 * qmax * np.abs(d2[5])
            sscale = qmax * H * H * (np.abs(e2[1]).max() + H * np.abs(e2[5]).max()) + sum(map(abs, m.loads(phi))) + np.abs(S).max()
            sig, tau = o.sig(Z), o.tau(Z)
            s, t = obs.weak(m, Z)
            dtau = m.kt * (d1[0] + H / 2 * d1[4] - m.t / 2 * d1[3])
            if bed:
                mon.le("Txz", np.abs(Txz - T), 1e-8 * tscale, info)
                mon.le("Txz-top", np.abs(Txz[0] - m.loads(phi)[3]), 1e-8 * tscale, info)
                mon.le("Txz-bottom", np.abs(Txz[-1] - tau), 1e-8 * tscale, info)
                mon.le("Szz", np.max(np.abs(Szz - S) - 1.5 * serr[None, :]), 1e-8 * sscale, info)
                mon.le("Szz-top", np.abs(Szz[0] + m.loads(phi)[2]), 1e-8 * sscale, info)
                mon.le("Szz-bottom", np.max(np.abs(Szz[-1] - (sig - m.t / 2 * dtau)) - 1.5 * serr), 1e-8 * sscale, info)
            else:
                mon.counts["unsupported"] += 1
                Tb, Sb = exact(m, zi, layer, (e1[1], e1[5]), (e2[1], e2[5]), phi, True)
                eb = H * dx**2 / 12 * qmax * np.abs(e2[5])
                tb = bool(np.all(np.abs(Txz - Tb) <= 1e-8 * tscale))
                sb = bool(np.all(np.abs(Szz - Sb) - 1.5 * eb <= 1e-8 * sscale))
                mon.le("Txz-unsupported", np.abs(Txz - T), 1e-8 * tscale, info, finding=KEY if tb else None)
                mon.le("Szz-unsupported", np.max(np.abs(Szz - S) - 1.5 * serr[None, :]), 1e-8 * sscale, info, finding=KEY if sb else None)
