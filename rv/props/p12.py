"""P12: differential energy release rate against weak-layer energies at the crack tips."""
import numpy as np
from rv import gen, obs
from rv.props import p01

RULE = ("random solved systems with no, one or many cracks (edge cracks, interior cracks, mixtures, skiers at tips) and "
        "touchdown stages; gdif is compared with tip energies of observed states and, without touchdown, of the independent "
        "reference solution; non-trivial = a system whose tips were evaluated")
REQUIRED = {"gdif": 300, "reference": 200, "units": 300, "tips:0": 10, "tips:1": 30, "tips:2": 30, "tips:3": 5, "tips:4": 5, "edge+interior": 5,
            "stage:C": 2, "modes": 250, "skier-at-tip": 10}
N = {"quick": 1920, "thorough": 38400}


def cases(rng, tier):
    out = p01.gen_cases(rng, N[tier], touch=0.1)
    for sc in out:
        if "direct" not in sc and sc["system"] in gen.PST + gen.VPST and not sc.get("touchdown") and rng.random() < 0.6:
            sc["direct"] = gen.free_li(rng, nmax=9)
        if sc["system"] == "skier" and rng.random() < 0.15:
            sc["seg"]["a"] = 0.0
    return out


def tips(ki):
    """(segment on the supported side, at its right end?, weight)."""
    t = [j for j in range(len(ki) - 1) if ki[j] != ki[j + 1]]
    w = np.full(len(t), 0.5 if len(t) > 1 else 1.0)
    if len(t) > 1:
        if not ki[0]:
            w[0] = 1.0
        if not ki[-1]:
            w[-1] = 1.0
    return [((j, True) if ki[j] else (j + 1, False)) + (w[n],) for n, j in enumerate(t)]


def energies(m, z, w):
    sig, tau = obs.weak(m, z)
    return w * np.array([sig**2 / (2 * m.kn), tau**2 / (2 * m.kt)]).ravel()


def run(sc, mon):
    o, segs, C = p01.solve(sc, mon)
    m = gen.features(sc, mon, segs)
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"], bool)
    tp = tips(ki)
    if len(tp) > 1 and not (ki[0] and ki[-1]):
        mon.counts["edge+interior"] += 1
    for j, right, _ in tp:
        mon.counts["skier-at-tip"] += bool(np.asarray(segs["mi"], float)[j if right else j - 1])
    kw = {k: (list(v) if len(li) % 2 else np.asarray(v)) for k, v in (("li", segs["li"]), ("ki", segs["ki"]))}
    G = np.asarray(o.gdif(C, sc["phi"], **kw), float)
    if not mon.true("shape", G.shape == (3,) and np.isfinite(G).all(), G):
        return
    want, amount = np.zeros(2), 0.0
    for j, right, w in tp:
        z = gen.states(o, sc, segs, C, j, [li[j] if right else 0.0])[:, 0]
        e = energies(m, z, w)
        want += e
        amount = max(amount, e.max())
        # per-tip accessors in all units
        Z = z[:, None]
        for u, f in (("kJ/m^2", 1.0), ("N/mm", 1.0), ("J/m^2", 1e3)):
            got = np.array([float(np.ravel(o.Gi(Z, unit=u))[0]), float(np.ravel(o.Gii(Z, unit=u))[0])])
            mon.close("tip", got, f * e / w, 1e-8, scale=1e-14)
        mon.close("tip", [float(np.ravel(o.Gi(Z))[0]), float(np.ravel(o.Gii(Z))[0])], e / w, 1e-8, scale=1e-14)
    # each mode on its own scale, with the rounding level of the states as floor
    for i in (0, 1):
        mon.le("gdif", abs(G[1 + i] - want[i]) / (max(want[i], 1e-9 * amount) or 1.0), 1e-6, {"mode": i + 1, "got": G, "want": want})
    mon.le("total", abs(G[0] - G[1] - G[2]) / (G[0] or 1.0), 1e-12)
    mon.true("modes", np.all(G >= 0) and (len(tp) > 0 or np.all(G == 0)), G)
    for u, f in (("kJ/m^2", 1.0), ("N/mm", 1.0), ("J/m^2", 1e3)):
        mon.close("units", o.gdif(C, sc["phi"], unit=u, **kw), f * G, 1e-12, detail=u)
    if sc.get("touchdown"):
        return
    S = gen.reference(sc, segs, m)
    ref = np.zeros(2)
    for j, right, w in tp:
        ref += energies(m, S.at(j, [li[j] if right else 0.0])[:, 0], w)
    for i in (0, 1):
        mon.le("reference", abs(G[1 + i] - ref[i]) / (ref[i] + 1e-4 * ref.sum() + 1e-14), 1e-4, {"mode": i + 1, "got": G, "want": ref})
