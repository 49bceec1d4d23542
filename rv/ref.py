"""Independent reference model of the layered slab on a weak layer.

Derived from the equilibrium of a first-order-shear-deformable laminate on a
foundation of normal and shear springs; it shares no code, no eigen-solution
and no attribute with weac.  Units: mm, N, MPa, t.

State z = [u, u', w, w', psi, psi'], x to the right, z down, inclination
counterclockwise positive.
"""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from scipy.linalg import expm

G_ACC = 9810.0
SKI = 1000.0
DATABASE = {  # density, thickness, Young's modulus (documented profiles)
    "soft": [180., 120., 5.], "medium": [270., 120., 30.], "hard": [350., 120., 93.8]}
PROFILES = {"a": "hard medium soft", "b": "soft medium hard", "c": "hard soft hard",
            "d": "soft hard soft", "e": "hard soft soft", "f": "soft soft hard",
            "h": "medium medium medium", "soft": "soft soft soft",
            "medium": "medium medium medium", "hard": "hard hard hard"}


def profile_rows(name):
    key = name.split()[-1].lower()
    if key == "comp":
        return [[240., 200., 5.23]]
    return [DATABASE[k] for k in PROFILES[key].split()]


class Laminate:
    """Plane-strain laminate (rows: density, thickness, E; top to bottom)."""

    def __init__(self, rows, nu=0.25):
        rows = np.asarray(rows, float)
        self.rho, self.t, self.E = rows.T
        self.nu = nu
        self.h = self.t.sum()
        top = np.concatenate([[0.0], np.cumsum(self.t)])[:-1] - self.h / 2
        mid = top + self.t / 2
        Q = self.E / (1 - nu**2)
        self.top, self.mid, self.Q = top, mid, Q
        self.A = float((Q * self.t).sum())
        self.B = float((Q * self.t * mid).sum())
        self.D = float((Q * (self.t * mid**2 + self.t**3 / 12)).sum())
        self.S = float(5 / 6 * (self.E / (2 * (1 + nu)) * self.t).sum())
        mass = self.rho * 1e-12 * self.t
        self.q = float(mass.sum() * G_ACC)
        self.zs = float((mass * mid).sum() / mass.sum())

    def wedge(self, phi):
        """Weight (N/mm), signed centroid of the wedge between normal and vertical face.

        The slope-normal face is x = 0; the vertical face passes through its
        lower end (x=0, z=h/2).  Width at depth z: (h/2 - z) tan(phi).
        """
        r = np.deg2rad(phi)
        T = np.tan(r)
        a, b = self.top, self.top + self.t          # layer bounds
        H = self.h / 2
        # integrals over each layer of width, width*z, width^2/2
        I1 = (H * (b - a) - (b**2 - a**2) / 2) * T
        Iz = (H * (b**2 - a**2) / 2 - (b**3 - a**3) / 3) * T
        Ix = ((H - a)**3 - (H - b)**3) / 6 * T**2
        m = self.rho * 1e-12
        M0 = float((m * I1).sum())
        if M0 == 0:
            return 0.0, 0.0, 0.0
        return M0, float((m * Ix).sum()) / M0, float((m * Iz).sum()) / M0


class Model:
    """Slab + weak layer + loads."""

    def __init__(self, rows, nu=0.25, weak=None, p=0.0):
        weak = {"t": 30.0, "E": 0.25, "nu": 0.25, **(weak or {})}
        self.lam = Laminate(rows, nu)
        self.t = weak["t"]
        self.kn = weak["E"] / (1 - weak["nu"]**2) / weak["t"]
        self.kt = weak["E"] / (2 * (1 + weak["nu"])) / weak["t"]
        self.p = p

    # --- loads ------------------------------------------------------------
    def loads(self, phi):
        r = np.deg2rad(phi)
        q, p = self.lam.q, self.p
        return q * np.cos(r), -q * np.sin(r), p * np.cos(r), -p * np.sin(r)

    def skier(self, m, phi):
        F = 1e-3 * m * G_ACC / SKI
        r = np.deg2rad(phi)
        return F * np.cos(r), -F * np.sin(r)

    # --- first-order system -------------------------------------------------
    def system(self, bed, phi, kfac=1.0):
        """K, q of z' = K z + q, and rows N, M, V of the section forces."""
        l = self.lam
        kn, kt = (self.kn * kfac, self.kt * kfac) if bed else (0.0, 0.0)
        qn, qt, pn, pt = self.loads(phi)
        C = np.linalg.inv([[l.A, l.B], [l.B, l.D]])
        s = kt * np.array([1, 0, 0, -self.t / 2, l.h / 2, 0])
        V = l.S * np.array([0, 0, 0, 1.0, 1.0, 0])
        dM = V + (l.h + self.t) / 2 * s
        K = np.zeros((6, 6))
        K[0, 1] = K[2, 3] = K[4, 5] = 1
        K[1] = C[0, 0] * s + C[0, 1] * dM
        K[5] = C[1, 0] * s + C[1, 1] * dM
        K[3, 2] = kn / l.S
        K[3, 5] = -1
        n0, m0 = -(qt + pt), -(qt * l.zs - pt * l.h / 2)
        q = np.array([0, C[0, 0] * n0 + C[0, 1] * m0, 0, -(qn + pn) / l.S, 0, C[1, 0] * n0 + C[1, 1] * m0])
        return K, q

    def forces(self):
        l = self.lam
        N = np.array([0, l.A, 0, 0, 0, l.B])
        M = np.array([0, l.B, 0, 0, 0, l.D])
        V = np.array([0, 0, 0, l.S, l.S, 0])
        return N, M, V

    def particular(self, phi):
        """Undisturbed slab on the weak layer."""
        K, q = self.system(True, phi)
        # constant solution has u'=w'=psi'=0: solve for u, w, psi
        A = K[np.ix_([1, 3, 5], [0, 2, 4])].copy()
        x = np.zeros(6)
        # rows: u'' = 0, w'' = 0, psi'' = 0
        x[[0, 2, 4]] = np.linalg.solve(A, -q[[1, 3, 5]])
        return x

    def rate(self, kfac=1.0):
        K, _ = self.system(True, 0.0, kfac)
        return np.linalg.eigvals(K)

    def lmax(self, kfac=1.0):
        return float(np.max(np.abs(self.rate(kfac))))

    def lmin(self, kfac=1.0):
        """Slowest decay rate (1/mm)."""
        return float(np.min(np.abs(self.rate(kfac).real)))

    # --- exact propagation ----------------------------------------------------
    def flow(self, dx, bed, phi, kfac=1.0):
        """Stacked (Phi, g) with z(x+dx) = Phi z(x) + g for an array of dx."""
        K, q = self.system(bed, phi, kfac)
        dx = np.atleast_1d(np.asarray(dx, float))
        s = 1.0 / self.lmax()
        T = np.array([1, s, 1, s, s, s * s])       # y = T z (all mm)
        Ks = (T[:, None] * K / T[None, :])
        qs = T * q
        aug = np.zeros((7, 7))
        aug[:6, :6] = Ks
        qscale = max(np.max(np.abs(qs)), 1e-300)
        aug[:6, 6] = qs / qscale
        P = expm(dx[:, None, None] * aug)
        Phi = P[:, :6, :6] * T[None, None, :] / T[None, :, None]
        g = P[:, :6, 6] * qscale / T
        return Phi, g

    def scales(self, Z, floor=1e-3):
        """Componentwise magnitudes of a solution for relative comparisons."""
        s = 1.0 / self.lmax()
        T = np.array([1, s, 1, s, s, s * s])
        y = np.nanmax(np.abs(Z), axis=1) * T
        return (y + floor * y.max() + 1e-300) / T

    # --- boundary value problem --------------------------------------------
    def bc_rows(self, kind, phi, **kw):
        N, M, V = self.forces()
        e = np.eye(6)
        if kind == "free":
            return np.array([N, M, V]), np.zeros(3)
        if kind == "force":
            return np.array([N, M, V]), np.array(kw["values"], float)
        if kind == "wedge":
            W, xs, zs = self.lam.wedge(phi)
            W = W * G_ACC
            r = np.deg2rad(phi)
            return np.array([N, M, V]), np.array(
                [-W * np.sin(r), -W * (xs * np.cos(r) + zs * np.sin(r)), W * np.cos(r)])
        if kind == "far":
            zp = self.particular(phi)
            return e[[0, 2, 4]], zp[[0, 2, 4]]
        if kind == "tipB":
            return np.array([N, M, e[2]]), np.array([0.0, 0.0, kw["tc"]])
        if kind == "tipC":
            sgn = kw["side"]                 # +1 right end, -1 left end
            return np.array([N, M + sgn * kw["kR"] * e[4], e[2]]), \
                np.array([sgn * kw["N"], 0.0, kw["tc"]])
        raise KeyError(kind)

    def solve(self, li, ki, mi, phi, left, right, kfac=1.0):
        """Solve for nodal states; returns Solution. left/right = (rows, rhs)."""
        li, ki, mi = list(map(float, li)), list(map(bool, ki)), list(map(float, mi))
        keep = [i for i, l in enumerate(li)]
        lmax = self.lmax(kfac)
        nodes, mats, seg_nodes = [], [], []
        s = 1.0 / lmax
        T = np.array([1, s, 1, s, s, s * s])
        # force-like scaling of transition rows
        l = self.lam
        FS = np.array([1, 1, s, 1 / (l.A / s), 1 / (l.A), 1 / (l.S / s)])
        n = 0
        rows_i, cols_i, vals_i, rhs = [], [], [], []
        def put(r, c, block):
            block = np.atleast_2d(block) / T[None, :]
            rr, cc = np.meshgrid(np.arange(r, r + block.shape[0]), np.arange(c, c + 6), indexing="ij")
            rows_i.append(rr.ravel()); cols_i.append(cc.ravel()); vals_i.append(block.ravel())
        r = 0
        L0, b0 = left
        sc = 1 / np.max(np.abs(L0 / T), axis=1)
        put(r, 0, L0 * sc[:, None]); rhs.extend(b0 * sc); r += 3
        N, M, V = self.forces()
        e = np.eye(6)
        TR = np.array([e[0], e[2], e[4], N, M, V]) * FS[:, None]
        segs = []
        x0 = 0.0
        for i in keep:
            npc = max(1, int(np.ceil(li[i] * lmax / 2.0))) if ki[i] else max(1, min(60, int(np.ceil(li[i] * lmax / 4.0))))
            dx = li[i] / npc
            Phi, g = self.flow([dx], ki[i], phi, kfac)
            Phi, g = Phi[0], g[0]
            first = n
            for j in range(npc):
                # z_{n+1} - Phi z_n = g
                put(r, 6 * (n + 1), np.diag(T)); put(r, 6 * n, -Phi * T[:, None])
                rhs.extend(g * T); r += 6; n += 1
            segs.append((x0, li[i], ki[i], first, npc, dx))
            x0 += li[i]
            n += 1
            if i < len(li) - 1:
                Fn, Ft = self.skier(mi[i], phi)
                put(r, 6 * (n - 1), TR); put(r, 6 * n, -TR)
                rhs.extend(np.array([0, 0, 0, Ft, -Ft * l.h / 2, Fn]) * FS); r += 6
        R1, b1 = right
        sc = 1 / np.max(np.abs(R1 / T), axis=1)
        put(r, 6 * (n - 1), R1 * sc[:, None]); rhs.extend(b1 * sc); r += 3
        Amat = sp.csc_matrix((np.concatenate(vals_i), (np.concatenate(rows_i), np.concatenate(cols_i))), shape=(6 * n, 6 * n))
        b = np.array(rhs)
        lu = spl.splu(Amat)
        y = lu.solve(b)
        y = y + lu.solve(b - Amat @ y)     # one step of iterative refinement
        Zn = y.reshape(n, 6) / T
        return Solution(self, phi, segs, Zn, kfac)

    # --- substitute springs and touchdown -------------------------------------
    def spring(self, L, kind, kfac=1.0):
        """Stiffness of a free bedded beam of length L against an end moment/force."""
        cap = 45.0 / max(self.lmin(kfac), 1e-9)
        L = min(L, cap)
        mod = Model.__new__(Model)
        mod.__dict__ = dict(self.__dict__)
        lam = Laminate.__new__(Laminate)
        lam.__dict__ = dict(self.lam.__dict__)
        lam.q = 0.0
        mod.lam, mod.p = lam, 0.0
        vals = [0, 1.0, 0] if kind == "rot" else [0, 0, 1.0]
        s = mod.solve([L], [True], [], 0.0, mod.bc_rows("force", 0, values=vals), mod.bc_rows("free", 0), kfac)
        z0 = s.Zn[0]
        return abs(1 / z0[4]) if kind == "rot" else abs(1 / z0[2])


class Solution:
    def __init__(self, model, phi, segs, Zn, kfac):
        self.m, self.phi, self.segs, self.Zn, self.kfac = model, phi, segs, Zn, kfac
        self.length = segs[-1][0] + segs[-1][1]

    def at(self, i, x):
        """State in segment i at local positions x."""
        x0, l, k, first, npc, dx = self.segs[i]
        x = np.atleast_1d(np.asarray(x, float))
        j = np.clip((x / dx).astype(int), 0, npc - 1) if dx > 0 else np.zeros(x.size, int)
        Phi, g = self.m.flow(x - j * dx, k, self.phi, self.kfac)
        return (np.einsum("nij,nj->ni", Phi, self.Zn[first + j]) + g).T

    def ends(self):
        return self.Zn[0], self.Zn[-1]
