"""P23: what the plot functions draw, observed in the figures they save."""
import os, pickle, re, shutil, tempfile
import numpy as np
from rv import gen, obs

RULE = ("random solved systems, each drawn by several plot functions and options in a scratch directory; every saved figure is inspected as it is saved (curves, "
        "labels, spans, contour grids, limits), then the files, figures, style, model and inputs left behind; non-trivial = at least one figure inspected")
REQUIRED = {"figure": 400, "curve": 700, "label": 700, "span": 100, "vline": 200, "contour": 150, "outline": 150, "window": 30, "file": 400, "model": 400,
            "style": 400, "field:u": 10, "field:w": 10, "field:Sxx": 10, "field:Txz": 10, "field:Szz": 10, "field:principal": 20, "dark": 20, "fn:err_comp": 10,
            "fn:err_modes": 10, "fn:fea_disp": 10, "fn:fea_stress": 10, "fn:slab_profile": 20, "fn:stress_criteria": 20, "fn:plot_data": 15, "second scale": 15, "reference curve": 3, "all defaults": 6, "background": 100, "weak outline": 20, "zero line": 150, "in view": 150, "sys:skiers": 5, "sys:pst-": 2}
N = {"quick": 90, "thorough": 1200}
CASE_TIMEOUT = 240
FIELDS = ["u", "w", "Sxx", "Txz", "Szz", "principal"]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        sc = gen.scenario(rng)
        if sc["phi"] == 0 and rng.random() < 0.4:
            sc["phi"] = float(rng.uniform(-50, 50))
        sc["num"] = int(gen.pick(rng, rng.integers(60, 300), 250))
        sc["seed"] = int(rng.integers(1 << 30))
        sc["config"] = "crack" if rng.random() < 0.85 else "nocrack"
        sc["def"] = []
        for k in range(2):
            d = {"field": FIELDS[(2 * i + k) % 6] if rng.random() < 0.7 else "principal"}
            if rng.random() < 0.7:
                d["scale"] = gen.pick(rng, 1, 10, 100, 200, float(rng.uniform(1, 300)))
            if rng.random() < 0.6:
                d["window"] = gen.pick(rng, 20, 100, float(rng.uniform(10, 400)))
            if rng.random() < 0.4:
                d["pad"] = gen.pick(rng, 0.5, 5, 10)
            if rng.random() < 0.4:
                d["aspect"] = gen.pick(rng, 1, 3, 5.5)
            if rng.random() < 0.4:
                d["normalize"] = False
            if rng.random() < 0.3:
                d["dark"] = True
            if rng.random() < 0.5:
                d["filename"] = gen.pick(rng, "mine", "cont_7", "Deformed")
            d["levels"] = int(gen.pick(rng, 10, 20, 40))
            d["dz"] = float(gen.pick(rng, 5, 20, 40, 333))
            if k == 0 and i % 9 == 4:      # everything not given
                d = {key: v for key, v in d.items() if key in ("window", "filename") and rng.random() < 0.5}
            sc["def"].append(d)
        out.append(sc)
    return out


class Watch:
    """Inspect figures at the moment they are saved."""

    def __enter__(self):
        import matplotlib.figure
        import matplotlib.axes
        self.figs, self.contours = [], []
        self.F, self.A = matplotlib.figure.Figure, matplotlib.axes.Axes
        self.savefig, self.contourf = self.F.savefig, self.A.contourf
        watch = self

        def savefig(fig, *args, **kw):
            watch.figs.append(watch.read(fig))
            kw["dpi"] = 30
            return watch.savefig(fig, *args, **kw)

        def contourf(ax, *args, **kw):
            out = watch.contourf(ax, *args, **kw)
            if len(args) >= 3:
                lev = np.array(out.levels)
                ends = [tuple(np.round(out.cmap(out.norm(v)), 6)) for v in (lev[0] + 1e-9 * np.ptp(lev), -0.4 * lev[-1], 0.0, 0.4 * lev[-1], lev[-1] - 1e-9 * np.ptp(lev))]
                watch.contours.append([np.ma.filled(np.ma.asarray(a, float), np.nan).copy() for a in args[:3]] + [lev, ends])
            return out
        self.F.savefig, self.A.contourf = savefig, contourf
        return self

    def __exit__(self, *exc):
        self.F.savefig, self.A.contourf = self.savefig, self.contourf

    def read(self, fig):
        import matplotlib.colors as mc
        out = {"curves": [], "vlines": [], "hlines": [], "spans": [], "texts": [], "polys": [], "labels": [], "n": len(fig.axes)}
        ax0 = fig.axes[0]
        out["xlim"], out["ylim"], out["aspect"] = ax0.get_xlim(), ax0.get_ylim(), ax0.get_aspect()
        out["title"] = ax0.get_title()
        out["face"], out["outside"], out["styles"] = mc.to_rgb(fig.get_facecolor()), [], {}
        for ax in fig.axes:
            out["labels"] += [ax.get_xlabel(), ax.get_ylabel()]
            if ax.get_label() == "<colorbar>":
                continue
            for ln in ax.get_lines():
                x, y = np.asarray(ln.get_xdata(orig=True), float), np.asarray(ln.get_ydata(orig=True), float)
                col = mc.to_hex(ln.get_color())
                if ln.get_transform() == ax.get_xaxis_transform(which="grid"):
                    out["vlines"].append(x[0])
                elif ln.get_transform() == ax.get_yaxis_transform(which="grid"):
                    out["hlines"].append(y[0])
                elif ln.get_visible() and ln.get_linestyle() not in ("None", "") and col != "#ffffff":
                    out["curves"].append((x.copy(), y.copy(), col, ln.get_linestyle(), ax.yaxis.get_label_position()))
                    fx, fy = finite(x, y)
                    (xl, xh), (yl, yh) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
                    if fx.size and (np.min(fx) < xl - 1e-6 * (xh - xl) or np.max(fx) > xh + 1e-6 * (xh - xl) or np.min(fy) < yl - 1e-6 * (yh - yl) or np.max(fy) > yh + 1e-6 * (yh - yl)):
                        out["outside"].append([np.min(fx), np.max(fx), np.min(fy), np.max(fy), xl, xh, yl, yh])
            for p in ax.patches:
                b = p.get_path().transformed(p.get_patch_transform()).get_extents()
                out["spans"].append((b.x0, b.x1))
            for t in ax.texts:
                out["texts"].append((t.get_text(), mc.to_hex(t.get_color()), t.get_position()))
            for c in ax.collections:
                for p in c.get_paths():
                    out["polys"].append(p.vertices.copy())
        return out


def finite(x, y):
    ok = np.isfinite(x) & np.isfinite(y)
    return np.asarray(x, float)[ok], np.asarray(y, float)[ok]


def same(c, x, y, tol=1e-7):
    a, b = finite(c[0], c[1])
    x, y = finite(x, y)
    if a.shape != x.shape:
        return False
    sx, sy = np.max(np.abs(x), initial=1e-9), np.max(np.abs(y), initial=1e-12)
    return bool(np.all(np.abs(a - x) <= tol * sx) and np.all(np.abs(b - y) <= tol * sy + 1e-15))


def check_lines(mon, fig, want, fn, labelled=True):
    """Exactly the wanted curves, each with its own label on it."""
    left = list(fig["curves"])
    for x, y, token in want:
        hit = [c for c in left if same(c, x, y)]
        if not mon.true("curve", hit, {"fn": fn, "curve": token, "drawn": [[c[0][:3], c[1][:3]] for c in left], "want": [np.asarray(x)[:3], np.asarray(y)[:3]]}):
            continue
        left = [c for c in left if c is not hit[0]]
        if labelled:
            lab = [t for t in fig["texts"] if re.search(token, t[0]) and any(h[2] == t[1] for h in hit)]
            near = False
            fx, fy = finite(x, y)
            for t in lab:
                i = np.argsort(np.abs(fx - t[2][0]))[:6]
                span = np.ptp(fy) + 1e-12
                near = near or fy[i].min() - 0.05 * span - 1e-12 <= t[2][1] <= fy[i].max() + 0.05 * span + 1e-12
            mon.true("label", near, {"fn": fn, "curve": token, "texts": fig["texts"]})
    mon.true("no-extra-curve", not left, {"fn": fn, "extra": [[c[0][:4], c[1][:4]] for c in left]})


def check_marks(mon, fig, segs, fn):
    li, mi, ki = (np.asarray(segs[k]) for k in ("li", "mi", "ki"))
    e = np.concatenate([[0], np.cumsum(li)]) / 10
    spans = sorted((a, b) for a, b in fig["spans"] if b - a > 1e-9)
    want = [(e[i], e[i + 1]) for i in range(len(li)) if not ki[i] and li[i] > 0]
    for w in want:
        mon.true("span", any(abs(a - w[0]) <= 1e-6 * e[-1] and abs(b - w[1]) <= 1e-6 * e[-1] for a, b in spans), {"fn": fn, "want": w, "drawn": spans})
    mon.true("span-count", len(spans) == len(want), {"fn": fn, "want": want, "drawn": spans})
    lines = [0.0] + [e[i + 1] for i in range(len(mi)) if mi[i] > 0]
    for w in lines:
        mon.true("vline", any(abs(v - w) <= 1e-6 * e[-1] for v in fig["vlines"]), {"fn": fn, "want": w, "drawn": fig["vlines"]})
    for v in fig["vlines"]:
        mon.true("vline-extra", any(abs(v - w) <= 1e-6 * e[-1] for w in lines), {"fn": fn, "extra": v, "want": lines})


def outline_set(X, Z):
    P = np.hstack([np.vstack([X[0], Z[0]]), np.vstack([X[-1], Z[-1]]), np.vstack([X[:, 0], Z[:, 0]]), np.vstack([X[:, -1], Z[:, -1]])])
    return P


def covers(c, P, tol):
    """The closed curve c runs through exactly the points P."""
    Q = np.vstack(c[:2])
    if not np.all(np.isfinite(Q)):
        return False
    d1 = max(np.min(np.hypot(*(Q - P[:, [j]]))) for j in range(P.shape[1]))
    d2 = max(np.min(np.hypot(*(P - Q[:, [j]]))) for j in range(Q.shape[1]))
    return d1 <= tol and d2 <= tol and np.hypot(*(Q[:, 0] - Q[:, -1])) <= tol


def check_deformed(mon, o, m, fig, contours, x, xb, z, phi, d):
    field, scale, dz = d.get("field", "principal"), d.get("scale", 100), d.get("dz", 2)
    pad, window, levels = d.get("pad", 2), d.get("window", np.inf), d.get("levels", 300)
    zi = o.get_zmesh(dz=dz)[:, 0]
    h = m.lam.h
    if o.system in ("skier", "skiers"):
        x, xb = x - np.max(x) / 2, xb - np.nanmax(xb) / 2
    U, W = z[0] + zi[:, None] * z[4], np.repeat(z[[2]], zi.size, axis=0)
    X, Z = np.meshgrid(x / 10, (zi + h / 2) / 10)
    Xd, Zd = X + scale * U / 10, Z + scale * W / 10
    zmax = max(np.max(Zd), -np.inf) + pad
    if field == "u":
        slab, weak, token = 1e3 * U, 1e3 * U[-1], r"\$u\$"
    elif field == "w":
        slab, weak, token = 1e3 * W, 1e3 * W[-1], r"\$w\$"
    elif field == "Sxx":
        slab, weak, token = o.Sxx(z, phi, dz=dz, unit="kPa"), np.zeros(x.size), r"sigma_\{xx\}"
    elif field == "Txz":
        slab, weak, token = o.Txz(z, phi, dz=dz, unit="kPa"), 1e3 * obs.weak(m, z)[1], r"tau_\{xz\}"
    elif field == "Szz":
        slab, weak, token = o.Szz(z, phi, dz=dz, unit="kPa"), 1e3 * obs.weak(m, z)[0], r"sigma_\{zz\}"
    else:
        norm = d.get("normalize", True)
        slab = o.principal_stress_slab(z, phi, dz=dz, val="max", unit="kPa", normalize=norm)
        sig, tau = (1e3 * v for v in obs.weak(m, z))
        weak = sig / 2 - np.sqrt((sig / 2) ** 2 + tau ** 2)
        weak = weak / 2.6 if norm else weak
        token = r"sigma_\+" if norm else r"kPa, slab"
    size = np.ptp(x) / 10 + h / 10
    info = {"field": field, "options": d}
    # slab field on the displaced slab
    tiny = 1e-7 * {"u": 1e3 * np.max(np.abs(W)), "w": 0.0}.get(field, 1e3 * np.max(np.abs(obs.weak(m, z)[0])) / (2.6 if token == r"sigma_\+" else 1))
    ok = False
    cand = [c for c in contours if c[0].shape == Xd.shape]
    mis = [np.mean(np.where(np.isfinite(c[0] + c[1]), np.abs(c[0] - Xd) + np.abs(c[1] - Zd), 1e9)) for c in cand]
    mine = cand[int(np.argmin(mis))] if cand else None
    for CX, CZ, CV, lev, _ in [mine] if cand else []:
        if CX.shape == Xd.shape:
            ok = True
            mon.le("contour", np.abs(CX - Xd).ravel() / size, 1e-7, {**info, "what": "slab x"})
            mon.le("contour", np.abs(CZ - Zd).ravel() / size, 1e-7, {**info, "what": "slab z"})
            mon.close("contour", CV, slab, 1e-6, tiny, detail={**info, "what": "slab values"})
    mon.true("contour-slab", ok, {**info, "shapes": [c[0].shape for c in contours], "want": Xd.shape})
    f = np.isfinite(xb)
    ok = False
    for CX, CZ, CV, lev, _ in contours:
        if CX.shape == (2, xb.size) and not (mine and CX is mine[0]):
            ok = True
            mon.true("contour-mask", not np.any(np.isfinite(CX[:, ~f]) & np.isfinite(CZ[:, ~f]) & np.isfinite(CV[:, ~f])), info)
            mon.le("contour", np.abs(CX[:, f] - np.vstack([xb / 10 + scale * U[-1] / 10, xb / 10])[:, f]).ravel() / size, 1e-7, {**info, "what": "weak x"})
            mon.le("contour", np.abs(CZ[0, f] - Zd[-1, f]).ravel() / size, 1e-7, {**info, "what": "weak z top"})
            mon.le("contour", np.abs(CZ[1, f] - zmax).ravel() / size, 1e-7, {**info, "what": "weak z bottom"})
            for row in range(2):
                mon.close("contour", CV[row, f], weak[f], 1e-6, tiny, detail={**info, "what": "weak values"})
    mon.true("contour-weak", ok, {**info, "shapes": [c[0].shape for c in contours]})
    # colour levels: symmetric, shared, adequate
    both = np.concatenate([slab.ravel(), weak[f]])
    top = np.max(np.abs(both))
    for c in contours:
        lev = c[3]
        mon.le("levels", np.abs(lev + lev[::-1]) / np.max(np.abs(lev)), 1e-9, info)
        mon.true("levels-shared", np.array_equal(lev, contours[0][3]), info)
        mon.true("levels-number", lev.size == levels + 1, {**info, "got": lev.size})
        mon.true("colours", c[4] == contours[0][4] and len(set(c[4])) == 5, {**info, "colours": c[4], "of the other": contours[0][4]})
    # weak-layer values next to a crack may exceed the scale (drawn in the over/under colours), those of the slab not
    top_all = max(top, np.max(np.abs(weak)))
    mon.counts["zero-field"] += bool(top_all == 0)
    mon.true("levels-range", contours and contours[0][3][-1] > 0 and 0.6 * np.max(np.abs(slab)) <= contours[0][3][-1] <= (1.5 * top_all if top_all > 0 else np.inf), {**info, "lev": contours[0][3][-1] if contours else None, "max": [top, top_all]})
    # outlines
    mon.true("outline", any(covers(c, outline_set(Xd, Zd), 1e-6 * size) for c in fig["curves"]), {**info, "what": "deformed"})
    mon.true("outline", any(covers(c, outline_set(X, Z), 1e-6 * size) for c in fig["curves"]), {**info, "what": "undeformed"})
    # outline of the bonded weak layer where a cut leaves one end of it free; no other curves
    left = [c for c in fig["curves"] if not covers(c, outline_set(Xd, Zd), 1e-6 * size) and not covers(c, outline_set(X, Z), 1e-6 * size)]
    if o.system in ("-pst", "pst-", "-vpst", "vpst-") and np.count_nonzero(f) > 2:
        WX, WZ = np.vstack([(xb + scale * U[-1])[f], xb[f]]) / 10, np.vstack([Zd[-1, f], np.full(np.count_nonzero(f), zmax)])
        mine = [c for c in left if covers(c, outline_set(WX, WZ), 1e-6 * size)]
        mon.true("weak outline", mine, {**info, "drawn": [[c[0][:4], c[1][:4]] for c in left]})
        left = [c for c in left if c not in mine]
    elif o.system in ("skier", "skiers"):
        mon.true("no other outline", not left, {**info, "extra": [[c[0][:4], c[1][:4]] for c in left]})
    mon.true("background", (np.mean(fig["face"]) < 0.5) == bool(d.get("dark")), {**info, "face": fig["face"]})
    mon.true("axis-label", any("x$ (cm)" in s for s in fig["labels"]) and any("(cm)" in s and "d$" in s for s in fig["labels"]), {**info, "labels": fig["labels"]})
    mon.true("baseline", any(abs(v - zmax) <= 1e-6 * size for v in fig["hlines"]), {**info, "want": zmax, "drawn": fig["hlines"]})
    # shown region
    i = int(np.argmax(z[2]))
    near = np.where(z[2] >= np.max(z[2]) - 1e-6 * np.max(np.abs(z[2])))[0]
    lo, hi = min(X.min(), Xd.min()) - pad, max(X.max(), Xd.max()) + pad
    good = False
    for j in near:
        wl, wh = max(lo, x[j] / 10 - window / 2), min(hi, x[j] / 10 + window / 2)
        good = good or (abs(fig["xlim"][0] - wl) <= 1e-6 * size and abs(fig["xlim"][1] - wh) <= 1e-6 * size)
    mon.true("window" if np.isfinite(window) else "view", good, {**info, "xlim": fig["xlim"], "want": [wl, wh]})
    mon.le("depth-axis", np.abs(np.array(fig["ylim"]) - [zmax, Z.min() - pad]) / size, 1e-6, {**info, "ylim": fig["ylim"]})
    mon.true("aspect", fig["aspect"] == d.get("aspect", 2), {**info, "got": fig["aspect"]})
    mon.true("colorbar-label", any(re.search(token, s) for s in fig["labels"]), {**info, "labels": fig["labels"]})
    mon.true("title", str(scale) in fig["title"], {**info, "title": fig["title"]})


def run(sc, mon):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import weac
    from weac import plot
    rng = np.random.default_rng(sc["seed"])
    o = gen.instance(sc)
    segs = o.calc_segments(phi=sc["phi"], **gen.segkw(sc))[sc["config"]]
    C = o.assemble_and_solve(phi=sc["phi"], **segs)
    x, z, xb = gen.raster(o, sc, segs, C, sc["num"])
    m = gen.features(sc, mon, segs)
    phi = sc["phi"]
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="rv-p23-")
    marks = {k: segs[k] for k in ("li", "mi", "ki")}
    da = np.linspace(5, 700, 90)
    G1, G2 = np.abs(rng.normal(size=(3, 90))).cumsum(axis=1), np.abs(rng.normal(size=(3, 90))).cumsum(axis=1)
    fea = rng.normal(size=(150, 6))
    fea[:, 0] = np.linspace(0, 5000, 150)
    sig, tau = obs.weak(m, z)
    N, M, V = obs.section(m, z)
    crit = np.abs(sig) / 0.0026
    i = gen.pick(rng, "", 3, "_b")
    u0, w, psi = [x / 10, z[0], r"u_0"], [x / 10, -z[2], r"-w"], [x / 10, np.degrees(z[4]), r"\\psi"]
    st = [[xb / 10, np.where(np.isfinite(xb), 1e3 * tau, np.nan), r"\\tau"], [xb / 10, np.where(np.isfinite(xb), 1e3 * sig, np.nan), r"\\sigma"]]
    mode, kind = int(gen.pick(rng, 0, 0, 1, 2)), gen.pick(rng, "inc", "dif", None)
    free = plot_arguments(rng, x, z, xb, sig)
    calls = {
        "displacements": (lambda: plot.displacements(o, x, z, **({} if i == "" else {"i": i}), **marks), f"disp{i}", [u0, w, psi], True),
        "section_forces": (lambda: plot.section_forces(o, x, z, i=i, **marks), f"forc{i}", [[x / 10, N, "N"], [x / 10, M, "M"], [x / 10, V, "V"]], True),
        "stresses": (lambda: plot.stresses(o, xb, z, i=i, **marks), f"stress{i}", st, True),
        "stress_criteria": (lambda: plot.stress_criteria(xb, crit, **marks), "crit", [[xb / 10, crit, r"\\sigma_"]], True),
        "err_comp": (lambda: plot.err_comp(da, G1, G2, *([] if mode == 0 and rng.random() < 0.5 else [mode])), "err", [[da / 10, 1e3 * G1[mode], r"^\$\\mathcal"], [da / 10, 1e3 * G2[mode], r"bar"]], False),
        "err_modes": (lambda: plot.err_modes(da, G1, **({} if kind is None else {"kind": kind})), "modes",
                      [[da / 10, 1e3 * G1[0], r"I\+I"], [da / 10, 1e3 * G1[1], r"\{I\}"], [da / 10, 1e3 * G1[2], r"\{I(\\!)?I\}"]], False),
        "fea_disp": (lambda: plot.fea_disp(o, x, z, fea), "fea_disp", None, False),
        "fea_stress": (lambda: plot.fea_stress(o, xb, z, fea), "fea_stress", None, False),
        "plot_data": (lambda: plot.plot_data(free["name"], free["left"], free["label"], **free["kw"], **(marks if free["marks"] else {})), free["name"],
                      [[a, b, c] for a, b, c in free["left"] + free["kw"].get("ax2data", []) if c], free["marks"] and free["kw"].get("vlines", True)),
        "slab_profile": (lambda: plot.slab_profile(o), "profile", None, False),
    }
    names = list(calls)
    names = [names[int(k)] for k in rng.permutation(len(names))[:4]] + ["displacements" if rng.random() < 0.5 else "stresses"]
    for d in sc["def"]:
        names.insert(int(rng.integers(len(names) + 1)), d)
    style = {k: v for k, v in mpl.rcParamsDefault.items() if k not in ("backend", "backend_fallback", "interactive", "toolbar", "timezone", "datapath", "docstring.hardcopy")}
    try:
        os.chdir(tmp)
        plt.close("all")
        for item in names:
            d = item if isinstance(item, dict) else None
            fn = "deformed" if d is not None else item
            if d is not None:
                kw = dict(d)
                f, name, want, mk = (lambda: plot.deformed(o, xsl=x, xwl=xb, z=z, phi=phi, **kw)), d.get("filename", "cont"), None, False
                mon.tag("field:" + d.get("field", "principal"))
                mon.counts["all defaults"] += "field" not in d
                mon.counts["dark"] += bool(d.get("dark"))
            else:
                f, name, want, mk = calls[item]
            mon.counts["fn:" + fn] += 1
            if rng.random() < 0.3:
                plt.rcParams["lines.linewidth"] = 7.0
                plt.rcParams["axes.facecolor"] = "yellow"
            before = [pickle.dumps(vars(o)), x.tobytes(), xb.tobytes(), z.tobytes(), pickle.dumps(segs), G1.tobytes(), G2.tobytes(), fea.tobytes(), crit.tobytes(), da.tobytes()]
            listing = {p: os.stat(os.path.join("plots", p)).st_mtime_ns for p in (os.listdir("plots") if os.path.isdir("plots") else [])}
            if d is not None and rng.random() < 0.15:
                try:
                    plot.deformed(o, xsl=x, xwl=xb, z=z, phi=phi, **{**d, "dz": 100.0, "field": gen.pick(rng, "sxx", "v", "", "Sxz", "Principal", "W")})
                    mon.true("unknown field", False, "accepted")
                except ValueError:
                    mon.true("unknown field", True)
                plt.close("all")
                mpl.rcdefaults()
            with Watch() as watch:
                f()
            after = [pickle.dumps(vars(o)), x.tobytes(), xb.tobytes(), z.tobytes(), pickle.dumps(segs), G1.tobytes(), G2.tobytes(), fea.tobytes(), crit.tobytes(), da.tobytes()]
            for a, b, what in zip(before, after, ("model", "x", "x", "z", "segments", "G", "G", "fea", "stress", "da")):
                mon.true("model" if what == "model" else "inputs", a == b, {"fn": fn, "changed": what})
            mon.true("closed", not plt.get_fignums(), {"fn": fn, "open": plt.get_fignums()})
            bad = [k for k, v in style.items() if mpl.rcParams[k] != v]
            mon.true("style", not bad, {"fn": fn, "options": d, "keys": bad})
            mon.true("cwd", os.path.realpath(os.getcwd()) == os.path.realpath(tmp) and os.listdir(".") == ["plots"], {"fn": fn, "dir": os.listdir(".")})
            now = {p: os.stat(os.path.join("plots", p)).st_mtime_ns for p in (os.listdir("plots") if os.path.isdir("plots") else [])}
            written = sorted(p for p in now if now[p] != listing.get(p))
            mon.true("file", written == [name + ".png"], {"fn": fn, "written": written, "want": name + ".png"})
            for p in written:
                with open(os.path.join("plots", p), "rb") as fh:
                    mon.true("png", fh.read(8) == b"\x89PNG\r\n\x1a\n", p)
            mon.true("figures", len(watch.figs) == 1, {"fn": fn, "figures": len(watch.figs)})
            if len(watch.figs) != 1:
                continue
            fig = watch.figs[0]
            mon.counts["figure"] += 1
            if d is not None:
                check_deformed(mon, o, m, fig, watch.contours, x, xb, z, phi, d)
            elif want:
                if fn == "plot_data":
                    check_free(mon, fig, free)
                check_lines(mon, fig, want, fn)
                mon.true("zero line", len(fig["hlines"]) == 1 and abs(fig["hlines"][0]) < 1e-12, {"fn": fn, "hlines": fig["hlines"]})
                mon.true("in view", not fig["outside"], {"fn": fn, "curve and limits": fig["outside"]})
                if fn == "err_modes":
                    bars = [("bar" in t[0]) == (kind != "dif") for t in fig["texts"]]
                    mon.true("kind", all(bars), {"kind": kind, "texts": [t[0] for t in fig["texts"]]})
                if mk:
                    check_marks(mon, fig, segs, fn)
                elif fn == "plot_data":
                    if not free["kw"].get("vlines", True):
                        mon.true("no-marks", not fig["vlines"] and not fig["spans"], {"fn": fn})
                    mon.true("axis-label", [free["kw"].get("xlabel", "x$ (cm)"), free["label"]] == [t for t, s in zip([free["kw"].get("xlabel", "x$ (cm)"), free["label"]], fig["labels"]) if t in s]
                             and (not free["kw"].get("ax2data") or any(free["kw"]["ax2label"] in s for s in fig["labels"])), {"fn": fn, "labels": fig["labels"]})
                    continue
                elif fn.startswith("err"):
                    mon.true("no-marks", not fig["vlines"] and not fig["spans"], {"fn": fn})
                unit = {"displacements": "isplacement", "section_forces": "force", "stresses": r"kPa", "stress_criteria": "riteria", "plot_data": re.escape(free["label"]), "err_comp": "J/m", "err_modes": "J/m"}[fn]
                mon.true("axis-label", any(re.search(unit, s) for s in fig["labels"]) and (fn == "plot_data" or any("(cm)" in s for s in fig["labels"])), {"fn": fn, "labels": fig["labels"]})
            elif fn.startswith("fea"):
                own = [u0, w, psi] if fn == "fea_disp" else st
                xf = fea[:, 0] / 10
                theirs = [[fea[:, 1], 1], [fea[:, 2], 1], [fea[:, 5], 180 / np.pi]] if fn == "fea_disp" else [[fea[:, 2], 1e3], [fea[:, 3], 1e3]]
                rest, seen = [], set()
                for c in fig["curves"]:
                    hit = [k for k, (v, s) in enumerate(theirs) if c[0].shape == xf.shape and np.allclose(c[0], xf) and np.allclose(np.sort(np.abs(c[1])), np.sort(np.abs(v * s)))]
                    rest += [] if hit else [c]
                    mon.counts["fea-curve"] += bool(hit)
                    seen.update(hit)
                    if hit:
                        mon.true("fea label", any(t[1] == c[2] and "FEA" in t[0] for t in fig["texts"]), {"fn": fn, "texts": fig["texts"]})
                mon.true("fea-curves", len(fig["curves"]) - len(rest) == len(theirs) == len(seen), {"fn": fn, "found": len(fig["curves"]) - len(rest)})
                mon.true("fea told apart", len(rest) and not {(c[2], c[3]) for c in rest} & {(c[2], c[3]) for c in fig["curves"] if not any(c is r for r in rest)}, {"fn": fn})
                check_lines(mon, dict(fig, curves=rest), own, fn, labelled=True)
            else:
                check_profile(mon, fig, m)
    finally:
        os.chdir(here)
        plt.close("all")
        mpl.rcdefaults()
        shutil.rmtree(tmp, ignore_errors=True)


def plot_arguments(rng, x, z, xb, sig):
    """Random arguments of the general plot function."""
    names = [r"alpha", r"beta", r"gamma", r"delta"]
    left = [[x / 10, float(rng.uniform(0.5, 2)) * z[k], names[j]] for j, k in enumerate(rng.permutation(6)[:int(rng.integers(1, 4))])]
    if rng.random() < 0.5:
        left.append([x / 10, z[1] + z[2], gen.pick(rng, "", "FEA reference")])
    kw = {}
    if rng.random() < 0.6:
        kw["ax2data"], kw["ax2label"] = [[xb / 10, np.where(np.isfinite(xb), 3.0 * sig, np.nan), "omega"]], "second scale"
        if np.count_nonzero(np.isfinite(xb)) < 0.99 * xb.size:      # label position is shared: needs as many points
            kw["ax2data"][0][:2] = x / 10, 7.0 * z[3]
    if rng.random() < 0.4:
        kw["labelpos"] = int(rng.integers(30, 50))
    if rng.random() < 0.4:
        kw["vlines"] = bool(rng.random() < 0.4)
    if rng.random() < 0.3:
        kw["xlabel"] = "abscissa"
    return {"name": gen.pick(rng, "general", "d_3"), "left": left, "label": "first scale", "kw": kw, "marks": bool(rng.random() < 0.6)}


def check_free(mon, fig, free):
    dotted = [c for c in free["left"] if c[2] in ("", "FEA reference")]
    for x, y, _ in dotted:
        hit = [c for c in fig["curves"] if same(c, x, y)]
        mon.true("reference curve", hit, "missing")
        other = {c[3] for c in fig["curves"] if not any(c is h for h in hit)}
        mon.true("reference told apart", not hit or hit[0][3] not in other, {"styles": [c[3] for c in fig["curves"]]})
        fig["curves"] = [c for c in fig["curves"] if not any(c is h for h in hit) or free["left"][-1][2]]
    for x, y, _ in free["kw"].get("ax2data", []):
        hit = [c for c in fig["curves"] if same(c, x, y)]
        mon.true("second scale", hit and all(c[4] == "right" for c in hit) and all(c[4] == "left" for c in fig["curves"] if not any(c is h for h in hit)), {"sides": [c[4] for c in fig["curves"]]})
    mon.true("second scale", len([1 for c in fig["curves"] if c[4] == "right"]) == len(free["kw"].get("ax2data", [])), "curves on the right axis")


def check_profile(mon, fig, m):
    """Area between zero and the density of each layer, stacked from the weak layer up."""
    rho, h = np.asarray(m.lam.rho, float), np.asarray(m.lam.t, float)
    top = np.concatenate([[0], np.cumsum(h[::-1])])
    if not mon.true("profile", len(fig["polys"]) >= 1, "nothing drawn"):
        return
    V = np.vstack(fig["polys"])
    for k, r in enumerate(rho[::-1]):
        for y in (top[k], top[k + 1]):
            mon.true("profile-corner", np.min(np.hypot(V[:, 0] - r, V[:, 1] - y)) <= 1e-6 * (top[-1] + r), {"density": r, "height": y, "layer": k})
    ok = [min(abs(v[0]), np.min(np.abs(v[0] - rho))) <= 1e-6 * rho.max() for v in V]
    mon.true("profile-extra", all(ok), "other corner drawn")
    # area = mass
    A = 0.0
    for P in fig["polys"]:
        a, b = P[:, 0], P[:, 1]
        A += abs(np.sum(a[:-1] * b[1:] - a[1:] * b[:-1]) + a[-1] * b[0] - a[0] * b[-1]) / 2
    mon.close("profile-area", A, np.sum(rho * h), 1e-6)
    mon.true("axis-label", any("ensity" in s for s in fig["labels"]) and any("mm" in s for s in fig["labels"]), fig["labels"])
    mon.true("profile-axis", fig["xlim"][0] > fig["xlim"][1] and fig["xlim"][0] >= rho.max() and fig["xlim"][1] <= 0, fig["xlim"])
