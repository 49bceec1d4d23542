"""P38: plot and environment helpers keep their documented contracts."""
import colorsys, json, os, subprocess, sys, tempfile, time
import numpy as np
from rv import core, gen

RULE = ("random arguments of the public helper functions (midpoint normalization, outline, significant digits, tight central distribution, colour lightness, styles, clock, environment detection "
        "and saving of figures); every contract of the documentation is checked on the observed result; non-trivial = one contract checked")
REQUIRED = {"midpoint": 400, "order": 400, "symmetry": 400, "range": 400, "outline": 400, "digits": 400, "distribution": 400, "tightness": 300, "lightness": 400, "hue": 100, "colour forms": 100,
            "clock": 100, "styles": 100, "environment": 3, "save": 20}
N = {"quick": 800, "thorough": 16000}
CASE_TIMEOUT = 120
COLOURS = ["red", "navy", "skyblue", "k", "w", "tab:orange", "gold", "#123456", "#DCDCDC", "C3", "0.4", (0.2, 0.5, 0.7), (1.0, 0.0, 0.5), (0.1, 0.1, 0.1)]
SHELLS = [("ZMQInteractiveShell", True), ("TerminalInteractiveShell", False), ("OtherShell", False), (None, False)]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        out.append({"seed": int(rng.integers(1 << 30)), "system": "none", "shell": i // 100 if i % 100 == 0 and i // 100 < 4 else None, "save": i % 20 == 0})
    return out


def midpoint(rng, mon, plot):
    mid = float(gen.pick(rng, 0.0, rng.normal() * 10, rng.integers(-5, 5)))
    lo, hi = mid - gen.logu(rng, 1e-3, 1e3), mid + gen.logu(rng, 1e-3, 1e3)
    norm = plot.MidpointNormalize(vmin=lo, vmax=hi, midpoint=mid) if mid or rng.random() < 0.5 else plot.MidpointNormalize(lo, hi)
    d = {"vmin": lo, "vmax": hi, "midpoint": mid}
    mon.close("midpoint", norm(mid), 0.5, 1e-12, 1.0, d)
    mon.close("midpoint", norm(np.array([mid, mid])), [0.5, 0.5], 1e-12, 1.0, d)
    shape = gen.pick(rng, (7,), (3, 4), (1,))
    v = rng.uniform(lo, hi, shape)
    y = np.asarray(norm(v), float)
    mon.true("range", y.shape == v.shape and np.all(y >= 0) and np.all(y <= 1), d)
    k = np.argsort(v, axis=None)
    mon.true("order", np.all(np.diff(y.ravel()[k]) >= 0), {**d, "v": v, "y": y})
    # the farther limit gets the end of the colour map, equal distances get colours equally far from the centre
    far = max(mid - lo, hi - mid)
    mon.close("symmetry", y, 0.5 + 0.5 * (v - mid) / far, 1e-9, 1.0, d)
    mon.close("range", norm(np.array([lo, hi])), 0.5 + 0.5 * np.array([lo - mid, hi - mid]) / far, 1e-9, 1.0, d)
    mon.true("range", isinstance(norm, __import__("matplotlib").colors.Normalize) and norm.vmin == lo and norm.vmax == hi, d)


def outline(rng, mon, plot):
    m, n = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    flat = np.asarray(plot.outline(np.arange(m * n).reshape(m, n)))
    i, j = flat // n, flat % n
    ok = flat.ndim == 1 and flat[0] == flat[-1] and np.all(np.abs(np.diff(i)) + np.abs(np.diff(j)) == 1)
    edge = {r * n + c for r in range(m) for c in range(n) if r in (0, m - 1) or c in (0, n - 1)}
    ok = ok and set(flat.tolist()) == edge and len(set(flat.tolist())) == flat.size - 1
    mon.true("outline", ok, {"shape": (m, n), "walk": flat})
    g = rng.normal(size=(m, n))
    mon.close("outline", plot.outline(g), g.ravel()[flat], 0.0, 0.0, {"shape": (m, n)})


def digits(rng, mon, plot):
    e = int(rng.integers(-9, 7))
    mant = float(gen.pick(rng, rng.uniform(1.001, 9.99), 2.0, 5.0))
    d = mant * 10.0**e
    k = plot.significant_digits(d)
    mon.true("digits", k == -e and isinstance(k, (int, np.integer)), {"decimal": d, "digits": k})
    mon.true("digits", plot.significant_digits(0.001) == 3 and plot.significant_digits(0.1) == 1 and plot.significant_digits(1.0) == 0, "powers of ten")
    r = round(d, k)
    mon.true("digits", abs(r - d) <= 0.5 * 10.0**e * (1 + 1e-9) and r > 0, {"decimal": d, "rounded": r})


def distribution(rng, mon, plot):
    limit = gen.logu(rng, 1e-3, 1e4)
    samples = int(gen.pick(rng, 100, 2 * rng.integers(3, 200), 2 * rng.integers(3, 30) + 1))
    tight = float(gen.pick(rng, 1.5, 1.0, 2.0, 3.0, rng.uniform(1.0, 4.0)))
    kw = {}
    if samples != 100 or rng.random() < 0.5:
        kw["samples"] = samples
    if tight != 1.5 or rng.random() < 0.5:
        kw["tightness"] = tight
    v = np.asarray(plot.tight_central_distribution(limit, **kw), float)
    d = {"limit": limit, "samples": samples, "tightness": tight}
    if not mon.true("distribution", v.ndim == 1 and v.size == 2 * (samples // 2) - 1, {**d, "size": v.size}):
        return
    mon.true("distribution", np.all(np.diff(v) > 0), d)
    mon.close("distribution", v, -v[::-1], 1e-12, limit, d)
    mon.close("distribution", [v[0], v[v.size // 2], v[-1]], [-limit, 0, limit], 1e-9, limit, d)
    # densified like a power law
    n = samples // 2
    mon.close("tightness", v[n - 1:], limit * np.linspace(0, 1, n)**tight, 1e-9, limit, d)
    gaps = np.diff(v[n - 1:])
    mon.true("tightness", np.all(np.diff(gaps) >= -1e-9 * limit), d)


def lightness(rng, mon, plot):
    import matplotlib.colors as mc
    c = COLOURS[int(rng.integers(len(COLOURS)))] if rng.random() < 0.6 else tuple(float(x) for x in rng.uniform(0, 1, 3))
    amount = float(gen.pick(rng, 0.5, 1.0, 0.0, rng.uniform(0, 3), 1.5))
    got = plot.adjust_lightness(c) if amount == 0.5 and rng.random() < 0.5 else plot.adjust_lightness(c, amount)
    d = {"colour": c, "amount": amount, "got": got}
    rgb = mc.to_rgb(c)
    h, l, s = colorsys.rgb_to_hls(*rgb)
    if not mon.true("lightness", len(got) == 3 and all(-1e-12 <= x <= 1 + 1e-12 for x in got), d):
        return
    h2, l2, s2 = colorsys.rgb_to_hls(*[min(1.0, max(0.0, float(x))) for x in got])
    want = max(0.0, min(1.0, amount * l))
    mon.close("lightness", l2, want, 1e-9, 1.0, d)
    if 0.02 < want < 0.98 and s > 0.02:
        mon.true("hue", min(abs(h - h2), 1 - abs(h - h2)) < 1e-6 and abs(s - s2) < 1e-6, {**d, "hue": (h, h2), "saturation": (s, s2)})
    if amount == 1:
        mon.close("lightness", got, rgb, 1e-9, 1.0, d)
    # the same colour in other forms
    for f in (mc.to_hex(rgb), rgb):
        mon.close("colour forms", plot.adjust_lightness(f, amount), got, 0.02, 1.0, {**d, "form": f})


def environment(mon, k):
    """A shell that looks like another one, in a process of its own."""
    shell, want = SHELLS[k]
    code = ("import sys, types, json, builtins, os\n"
            f"sys.path.insert(0, {core.REPO!r})\n"
            f"name = {shell!r}\n"
            "if name:\n"
            "    from unittest.mock import MagicMock\n"
            "    shell = type(name, (MagicMock,), {})()\n"
            "    m = types.ModuleType('IPython'); m.get_ipython = lambda: shell; m.version_info = (8, 24, 0); m.__version__ = '8.24.0'\n"
            "    m.core = types.ModuleType('IPython.core'); c = types.ModuleType('IPython.core.getipython'); c.get_ipython = m.get_ipython; m.core.getipython = c\n"
            "    sys.modules.update({'IPython': m, 'IPython.core': m.core, 'IPython.core.getipython': c})\n"
            "    builtins.get_ipython = m.get_ipython\n"
            "import weac, weac.tools, weac.plot\n"
            "import matplotlib.pyplot as plt\n"
            "shown = []\n"
            "plt.show = lambda *a, **k: shown.append(1)\n"
            "flag = weac.tools.isnotebook()\n"
            "plt.plot([1, 2]); weac.plot.save_plot('thing')\n"
            "print('RESULT' + json.dumps([bool(flag), len(shown), os.path.exists('plots/thing.png')]))\n")
    with tempfile.TemporaryDirectory(prefix="rv_p38_") as d:
        r = subprocess.run([sys.executable, "-c", code], cwd=d, capture_output=True, text=True, timeout=100, env={**os.environ, "MPLBACKEND": "Agg", "MPLCONFIGDIR": d})
        line = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
        got = json.loads(line[0][6:]) if line else None
    mon.true("environment", got == [want, int(want), not want], {"shell": shell, "notebook, shown, saved": got, "stderr": r.stderr[-300:]})


def save(rng, mon, plot):
    """A figure is written to plots/NAME.png below the working directory, whether or not that exists."""
    import matplotlib.pyplot as plt
    name = "f%d" % int(rng.integers(1 << 30))
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="rv_p38_") as d:
        try:
            os.chdir(d)
            there = bool(rng.random() < 0.5)
            if there:
                os.mkdir("plots")
                open("plots/other.png", "w").write("x")
            for _ in range(2):                      # also over an existing file
                plt.figure(figsize=(2, 2))
                plt.plot([0, 1], [1, 0])
                plot.save_plot(name)
            files = sorted(os.path.join(p, f) for p, _, fs in os.walk(".") for f in fs)
            want = [f"./plots/{name}.png"] + (["./plots/other.png"] if there else [])
            ok = files == sorted(want) and open(want[0], "rb").read(8) == b"\x89PNG\r\n\x1a\n"
            mon.true("save", ok, {"files": files})
            if there:
                mon.true("save", open("plots/other.png").read() == "x", "other files")
        finally:
            os.chdir(old)
            plt.close("all")


def run(sc, mon):
    from weac import plot, tools
    import matplotlib.colors as mc
    rng = np.random.default_rng(sc["seed"])
    for _ in range(3):
        for f in (midpoint, outline, digits, distribution, lightness):
            f(rng, mon, plot)
    a0 = time.perf_counter()
    t0 = tools.time()
    a1 = time.perf_counter()
    time.sleep(float(rng.uniform(0, 4e-3)))
    b0 = time.perf_counter()
    t1 = tools.time()
    b1 = time.perf_counter()
    mon.true("clock", (b0 - a1) * 1e3 * 0.999 - 0.05 <= t1 - t0 <= (b1 - a0) * 1e3 * 1.001 + 0.05, {"ms": t1 - t0, "between": [(b0 - a1) * 1e3, (b1 - a0) * 1e3]})
    style, colors = plot.set_plotstyles()
    colors = np.asarray(colors)
    mon.true("styles", isinstance(style, dict) and colors.ndim == 2 and all(mc.is_color_like(str(c)) for c in colors.ravel()), "styles")
    if sc["save"]:
        save(rng, mon, plot)
    if sc["shell"] is not None:
        environment(mon, sc["shell"])
