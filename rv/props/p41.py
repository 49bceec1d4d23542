"""P41: the published workflows (demo notebook, README) run as written, for other inputs, and give the results of their system."""
import ast, contextlib, io, json, os, re, shutil, sys, tempfile
import numpy as np
from rv import core, gen, obs

RULE = ("the code of the demo notebook and of the README executed in a scratch folder, once as published and otherwise with its inputs (profile, lengths, "
        "inclination, skiers, supports) exchanged for random ones; the variables left behind are judged by an independently solved model, the "
        "published run also by the numbers printed in the notebook; non-trivial = a workflow that ran to its end")
REQUIRED = {"ran": 45, "published": 12, "skier": 5000, "pst": 5000, "skiers": 5000, "outputs": 5000, "gdif": 150, "ginc": 150, "readme": 5000, "figures": 300}
N = {"quick": 48, "thorough": 960}
CASE_TIMEOUT = 400


def cases(rng, tier):
    out = [{"kind": "published", "phi": 30.0, "layers": [[240, 200]], "system": "skier"}]
    for i in range(N[tier]):
        rows = [[float(rng.uniform(100, 400)), float(rng.uniform(10, 160))] for _ in range(int(rng.integers(1, 8)))]
        sc = {"kind": "readme" if i % 4 == 3 else "demo", "layers": rows, "phi": gen.phi(rng, 50), "system": "skier"}
        n = int(rng.integers(2, 8))
        far = [float(rng.uniform(5e3, 9e3)) for _ in range(2)]
        li = [far[0]] + [float(gen.pick(rng, 300, gen.logu(rng, 20, 3000))) for _ in range(n - 2)] + [far[1]]
        ki = [True] + [bool(rng.random() < 0.6) for _ in range(n - 2)] + [True]
        mi = [float(gen.pick(rng, 0, 80, rng.uniform(20, 300))) for _ in range(n - 1)]
        sc["in"] = {"myprofile": [rows], "totallength": [float(rng.uniform(8e3, 3e4)), float(rng.uniform(1500, 4000)), float(rng.uniform(900, 2000))],
                    "cracklength": [float(gen.pick(rng, 0, rng.uniform(20, 900))), float(rng.uniform(20, 800)), float(rng.uniform(50, 600))],
                    "inclination": [gen.phi(rng, 50) for _ in range(3)] + [sc["phi"]], "skierweight": [float(rng.uniform(0, 200))],
                    "li": [li], "ki": [ki], "mi": [mi], "n": [int(rng.integers(4, 16))]}
        sc["profile"] = gen.pick(rng, *"ABCDEF")
        sc["readme"] = {"L": float(rng.uniform(8e3, 3e4)), "a": float(gen.pick(rng, 0, rng.uniform(20, 900))), "m": float(rng.uniform(0, 200))}
        out.append(sc)
    return out


class Exchange(ast.NodeTransformer):
    """Exchange the inputs of the notebook, in the order in which it assigns them."""

    def __init__(self, values, profile):
        self.values, self.profile, self.seen = values, profile, {}

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            k = self.seen.setdefault(name, 0)
            if k < len(self.values.get(name, ())):
                self.seen[name] += 1
                node.value = ast.copy_location(ast.parse(repr(self.values[name][k]), mode="eval").body, node.value)
                return ast.fix_missing_locations(node)
        return self.generic_visit(node)

    def visit_Constant(self, node):
        if node.value == "profile B":
            return ast.copy_location(ast.Constant("profile " + self.profile), node)
        return node


@contextlib.contextmanager
def scratch():
    import matplotlib.pyplot as plt
    here, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
    d = tempfile.mkdtemp(prefix="rv_p41_")
    flag, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        os.mkdir(os.path.join(d, "demo"))
        os.symlink(os.path.join(core.REPO, "examples"), os.path.join(d, "examples"))
        os.chdir(os.path.join(d, "demo"))
        with contextlib.redirect_stdout(io.StringIO()) as text:
            yield text
    finally:
        plt.close("all")
        os.chdir(here)
        sys.path[:] = path
        sys.dont_write_bytecode = flag
        sys.modules.pop("criterion_check", None)
        shutil.rmtree(d, ignore_errors=True)


def run(sc, mon):
    gen.features(sc, mon)
    with scratch() as text:
        if sc["kind"] == "readme":
            readme(sc, mon)
        else:
            notebook(sc, mon, text)


def notebook(sc, mon, text):
    with open(os.path.join(core.REPO, "demo", "demo.ipynb"), encoding="utf8") as f:
        cells = [c for c in json.load(f)["cells"] if c["cell_type"] == "code"]
    other = sc["kind"] == "demo"
    ex = Exchange(sc["in"], sc["profile"]) if other else None
    g, stages = {"__name__": "__main__"}, []
    for k, c in enumerate(cells):
        src = "".join(line for line in c["source"] if not line.startswith("%"))
        if other and "criterion_check" in src:
            break
        tree = ast.parse(src)
        if ex:
            tree = ex.visit(tree)
        start = text.tell()
        try:
            exec(compile(tree, f"cell {k}", "exec"), g)
        except Exception as e:
            mon.true("ran", False, {"cell": src[:400], "error": repr(e)})
            return
        if "weac.plot." in src:
            judge_figure(mon, src)
        printed = numbers(text.getvalue()[start:])
        want = numbers("".join("".join(o["text"]) for o in c.get("outputs", ()) if o.get("name") == "stdout"))
        if want and not other:
            if mon.true("published", [a for a, _ in printed] == [a for a, _ in want], {"printed": printed, "published": want}):
                for (a, x), (_, y) in zip(printed, want):
                    if isinstance(y, bool):
                        mon.true("published", x is y, {"quantity": a, "printed": x, "published": y})
                    else:       # the searches stop within 2 per mille of their target
                        mon.le("published", abs(x - y) / abs(y), 5e-3, {"quantity": a, "printed": x, "published": y})
        stages.append(dict(g))
    mon.true("ran", True)
    if other:
        want = sc["in"]
        rows, phis = want["myprofile"][0], want["inclination"]
    else:
        # the inputs as they stand in the notebook
        rows, phis = [[170, 100], [190, 40], [230, 130], [250, 20], [210, 70], [380, 20], [280, 100]], [30, -38, 30, -20]
    g = stages[-1]
    profile = sc.get("profile", "B")
    for name, cx, phi, system, layers in (("skier", "skier", phis[0], "skier", [[240, 200]]), ("pst", "pst", phis[1], "pst-", rows),
                                          ("skiers", "skiers", phis[3], "skiers", "profile " + profile.lower())):
        one = {"layers": layers, "phi": phi, "system": system}
        solution(mon, name, one, g["seg_" + cx], g["xsl_" + cx], g["z_" + cx], g["xwl_" + cx])
    one = {"layers": "profile " + profile.lower(), "phi": phis[3], "system": "skiers"}
    outputs(mon, one, g)
    one = {"layers": rows, "phi": phis[2], "system": "pst-"}
    err = next(s for s in stages if "Ginc" in s)
    rates(mon, one, err)
    if other:
        seg = g["seg_skier"]
        mon.true("segments", abs(sum(seg["li"]) - want["totallength"][0]) < 1e-6 and abs(sum(np.asarray(seg["li"])[~np.asarray(seg["ki"], bool)])
                 - want["cracklength"][0]) < 1e-6 and abs(sum(seg["mi"]) - want["skierweight"][0]) < 1e-9, seg)
        seg = g["seg_pst"]
        mon.true("segments", np.allclose(seg["li"], [want["totallength"][1] - want["cracklength"][1], want["cracklength"][1]]) and list(seg["ki"]) == [True, False], seg)
        seg = g["seg_skiers"]
        mon.true("segments", all(np.array_equal(seg[k], want[k][0]) for k in ("li", "ki", "mi")), seg)


def numbers(text):
    out = []
    for line in text.splitlines():
        m = re.match(r"([^:]+): (?:(True|False)|([-+0-9.e]+))", line)
        if m:
            out.append((m[1], m[2] == "True" if m[2] else float(m[3])))
    return out


def judge_figure(mon, src):
    files = os.listdir("plots") if os.path.isdir("plots") else []
    mon.true("figures", len(files) > 0, src)


def where(segs, x):
    """Segments and local positions, and which positions are clear of all joints."""
    e = np.concatenate([[0], np.cumsum(np.asarray(segs["li"], float))])
    i = np.clip(np.searchsorted(e, x) - 1, 0, len(segs["li"]) - 1)
    return i, x - e[i], np.min(np.abs(x[:, None] - e[1:-1]), axis=1, initial=np.inf) > 1e-3


def refer(sc, segs, x):
    m = gen.model(sc)
    S = gen.reference(sc, segs, m)
    i, loc, clear = where(segs, x)
    Z = np.empty((6, x.size))
    for j in np.unique(i):
        Z[:, i == j] = S.at(j, loc[i == j])
    return m, Z, clear, np.asarray(segs["ki"], bool)[i]


def compare(mon, name, got, want, ok, tol=1e-4, detail=None, floor=1e-12):
    if not mon.true(name, np.shape(got) == np.shape(want), {"shapes": [np.shape(got), np.shape(want)], "of": detail}):
        return
    got, want = np.asarray(got, float)[ok], np.asarray(want, float)[ok]
    mon.le(name, np.abs(got - want) / (np.max(np.abs(want), initial=0) + floor), tol, detail)


def solution(mon, name, sc, segs, x, z, xb):
    x, z, xb = (np.asarray(v, float) for v in (x, z, xb))
    L = float(np.sum(segs["li"]))
    mon.true(name, x[0] == 0 and abs(x[-1] - L) < 1e-6 and np.all(np.diff(x) >= 0) and z.shape == (6, x.size) and xb.shape == x.shape, {"x": [x[0], x[-1]]})
    m, Z, clear, bed = refer(sc, segs, x)
    mon.true(name, np.array_equal(np.isfinite(xb)[clear], bed[clear]), "supported positions")
    big = np.max(np.hypot(Z[0], Z[2]))
    for k, floor in ((0, big), (2, big), (4, big / m.lam.h)):
        compare(mon, name, z[k], Z[k], clear, detail=["u", "", "w", "", "psi"][k], floor=floor)
    for a, b, q in zip(obs.weak(m, z), obs.weak(m, Z), ("normal", "shear")):
        top = max(np.max(np.abs(v)) for v in obs.weak(m, Z))
        mon.le(name, np.abs(a - b)[clear & bed] / top, 1e-4, q)


def outputs(mon, sc, g):
    x = np.asarray(g["xsl_skiers"], float)
    m, Z, clear, bed = refer(sc, g["seg_skiers"], x)
    sig, tau = obs.weak(m, Z)
    H = m.lam.h
    compare(mon, "outputs", 1e1 * np.asarray(g["xsl_cm"]), x, clear, 1e-9, "positions")
    for v, key in ((tau, "tau"), (sig, "sig")):
        ok = clear & bed
        top = 1e3 * max(np.max(np.abs(sig[ok])), np.max(np.abs(tau[ok])))
        mon.le("outputs", np.abs(np.asarray(g[key], float) - 1e3 * v)[ok] / top, 1e-4, key)
    u = [1e3 * (Z[0] + d * Z[4]) for d in (-H / 2, 0, H / 2)]
    top = 1e3 * np.max(np.hypot(Z[0], Z[2])) + max(np.max(np.abs(v)) for v in u)
    for v, key in zip(u, ("u_top", "u_mid", "u_bot")):
        mon.le("outputs", np.abs(np.asarray(g[key], float) - v)[clear] / (top + 1e-9), 1e-4, key)
    compare(mon, "outputs", g["w"], 1e3 * Z[2], clear, detail="w")
    compare(mon, "outputs", g["psi"], np.rad2deg(Z[4]), clear, detail="psi", floor=top / 1e3 / H)


def rates(mon, sc, g):
    m = gen.model(sc)
    da = np.asarray(g["da"], float)
    L = g["totallength"]
    for k in np.unique(np.linspace(1, da.size - 1, 5).astype(int)):
        a = da[k]
        s = {"li": [L - a, a], "ki": [True, False], "mi": [0]}
        S0, S1 = gen.reference(sc, {**s, "ki": [True, True]}, m), gen.reference(sc, s, m)
        sig, tau = obs.weak(m, S1.at(0, [L - a]))
        G = np.ravel([sig ** 2 / (2 * m.kn), tau ** 2 / (2 * m.kt)])
        mon.le("gdif", np.abs(g["Gdif"][1:, k] - G) / (np.sum(G) + 1e-15), 2e-4, {"crack": a, "got": g["Gdif"][:, k], "own": G})
        mon.le("gdif", abs(g["Gdif"][0, k] - np.sum(G)) / np.sum(G), 2e-4, "total")
        x, q = obs.gauss(0, a, 1.5 / m.lmax(), 8)
        (s0, t0), (s1, t1) = obs.weak(m, S0.at(1, x)), obs.weak(m, S1.at(1, x))
        f = np.array([s0 * s1 / m.kn, t0 * t1 / m.kt])
        G, mag = f @ q / (2 * a), np.sum(np.abs(f) @ q) / (2 * a)
        tol = 4e-3 * mag + min(2e-3 / (2 * a), 4e-3 * mag) + 1e-12
        mon.le("ginc", np.abs(g["Ginc"][1:, k] - G), tol, {"crack": a, "got": g["Ginc"][:, k], "own": G})
        mon.le("ginc", abs(g["Ginc"][0, k] - np.sum(G)), tol, "total")


def readme(sc, mon):
    with open(os.path.join(core.REPO, "README.md"), encoding="utf8") as f:
        blocks = re.findall(r"```python\n(.*?)```", f.read(), re.S)
    r = sc["readme"]
    g = {"__name__": "__main__"}
    ex = Exchange({"myprofile": [sc["layers"]]}, "A")
    for src in blocks:
        for old, new in (("phi=38", f"phi={sc['phi']!r}"), ("L=10000", f"L={r['L']!r}"), ("a=300", f"a={r['a']!r}"), ("m=80", f"m={r['m']!r}")):
            src = re.sub(r"\b" + old + r"\b", new, src)
        try:
            exec(compile(ex.visit(ast.parse(src)), "README", "exec"), g)
        except Exception as e:
            mon.true("ran", False, {"block": src[:400], "error": repr(e)})
            return
        if "weac.plot." in src:
            judge_figure(mon, src)
    mon.true("ran", True)
    one = {"layers": sc["layers"], "phi": sc["phi"], "system": "skier"}
    segs = g["segments"]
    li, ki = np.asarray(segs["li"], float), np.asarray(segs["ki"], bool)
    mon.true("segments", abs(np.sum(li) - r["L"]) < 1e-6 and abs(np.sum(li[~ki]) - r["a"]) < 1e-6 and abs(np.sum(segs["mi"]) - r["m"]) < 1e-9, segs)
    solution(mon, "readme", one, segs, g["xsl"], g["z"], g["xwl"])
    x = np.asarray(g["xsl"], float)
    m, Z, clear, bed = refer(one, segs, x)
    compare(mon, "readme", g["w_um"], 1e3 * Z[2], clear, detail="deflection")
    sig, tau = obs.weak(m, Z)
    ok = clear & bed
    mon.le("readme", np.abs(np.asarray(g["tau_kPa"], float) - 1e3 * tau)[ok] / (1e3 * max(np.max(np.abs(sig[ok])), np.max(np.abs(tau[ok])))), 1e-4, "shear")
