"""P42: results do not depend on the process that computes them (interpreter options, environment, imports, place)."""
import os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
from rv import core, gen
from rv.props import p01

HOW = ["hash", "optimized", "stripped", "zone", "folder", "threads", "state", "imports", "star", "collector", "profiled", "quiet", "forked", "reverse", "thread",
       "copied", "utf8", "nosite"]
RULE = ("random experiments computed in processes of their own under other interpreter options (-O, -OO, hash seeds), environments (time zone, locale, working folder, threads), "
        "states (random seeds, print options, collector, profiler), import orders, forks, threads and package locations, against the same experiments in this process; "
        "non-trivial = results of at least one other process compared")
REQUIRED = {"same": 1500, "process": 100, "sys:skiers": 5, "sys:pst-": 3, "touchdown": 5, **{"how:" + h: 2 for h in HOW}}
N = {"quick": 48, "thorough": 480}
CASE_TIMEOUT = 400
TOL = 1e-9


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        group = []
        while len(group) < 5:
            sc = p01.gen_touch(rng) if rng.random() < 0.3 else gen.scenario(rng)
            if sc is not None:
                group.append(sc)
        out.append({**group[0], "others": group[1:], "how": [HOW[(3 * i + k) % len(HOW)] for k in range(3)], "seed": int(rng.integers(1, 1 << 30))})
    return out


def elsewhere(sc, group, how, d):
    """Results of the experiments computed in another process."""
    env = {k: v for k, v in os.environ.items()}
    opts, path, cwd = [], [core.REPO], d
    if how == "hash":
        env["PYTHONHASHSEED"] = str(sc["seed"] % 4294967295)
    elif how == "optimized":
        opts = ["-O"]
    elif how == "stripped":
        opts = ["-OO"]
    elif how == "zone":
        env.update(TZ="Pacific/Kiritimati", LC_ALL="C", LANG="tr_TR.UTF-8", PYTHONHASHSEED="random")
    elif how == "folder":
        cwd = os.path.join(d, "other")
        os.makedirs(os.path.join(cwd, "weac"))        # a folder of this name is no package to be found
        for name in ("a", "b", "comp", "soft", "profile a", "weac.json", "numpy.ini", "layers"):
            with open(os.path.join(cwd, name), "w") as f:
                f.write("1 2 3\n4 5 6\n")
        env.update(HOME=cwd, TMPDIR=cwd, MPLCONFIGDIR=os.path.join(d, "mpl"))
    elif how == "threads":
        env.update({k: "4" for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS")})
    elif how == "copied":
        place = os.path.join(d, "ein anderer Ørt")
        shutil.copytree(os.path.join(core.REPO, "weac"), os.path.join(place, "weac"), ignore=shutil.ignore_patterns("__pycache__"))
        path = [place]
    elif how == "utf8":
        opts = ["-X", "utf8=0"]
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0")
    elif how == "nosite":
        opts = ["-s", "-P", "-X", "dev"]
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src, dst = os.path.join(d, "in"), os.path.join(d, "out")
    with open(src, "wb") as f:
        pickle.dump({"how": how, "path": path + [here], "seed": sc["seed"], "scenarios": group}, f)
    env["WEAC_REPO"] = path[0]
    r = subprocess.run([sys.executable, *opts, os.path.join(here, "rv", "elsewhere.py"), src, dst], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    if r.returncode or not os.path.exists(dst):
        return None, r.stderr[-800:]
    with open(dst, "rb") as f:
        return pickle.load(f), r.stderr[-800:]


def run(sc, mon):
    from rv.elsewhere import experiment
    gen.features(sc, mon)
    group = [sc, *sc["others"]]
    mon.counts["touchdown"] += sum(bool(s.get("touchdown")) for s in group)
    want = []
    for s in list(group):
        try:
            want.append(experiment(s))
        except Exception:          # what fails here, too, is no matter of the process
            mon.counts["not computed"] += 1
            group.remove(s)
    if not group:
        return
    for how in sc["how"]:
        d = tempfile.mkdtemp(prefix="rv_p42_")
        try:
            got, err = elsewhere(sc, group, how, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if not mon.true("process", got is not None and len(got["results"]) == len(want), {"how": how, "error": err}):
            continue
        root = os.path.realpath(core.REPO) + os.sep
        assert how == "copied" or got["file"].startswith(root), got["file"]
        mon.counts["how:" + how] += 1
        for k, (g, w) in enumerate(zip(got["results"], want)):
            for q in w:
                if not mon.true("same", q in g and g[q].shape == w[q].shape, {"how": how, "quantity": q, "scenario": k}):
                    continue
                s = np.nanmax(np.abs(w[q]), initial=0) if not np.all(np.isnan(w[q])) else 0
                axis = np.nanmax(np.abs(w[q]), axis=1, keepdims=True) if q == "z" else s
                mon.true("same", np.array_equal(np.isnan(g[q]), np.isnan(w[q])), {"how": how, "quantity": q, "scenario": k})
                ok = ~np.isnan(w[q]) & ~np.isnan(g[q])
                diff = np.where(ok, np.abs(g[q] - w[q]), 0)
                mon.le("same", diff / (axis + 1e-300), TOL, {"how": how, "quantity": q, "scenario": k})
