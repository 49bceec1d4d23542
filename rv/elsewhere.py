"""Experiments in a process of its own: python rv/elsewhere.py IN OUT (pickled request and results)."""
import os, pickle, sys


def experiment(sc, pause=lambda label: None):
    import numpy as np
    import weac
    from weac import tools
    from rv import gen
    from rv.props import p37
    o = gen.instance(sc)
    out = p37.steps(sc, o, pause)
    phi = sc["phi"]
    every = o.calc_segments(phi=phi, **gen.segkw(sc))
    C = o.assemble_and_solve(phi=phi, **every["crack"])
    x, z, xb = o.rasterize_solution(C=C, phi=phi, num=25, **every["crack"])
    for unit in ("kPa", "MPa"):
        out["tau " + unit], out["sig " + unit] = (f(x=xb, z=z, unit=unit)[1] for f in (o.get_weaklayer_shearstress, o.get_weaklayer_normalstress))
    for unit in ("um", "mm", "cm"):
        out["w " + unit] = o.get_slab_deflection(x=x, z=z, unit=unit)[1]
        out["u " + unit] = o.get_slab_displacement(x=x, z=z, unit=unit, loc="top")[1]
    for unit in ("degrees", "radians"):
        out["psi " + unit] = o.get_slab_rotation(x=x, z=z, unit=unit)[1]
    for val in ("max", "min"):
        out["principal " + val] = o.principal_stress_slab(z[:, :3], phi, dz=20, unit="kPa", val=val)
    out["normalized"] = o.principal_stress_slab(z[:, :3], phi, dz=20, val="max", normalize=True)
    out["principal weak"] = o.principal_stress_weaklayer(z[:, :3], unit="kPa")
    out["slab"] = o.get_zmesh(dz=15)
    for u in ("kPa", "MPa"):
        out["strength " + u] = tools.tensile_strength_slab(np.array([120.0, 240.0, 380.0]), unit=u)
    rho = np.array([100.0, 210.0, 333.0])
    out["moduli"] = [tools.bergfeld(rho), tools.gerling(rho), tools.scapozza(rho)]
    for name in ("a", "c", "e", "comp"):
        out["profile " + name] = np.concatenate([np.ravel(v) for v in tools.load_dummy_profile(name)])
    i = weac.Inverse("pst-", layers=[[200.0, 120.0], [260.0, 90.0]], parameters=(6.2, 4.5, 0.3))
    out["inverse"] = [i.kn, i.kt, *np.ravel(i.slab)]
    return {k: np.array(v, float) for k, v in out.items()}


def main(src, dst):
    with open(src, "rb") as f:
        req = pickle.load(f)
    sys.path[:0] = req["path"]
    how = req["how"]
    if how == "state":
        import random, locale, decimal
        import numpy as np
        np.set_printoptions(precision=2, suppress=True, threshold=5)
        np.random.seed(req["seed"] % 2 ** 32)
        random.seed(req["seed"])
        decimal.getcontext().prec = 3
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    elif how == "imports":
        import weac.plot, weac.inverse, weac.tools, weac.mixins        # noqa: F401, E401
    elif how == "star":
        ns = {}
        exec("from weac import *\nfrom weac.layered import *\nimport weac as w", ns)
    elif how == "collector":
        import gc
        gc.set_threshold(1, 1, 1) if req["seed"] % 2 else gc.disable()
    elif how == "profiled":
        sys.setprofile(lambda *a: None)
    elif how == "quiet":
        sys.stdout = sys.stderr = open(os.devnull, "w")
    elif how == "main":
        import __main__
        del __main__.__file__
    import weac
    res = {"file": os.path.realpath(weac.__file__), "results": None}
    if how == "forked":
        experiment(req["scenarios"][-1])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump([experiment(sc) for sc in req["scenarios"]], f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            res["results"] = pickle.load(f)
        os.waitpid(pid, 0)
    elif how == "reverse":
        res["results"] = [experiment(sc) for sc in req["scenarios"][::-1]][::-1]
    elif how == "thread":
        import threading
        got = []
        threading.stack_size(512 * 1024)
        t = threading.Thread(target=lambda: got.extend(experiment(sc) for sc in req["scenarios"]))
        t.start()
        t.join()
        res["results"] = got
    else:
        res["results"] = [experiment(sc) for sc in req["scenarios"]]
    res["debug"] = [__debug__, experiment.__doc__ is None, sys.flags.optimize, os.environ.get("PYTHONHASHSEED")]
    with open(dst, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main(*sys.argv[1:3])
