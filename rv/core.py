"""Runner for the runtime monitors: drive the real code, observe, decide, report."""
import collections, hashlib, importlib, json, multiprocessing, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WEAC_REPO", "/repo")
OUT = os.environ.get("RV_OUT", VERIF)  # where evidence and replays go
FINDINGS = os.path.join(VERIF, "known_findings.json")


class CaseTimeout(BaseException):
    """A single case ran into its watchdog (inconclusive, never a violation)."""


class Malformed(Exception):
    """The code under test returned something an oracle cannot even read."""


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Monitor:
    """Collects the observations and verdicts of one case."""

    def __init__(self):
        self.counts = collections.Counter()
        self.worst = {}
        self.violations = []
        self.tags = set()
        self.nontrivial = False

    def tag(self, *tags):
        self.tags.update(t for t in tags if t)

    def fail(self, name, detail=None, finding=None):
        if len(self.violations) < 25:
            self.violations.append(
                {"monitor": name, "detail": jsonable(detail), "finding": finding})

    def true(self, name, cond, detail=None, finding=None):
        self.counts[name] += 1
        self.nontrivial = True
        if not bool(cond):
            self.fail(name, detail, finding)
            return False
        return True

    def le(self, name, value, tol, detail=None, finding=None):
        """Require value <= tol (NaN fails)."""
        import numpy as np
        v = float(np.max(value)) if np.size(value) else 0.0
        self.counts[name] += max(1, int(np.size(value)))
        self.nontrivial = True
        r = v / tol if tol > 0 else (0.0 if v <= 0 else float("inf"))
        if not r <= self.worst.get(name, -1.0):
            self.worst[name] = r
        if not v <= tol:
            self.fail(name, {"value": v, "tol": tol, "info": jsonable(detail)}, finding)
            return False
        return True

    def close(self, name, a, b, tol, scale=0.0, detail=None, finding=None):
        """Require |a-b| <= tol*(max(|a|,|b|) overall + scale); shapes must agree."""
        import numpy as np
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.counts[name] += 1
                self.fail(name, {"shape": [a.shape, b.shape], "info": detail}, finding)
                return False
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            self.counts[name] += 1
            self.fail(name, {"nan": [int(na.sum()), int(nb.sum())], "info": detail}, finding)
            return False
        a, b = a[~na], b[~na]
        if a.size == 0:
            return True
        ref = max(float(np.max(np.abs(b))), float(np.max(np.abs(a)))) + scale
        if not np.isfinite(ref):
            self.counts[name] += 1
            self.fail(name, {"nonfinite": True, "info": detail}, finding)
            return False
        if ref == 0:
            self.counts[name] += a.size
            self.nontrivial = True
            return True
        i = int(np.argmax(np.abs(a - b)))
        return self.le(name, np.abs(a - b).ravel() / ref, tol,
                       {"got": a.ravel()[i], "want": b.ravel()[i], "ref": ref, "info": detail}, finding)


def _where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    repo = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
    last = repo[-1] if repo else frames[-1]
    return bool(repo), f"{os.path.basename(last.filename)}:{last.name}", \
        [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in frames[-8:]]


_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _worker_init(modname):
    global _MOD
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, "w")
    _MOD = importlib.import_module(modname)


def _run_one(arg):
    i, case = arg
    mon = Monitor()
    t0 = time.time()
    status = "ok"
    signal.alarm(int(getattr(_MOD, "CASE_TIMEOUT", 60)))
    try:
        _MOD.run(case, mon)
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "timeout"
    except Exception as exc:  # noqa: BLE001 - every outcome is classified
        in_repo, where, tb = _where(exc)
        kind = "exception" if in_repo else "malformed-observation"
        mon.counts[kind] += 1
        mon.fail(f"{kind}:{type(exc).__name__}", {"where": where, "error": str(exc)[:300], "trace": tb})
    finally:
        signal.alarm(0)
    return {"i": i, "status": status, "counts": dict(mon.counts), "worst": mon.worst,
            "violations": mon.violations, "tags": sorted(mon.tags),
            "nontrivial": mon.nontrivial, "t": time.time() - t0}


def load_findings(pid):
    if not os.path.exists(FINDINGS):
        return {}
    with open(FINDINGS) as f:
        data = json.load(f)
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == pid}


def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    verbose = "-v" in argv
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"rv.props.{pid.lower()}"
    try:
        sys.path.insert(0, REPO)
        import weac
        assert os.path.realpath(weac.__file__).startswith(os.path.realpath(REPO) + os.sep), weac.__file__
        mod = importlib.import_module(modname)
        import numpy as np
    except Exception as exc:  # noqa: BLE001
        traceback.print_exc()
        print(f"INCONCLUSIVE property={pid} cannot load: {exc!r}")
        return 2
    if replay:
        with open(replay) as f:
            cases = [v["case"] for v in json.load(f)["violations"]]
    else:
        rng = np.random.default_rng([seed, int(pid[1:]), 0 if tier == "quick" else 1])
        cases = [jsonable(c) for c in mod.cases(rng, tier)]
    if "--limit" in argv:
        cases = cases[:int(argv[argv.index("--limit") + 1])]
    nproc = max(1, min(8, os.cpu_count() or 1, len(cases)))
    budget = float(getattr(mod, "BUDGET", {}).get(tier, 780 if tier == "quick" else 7200))
    results = []
    ctx = multiprocessing.get_context("fork")
    harness_error = None
    with ctx.Pool(nproc, _worker_init, (modname,), 1 if getattr(mod, "FRESH", False) else None) as pool:
        it = pool.imap_unordered(_run_one, list(enumerate(cases)))
        try:
            while len(results) < len(cases):
                left = budget - (time.time() - t0)
                if left <= 0:
                    break
                results.append(it.next(timeout=left))
        except multiprocessing.TimeoutError:
            pass
        except Exception as exc:  # noqa: BLE001
            harness_error = repr(exc)
        pool.terminate()
    results.sort(key=lambda r: r["i"])
    known = load_findings(pid)
    counts, tags, worst = collections.Counter(), collections.Counter(), {}
    viol, found, hashes, timeouts = [], collections.Counter(), set(), 0
    for r in results:
        counts.update(r["counts"])
        tags.update(r["tags"])
        for k, v in r["worst"].items():
            if not v <= worst.get(k, -1.0):
                worst[k] = v
        timeouts += r["status"] == "timeout"
        if r["nontrivial"]:
            hashes.add(hashlib.sha1(json.dumps(cases[r["i"]], sort_keys=True).encode()).hexdigest())
        for v in r["violations"]:
            if v["finding"] and v["finding"] in known:
                found[v["finding"]] += 1
            else:
                viol.append({"case": cases[r["i"]], **v})
    missing = []
    for name, n in getattr(mod, "REQUIRED", {}).items():
        if counts.get(name, 0) + tags.get(name, 0) < n and not replay and "--limit" not in argv:
            missing.append(f"{name}<{n}")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": [cases[r["i"]] for r in results[:3]],
            "monitor_evaluations": dict(sorted(counts.items())),
            "observed_features": dict(sorted(tags.items())),
            "worst_residual_over_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(worst.items())},
            "cases_planned": len(cases), "case_timeouts": timeouts,
            "known_findings_hit": dict(found),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not replay:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(jsonable(evidence), f, indent=1)
    print(f"{pid} {tier} seed={seed}: {len(results)}/{len(cases)} cases, {len(hashes)} distinct non-trivial, "
          f"{sum(counts.values())} monitor evaluations, {evidence['wall_s']} s")
    if verbose:
        for k, v in sorted(counts.items()):
            print(f"   {k}: {v}  worst/tol={worst.get(k, float('nan')):.2g}")
        print("   tags:", dict(sorted(tags.items())))
        slow = sorted(results, key=lambda r: -r["t"])[:3]
        print("   slowest:", [(r["i"], round(r["t"], 2)) for r in slow])
    for key, n in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']} (observed {n} times)")
    if viol:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", f"{pid}.json")
        if not replay:
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "violations": jsonable(viol[:40])}, f, indent=1)
        else:
            path = replay
        by = collections.Counter(v["monitor"] for v in viol)
        for k, n in by.most_common(8):
            ex = next(v for v in viol if v["monitor"] == k)
            print(f"  violated: {k} ({n}x) e.g. {json.dumps(jsonable(ex['detail']))[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_error:
        print(f"INCONCLUSIVE property={pid} harness error {harness_error}")
        return 2
    if missing or timeouts > 0.1 * max(1, len(results)) or not results:
        print(f"INCONCLUSIVE property={pid} not observed: {missing} timeouts={timeouts}")
        return 2
    print(f"OK property={pid} held on everything observed")
    return 0
