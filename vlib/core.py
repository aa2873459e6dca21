"""Check runner: seeds, worker pool, verdicts, evidence, replay, known findings.

A check module defines

  ID, LEVEL, RULE, ASSUMPTIONS (list), MIN_NONTRIVIAL (quick)
  cases(rng, tier)      -> list of JSON-able case dictionaries (each has 'kind')
  run_case(case)        -> Result
  finalize(results)     -> optional: list of extra violations (offline, cross-case)

run_case executes the code under test and the monitors/oracles.  A violation is
only ever reported by an oracle that looked at what the code did (or by an
exception that escapes from the code under test where the property promises an
answer).  Problems of the harness itself end the run with exit code 2.
"""
import os
import sys
import json
import time
import hashlib
import traceback
import importlib
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = os.path.join(VERIF, "known-findings.txt")
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(EVID, "replays")
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))


class CaseTimeout(BaseException):
    pass


class Result:
    """What one case observed."""

    current = None

    def __init__(self):
        Result.current = self
        self.violations = []     # dicts: mechanism, msg, data
        self.stats = {}          # monitored event counters
        self.obs = []            # (name, measured, bound): numeric margins
        self.fingerprint = None  # identifies the distinct case
        self.nontrivial = False
        self.sample = None
        self.log = None          # event log handed to finalize

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + int(n)

    def violate(self, mechanism, msg, **data):
        if len(self.violations) < 20:
            self.violations.append({"mechanism": mechanism, "msg": msg, "data": jsonable(data)})

    def check(self, ok, mechanism, msg, **data):
        self.count("oracle_evaluations")
        if not ok:
            self.violate(mechanism, msg, **data)
        return ok

    def close(self, got, want, tol, mechanism, msg, **data):
        """|got - want| <= tol elementwise, NaN is a failure."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        self.count("oracle_evaluations")
        if got.shape != want.shape:
            self.violate(mechanism, f"{msg}: shape {got.shape} instead of {want.shape}", **data)
            return False
        if got.size == 0:
            return True
        d = np.abs(got - want)
        err = float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")
        self.obs.append((mechanism, err, float(tol)))
        if not err <= tol:
            small = got.size <= 8
            self.violate(mechanism, f"{msg}: off by {err:.3e} (tolerance {tol:.1e})",
                         got=got if small else "array", want=want if small else "array", **data)
            return False
        return True

    def le(self, got, bound, mechanism, msg, **data):
        self.count("oracle_evaluations")
        got = float(got)
        self.obs.append((mechanism, got, float(bound)))
        if not got <= bound:
            self.violate(mechanism, f"{msg}: {got:.6e} exceeds {float(bound):.6e}", **data)
            return False
        return True

    def pack(self):
        return {k: getattr(self, k) for k in
                ("violations", "stats", "obs", "fingerprint", "nontrivial", "sample", "log")}


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": float(x.real), "im": float(x.imag)}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if hasattr(x, "detach"):
        return jsonable(x.detach().cpu().numpy())
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


# --------------------------------------------------------------------------- workers

def _repo_first():
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)


def import_acetn():
    _repo_first()
    import acetn
    got = os.path.realpath(os.path.dirname(acetn.__file__))
    want = os.path.realpath(os.path.join(REPO, "acetn"))
    if got != want:
        raise RuntimeError(f"acetn imported from {got}, not from {want}")
    return acetn


def _quiet():
    """acetn reports through tqdm.write; the monitors do not need it."""
    from tqdm import tqdm
    tqdm.write = lambda *a, **k: None


def _init_worker():
    os.environ["OMP_NUM_THREADS"] = "1"
    import warnings
    warnings.filterwarnings("ignore")
    import torch
    torch.set_num_threads(1)
    import_acetn()
    _quiet()


def exception_origin(e):
    """'code' if the exception was raised inside the code under test."""
    root = os.path.realpath(os.path.join(REPO, "acetn"))
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    inside = False
    for f in frames:
        fn = os.path.realpath(f.filename)
        if fn.startswith(root + os.sep):
            inside = True
        elif fn.startswith(os.path.join(VERIF, "vlib")) and f.name != "__torch_function__":
            inside = False        # a callback into the harness
    return "code" if inside else "harness"


def _run_one(modname, case):
    import signal
    import random
    import numpy as np
    import torch
    mod = importlib.import_module(modname)
    seed = int(case.get("seed", 0))
    torch.manual_seed(seed)
    np.random.seed(seed % (2**32))
    random.seed(seed)
    limit = int(case.get("timeout", getattr(mod, "CASE_TIMEOUT", 240)))

    def on_alarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    t0 = time.time()
    out = {"case": case}
    Result.current = None
    try:
        r = mod.run_case(case)
        out.update(r.pack())
    except CaseTimeout as e:
        out["timeout"] = limit
        out["trace"] = "".join(traceback.format_tb(e.__traceback__)[-6:])
    except Exception as e:
        tb = traceback.format_exc()
        if exception_origin(e) == "code":
            r = Result()
            fr = [f for f in traceback.extract_tb(e.__traceback__)
                  if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))]
            where = f"{os.path.basename(fr[-1].filename)}:{fr[-1].name}" if fr else "?"
            r.violate("exception", f"{type(e).__name__} in {where}: {str(e)[:300]}", trace=tb[-3000:])
            r.nontrivial = True
            r.fingerprint = "exception"
            out.update(r.pack())
        elif Result.current is not None and Result.current.violations:
            # what the oracles saw before the harness stumbled over it stands
            out.update(Result.current.pack())
        else:
            out["harness_error"] = f"case {json.dumps(case)}\n{tb}"
    finally:
        signal.alarm(0)
    out["wall"] = time.time() - t0
    return out


# --------------------------------------------------------------------------- known findings

def known_findings(pid):
    """(mechanism, text) of the findings listed for this property. 'fixed:' lines suppress nothing."""
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                body = line[len("finding: "):]
                parts = dict(p.split("=", 1) for p in body.split(" | ")[0].split() if "=" in p)
                if parts.get("property") == pid:
                    found.append((parts.get("mechanism"), body.split(" | ", 1)[-1]))
    return found


# --------------------------------------------------------------------------- main

def run(modname, tier, seed, replay=None):
    t0 = time.time()
    import numpy as np
    mod = importlib.import_module(modname)
    pid = mod.ID
    os.makedirs(REPLAYS, exist_ok=True)
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        rng = np.random.default_rng([seed, int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16)])
        cases = mod.cases(rng, tier)
        for i, c in enumerate(cases):
            c.setdefault("seed", int(rng.integers(2**31)))
            c["index"] = i
    budget = float(os.environ.get("VERIF_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 120 if tier == "quick" else 3000)))
    results, errors, timeouts, skipped = [], [], [], 0
    inproc = getattr(mod, "IN_PROCESS", False)
    workers = min(getattr(mod, "WORKERS", WORKERS), WORKERS, max(1, len(cases)))
    if inproc or (replay and os.environ.get("VERIF_INPROC")):
        _init_worker()
        for c in cases:
            if time.time() - t0 > budget and len(results) >= getattr(mod, "MIN_CASES", 1):
                skipped += 1
                continue
            _collect(_run_one(modname, c), results, errors, timeouts)
    else:
        ctx = mp.get_context("spawn")
        os.environ["OMP_NUM_THREADS"] = "1"
        try:
            with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init_worker) as ex:
                pending = set()
                it = iter(cases)
                done_submitting = False
                while True:
                    while not done_submitting and len(pending) < 2 * workers:
                        if time.time() - t0 > budget:
                            rest = sum(1 for _ in it)
                            skipped += rest
                            done_submitting = True
                            break
                        c = next(it, None)
                        if c is None:
                            done_submitting = True
                            break
                        pending.add(ex.submit(_run_one, modname, c))
                    if not pending:
                        break
                    for f in as_completed(pending):
                        pending.discard(f)
                        _collect(f.result(), results, errors, timeouts)
                        break
        except BrokenProcessPool:
            print(f"check {pid}: a worker died (out of memory or crash)", file=sys.stderr)
            return 2

    violations = []
    for r in results:
        for v in r["violations"]:
            violations.append((r["case"], v))
    if hasattr(mod, "finalize") and not replay:
        for case, v in mod.finalize(results):
            violations.append((case, v))

    stats, margins = {}, {}
    prints = set()
    samples = []
    for r in results:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
        for name, got, tol in r["obs"]:
            if tol > 0:
                m = margins.setdefault(name, [0, 0.0])
                m[0] += 1
                m[1] = max(m[1], got / tol)
        if r["nontrivial"]:
            prints.add(str(r["fingerprint"]))
            if len(samples) < 8 and r["sample"] is not None:
                samples.append({"case": {k: v for k, v in r["case"].items() if k != "index"}, "observed": jsonable(r["sample"])})
    kinds = {}
    for r in results:
        kinds[r["case"].get("kind", "case")] = kinds.get(r["case"].get("kind", "case"), 0) + 1
    if not samples:
        samples = [{"case": r["case"]} for r in results[:3]]

    known = known_findings(pid)
    reported_known, fresh = {}, []
    for case, v in violations:
        hit = next((k for k in known if k[0] == v["mechanism"]), None)
        if hit:
            reported_known[hit] = reported_known.get(hit, 0) + 1
        else:
            fresh.append((case, v))

    extra = mod.evidence_extra(results) if hasattr(mod, "evidence_extra") else {}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(prints),
            "rule": mod.RULE,
            "samples": samples,
            "monitor_events": stats,
            "cases_by_kind": kinds,
            "worst_margin_per_monitor": {k: {"comparisons": n, "worst_error_over_tolerance": float(f"{m:.3g}")}
                                         for k, (n, m) in sorted(margins.items())},
            "inconclusive_timeouts": len(timeouts),
            "cases_not_started_for_time": skipped,
            **jsonable(extra),
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if not replay:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    for (mech, text), n in reported_known.items():
        print(f"KNOWN-FINDING: property={pid} mechanism={mech} {text} ({n} observation(s) this run)")
    print(f"{pid} {tier} seed={seed}: {len(results)} cases, {len(prints)} distinct non-trivial, "
          f"{stats.get('oracle_evaluations', 0)} oracle evaluations, {len(fresh)} violations, "
          f"{len(timeouts)} timeouts, {len(errors)} harness errors, {skipped} not started, {ev['wall_s']} s")
    if fresh:
        seen = {}
        for case, v in fresh:
            seen.setdefault(v["mechanism"], (case, v))
        for i, (mech, (case, v)) in enumerate(sorted(seen.items())):
            if i >= 6:
                break
            path = os.path.join(REPLAYS, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "module": modname, "case": jsonable(case), "violation": jsonable(v),
                           "seed": seed, "tier": tier,
                           "replay_cmd": f"/opt/venv/bin/python run_check.py {pid} --replay {path}"}, f, indent=1)
            print(f"  [{mech}] {v['msg']}  case={json.dumps(jsonable({k: x for k, x in case.items()}))[:400]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print(f"check {pid}: {len(errors)} harness error(s); first:\n{errors[0]['harness_error']}", file=sys.stderr)
        return 2
    if replay:
        return 0
    need = getattr(mod, "MIN_NONTRIVIAL", 3)
    if len(prints) < need:
        print(f"check {pid}: inconclusive, only {len(prints)} distinct non-trivial cases (need {need})", file=sys.stderr)
        for t in timeouts[:3]:
            print("timeout", t["case"], t["trace"], file=sys.stderr)
        return 2
    if len(timeouts) > max(2, len(results) // 5):
        print(f"check {pid}: inconclusive, {len(timeouts)} cases timed out\n{timeouts[0]['trace']}", file=sys.stderr)
        return 2
    for name in getattr(mod, "REQUIRED_EVENTS", ()):
        if not stats.get(name):
            print(f"check {pid}: inconclusive, monitor event '{name}' was never observed", file=sys.stderr)
            return 2
    return 0


def _collect(out, results, errors, timeouts):
    if "harness_error" in out:
        errors.append(out)
    elif "timeout" in out:
        timeouts.append(out)
    else:
        results.append(out)
