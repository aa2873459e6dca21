"""C20: the native ALS backend computes what the Python backend does."""
import json
import os
import shutil
import subprocess
import sys
import numpy as np
from vlib import native
from vlib.core import Result, REPO, VERIF
from vlib.checks.c15 import scratch

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = ("address and undefined-behaviour sanitizer over the extension compiled from the current sources, linked with stand-ins for cuTENSOR and cuSOLVER "
             "that compute on CPU memory, count library objects, check how they are used and fail on demand; results compared with a numpy reference and the torch backend")
LEVEL_NOTE = ("Held on the executed inputs and injected failures. The stand-ins replace the GPU libraries, so kernels, streams and real workspaces are not covered; "
              "differences are judged against the sensitivity of the problem to perturbations of its input.")
RULE = ("Random least squares problems (dimensions 1 to 5, four dtypes, positive, graded, rank-deficient and indefinite norm tensors, both solvers, "
        "0 to 30 iterations, tolerances, regularizations, contiguous, permuted, sliced, strided and conjugated inputs), library failures at random calls, "
        "plans that ask for workspace, and full evolutions in both backends; non-trivial when a decidable problem was compared; distinct by seed.")
ASSUMPTIONS = ["the stand-ins behave as the headers and the documentation of cuTENSOR and cuSOLVER describe"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("problems", "contractions", "factorizations", "lu_fallbacks", "objects_created", "injected_failures", "workspace_plans", "evolutions",
                   "float32", "float64", "complex64", "complex128", "early_stops", "cholesky", "pinv", "layout_slice", "layout_permuted", "layout_conj", "layout_step")
BUDGET = {"quick": 300, "thorough": 1800}
CASE_TIMEOUT = 500


def item(rng, kind):
    dtype = str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.3, .4, .15, .15]))
    single = dtype in ("float32", "complex64")
    method = str(rng.choice(["cholesky", "pinv"], p=[.7, .3]))
    long = rng.uniform() < 0.35
    return {"kind": kind, "dtype": dtype, "n": int(rng.integers(1, 6)), "b": int(rng.integers(1, 5)), "p": int(rng.integers(1, 4)),
            "spectrum": str(rng.choice(["positive", "graded", "deficient", "indefinite"], p=[.45, .2, .15, .2])),
            "scale": float(10.0 ** rng.integers(-3, 4)), "method": method, "niter": int(rng.integers(8, 31)) if long else int(rng.integers(0, 5)),
            "tol": float(10.0 ** rng.uniform(-4, -1)) if long and rng.uniform() < 0.7 else 1e-15,
            "eps": float(10.0 ** rng.uniform(-4, -2)) if rng.uniform() < 0.3 else (1e-4 if single else float(10.0 ** rng.uniform(-12, -6))),
            "layout": str(rng.choice(["plain", "permuted", "slice", "step", "conj"])), "workspace": int(rng.choice([0, 0, 1, 4096])),
            "points": 6, "values": ["Cholesky", "qr", ""], "seed": int(rng.integers(2 ** 31))}


def cases(rng, tier):
    so = native.build()
    out = []
    for i in range(24 if tier == "quick" else 320):
        items = [item(rng, "solve") for _ in range(36)] + [item(rng, "fail") for _ in range(3)] + [item(rng, "invalid")]
        if i % 4 == 0:
            items.append({"kind": "evolve", "dtype": str(rng.choice(["float64", "complex128"])), "method": str(rng.choice(["cholesky", "pinv"])), "seed": int(rng.integers(2 ** 31))})
        out.append({"kind": "batch", "so": so, "items": items, "seed": int(rng.integers(2 ** 31))})
    return out


def run_case(case):
    folder = scratch()
    try:
        return inner(case, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def inner(case, folder):
    r = Result()
    so = case["so"]
    if not os.path.exists(so):
        so = native.build()
    job, out = os.path.join(folder, "job.json"), os.path.join(folder, "out.jsonl")
    json.dump({"verif": VERIF, "so": so, "items": case["items"]}, open(job, "w"))
    env = native.sanitizer_env()
    env["VERIF_REPO"] = REPO
    p = subprocess.run([sys.executable, os.path.join(VERIF, "vlib", "cutensorworker.py"), job, out], env=env, cwd=folder, capture_output=True, text=True, timeout=400)
    lines = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
    started = [x["start"] for x in lines if "start" in x]
    if not any(x.get("end") for x in lines):
        it = case["items"][started[-1]] if started else None
        text = p.stderr
        k = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error"))
        if it is None or (k < 0 and p.returncode > 0 and "Sanitizer" not in text):
            raise RuntimeError(f"worker ended with {p.returncode}: {text[-2000:]}")
        r.violate("sanitizer", f"process ended with {p.returncode} in {it}: {text[max(0, k - 100):k + 1200] if k >= 0 else text[-600:]}")
        r.nontrivial = True
    decided = 0
    for info in lines:
        if "done" not in info:
            continue
        it = case["items"][info["done"]]
        tag = json.dumps({k: v for k, v in it.items() if k not in ("values", "points")})
        if "exception" in info:
            if info["origin"] == "code" or "error" in info["exception"] and "cutensor" in info["trace"]:
                r.violate("exception", f"{info['exception']} for {tag}", trace=info["trace"])
                continue
            # the extension raises through the harness frame that called it
            r.violate("exception", f"{info['exception']} for {tag}", trace=info["trace"])
            continue
        ev = info["events"]
        r.check(info["misuse"] == 0, "library-use", f"{info['what']} for {tag}")
        r.check(info["live"] == 0, "leak", f"library objects left: {info.get('left')} for {tag}")
        r.check(info["handles"] <= 2, "leak", f"{info['handles']} library handles alive for {tag}")
        for a, b in (("contractions", "contractions"), ("factorizations", "factorizations"), ("not_positive", "lu_fallbacks"), ("created", "objects_created")):
            r.count(b, ev[a])
        if it["kind"] == "evolve":
            r.count("evolutions")
            r.check(info["backends"] == ["torch", "cutensor"], "backend", f"backends used: {info['backends']}")
            r.check(ev["contractions"] > 0, "backend", "an evolution with backend='cutensor' made no library contraction")
            a, b = info["evolved"]
            r.close(b, a, 1e-7, "evolution", f"torch {a}, cutensor {b} for {tag}")
            continue
        r.count("problems")
        r.count(it["dtype"])
        r.count(it["method"])
        r.count("layout_" + it["layout"])
        r.count("workspace_plans", it["workspace"] > 0)
        r.check(not info["modified"], "inputs", f"als_solve modified {info['modified']} for {tag}")
        r.check(not info.get("modified_by_solver"), "inputs", f"the solver modified {info.get('modified_by_solver')} for {tag}")
        want = [[it["n"], it["b"], it["p"]]] * 2 + [it["dtype"]] * 2
        r.check(info["shapes"] == want, "shape", f"{info['shapes']} for {tag}")
        if it["kind"] == "invalid":
            r.check(all(info["raised"]), "invalid", f"methods {it['values']} raised {info['raised']}")
        if it["kind"] == "fail":
            r.count("injected_failures", info["injected"])
            r.check(not info["survived"], "failures", f"failures of library calls {info['survived']} went unnoticed for {tag}")
            r.check(not info["leaks"], "leak-after-failure", f"library objects left after a failure of call: {info['leaks'][:3]} for {tag}")
            r.check(not info["misuses"], "library-use", f"after a failure of call: {info['misuses'][:3]} for {tag}")
        if info.get("undecided"):
            r.count("undecided")
            continue
        r.count("early_stops", 0 < info["iterations"] < it["niter"])
        # where the last iterations only move rounding noise, the number of iterations may differ
        d, tol = info["direct"]
        if info["noisy"]:
            tol = max(tol, 1e-5 if "64" == it["dtype"][-2:] and it["dtype"] == "float64" or it["dtype"] == "complex128" else 3e-2)
        if tol < 1e-2:
            decided += 1
            r.le(d, tol, "als-solve", f"difference to the reference for {tag}")
        if "solver" in info:
            d, tol = info["solver"]
            if info["solver_noisy"]:
                tol = max(tol, 1e-5 if it["dtype"] in ("float64", "complex128") else 3e-2)
            if tol < 1e-2:
                r.count("backend_comparisons")
                r.le(d, tol, "backends", f"difference of the backends for {tag}")
    r.nontrivial = decided > 0 or r.nontrivial
    r.fingerprint = str(case["seed"])
    r.sample = {"problems": len(case["items"]), "decided": decided, "first": case["items"][0]}
    return r
