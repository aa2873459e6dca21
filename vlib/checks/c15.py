"""C15: saving and loading preserves the state and the future."""
import os
import sys
import json
import shutil
import tempfile
import subprocess
import numpy as np
import torch
from vlib import api, ops
from vlib.core import Result, REPO, VERIF

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: bitwise snapshots around save() and load(), replayed continuations of original, loader and a fresh process compared"
LEVEL_NOTE = "Held on the executed histories; restored tensors are compared bitwise, continuations through everything measure() reports."
RULE = ("Random histories (evolve with even and odd step counts, renormalize, perturbed tensors, changes of model and chi) with saves in "
        "between, loaded into fresh objects, objects with a history, objects of other dtypes and chi, the object itself and a new "
        "process; files overwritten and deleted; continuations with identical random numbers; non-trivial after an evolution; distinct by seed.")
ASSUMPTIONS = ["continuations use the same configuration and model as the original"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("saves", "loads", "rollbacks", "dtype_conversions", "odd_histories", "new_processes", "overwritten", "deleted", "continuations")
BUDGET = {"quick": 100, "thorough": 1200}


def cases(rng, tier):
    return [{"kind": "history", "process": i % 4 == 0, "seed": int(rng.integers(2 ** 31))} for i in range(48 if tier == "quick" else 900)]


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-c15-", dir=base)


def run_case(case):
    d = scratch()
    try:
        return inner(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inner(case, folder):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    cfg = ops.random_config(rng)
    ip = api.new(cfg)
    kinds = ("renormalize", "evolve", "evolve", "measure", "perturb", "set_chi")
    # in an evolved state the model's initial state has been installed
    setup = [{"op": "set_model", "cls": int(rng.integers(3)), "params": {"a": 1.1, "b": 0.6}, "name": None, "seed": 1}] if rng.uniform() < 0.5 else []
    first = {"op": "evolve", "dtau": 0.05, "steps": int(rng.integers(1, 4)), "seed": int(rng.integers(2 ** 31))}
    history = setup + [first] + [ops.random_op(rng, kinds) for _ in range(int(rng.integers(0, 4)))]
    for op in history:
        ops.apply(ip, op)
    steps = sum(o.get("steps", 0) for o in history)
    r.count("odd_histories", steps % 2)
    tag = f"cell {ip.nx}x{ip.ny}, {cfg['dtype']}, {cfg['evolution']['update_type']}, history {[o['op'] + str(o.get('steps', '')) for o in history]}"
    path = os.path.join(folder, "state file.pt")
    before = ops.snapshot(ip)
    chi0 = ip.dims["chi"]
    before_m = ops.probe(ip)
    ip.save(path)
    r.count("saves")
    diff = ops.differences(before, ops.snapshot(ip))
    r.check(not diff, "save-modifies", f"save() changed {diff[:3]}; {tag}")
    r.check(ops.probe(ip) == before_m, "save-modifies", f"measurements differ after save(); {tag}")
    future = [ops.random_op(rng, ("renormalize", "evolve", "measure")) for _ in range(2)]
    future.append({"op": "evolve", "dtau": 0.07, "steps": int(rng.integers(1, 4)), "seed": int(rng.integers(2 ** 31))})

    def load(q, where):
        own = (dict(q.dims), str(q.dtype), repr(q.config))
        q.load(path)
        now = (dict(q.dims), str(q.dtype), repr(q.config))
        r.check(own == now, "loader-options", f"{where}: dimensions and options of the loader changed from {own} to {now}; {tag}")

    def loaded(q, where, expect=before, dt=None):
        r.count("loads")
        now = ops.snapshot(q)
        if dt is None:
            diff = ops.differences(expect, now, ("tensors", "sites", "cell"))
            r.check(not diff, "load-tensors", f"{where}: loaded tensors differ in {diff[:3]}; {tag}")
        r.check(set(now["bonds"]) == set(expect["bonds"]) and len(now["bonds"]) == len(expect["bonds"]), "load-bonds", f"{where}: bonds after loading; {tag}")
        for s in q.site_list:
            ts = [q[s]["A"], *q[s]["C"], *q[s]["E"]]
            r.check(all(t.dtype == q.dtype for t in ts), "load-dtype", f"{where}: dtypes {set(t.dtype for t in ts)} in a network of {q.dtype}; {tag}")

    def same_model(q):
        for op in setup:
            ops.apply(q, op)
        q.set_chi(chi0)

    def follow(q):
        out = [ops.apply(q, op) for op in future]
        return [o for o in out if o is not None] + [ops.probe(q)]

    # another object that already lived a life of its own
    other = api.new(cfg)
    ops.apply(other, {"op": "evolve", "dtau": 0.03, "steps": int(rng.integers(0, 3)) + 1, "seed": 5})
    if rng.uniform() < 0.5:
        ops.apply(other, {"op": "set_chi", "chi": 3, "seed": 1})
        ops.apply(other, {"op": "renormalize", "seed": 1})
    # a fresh one, in another directory with the default file name
    fresh = api.new(cfg)
    # the future of the original
    want = follow(ip)
    end = ops.snapshot(ip)
    load(other, "object with a history")
    loaded(other, "object with a history")
    same_model(other)
    load(fresh, "fresh object")
    loaded(fresh, "fresh object")
    same_model(fresh)
    r.check(ops.close(ops.probe(fresh), before_m, 1e-10), "load-measures", f"measured {ops.probe(fresh)} after loading, {before_m} before saving; {tag}")
    # the file is no longer needed once loaded
    mode = int(rng.integers(3))
    if mode == 0:
        os.remove(path)
        r.count("deleted")
    elif mode == 1:
        third = api.new(cfg)
        ops.apply(third, {"op": "evolve", "dtau": 0.1, "steps": 1, "seed": 9})
        third.save(path)
        r.count("overwritten")
        q = api.new(cfg)
        load(q, "overwritten file")
        loaded(q, "overwritten file", ops.snapshot(third))
    for q, where in ((other, "object with a history"), (fresh, "fresh object")):
        got = follow(q)
        r.count("continuations")
        ok = len(got) == len(want) and all(ops.close(x, y) for x, y in zip(got, want))
        r.check(ok, "continuation", f"{where}: continued with {[o['op'] + str(o.get('steps', '')) for o in future]} to {got}, the original to {want}; {tag}")
        r.count("bitwise_continuations", not ops.differences(end, ops.snapshot(q), ("tensors", "bonds")))
    if mode == 2:
        # back to the saved state in the original itself
        diff = ops.differences(end, ops.snapshot(ip))
        r.check(not diff, "independence", f"the original changed while copies were loaded and evolved: {diff[:3]}; {tag}")
        load(ip, "roll back")
        loaded(ip, "roll back")
        ip.set_chi(chi0)
        got = follow(ip)
        r.count("rollbacks")
        r.check(len(got) == len(want) and all(ops.close(x, y) for x, y in zip(got, want)), "continuation", f"roll back: {got} instead of {want}; {tag}")
        # other number fields and precisions
        for dt in ("complex128", "float32", "complex64"):
            if cfg["dtype"] == "complex128" and dt == "float32":
                continue
            c2 = json.loads(json.dumps(cfg))
            c2["dtype"] = dt
            q = api.new(c2)
            load(q, f"loader of {dt}")
            loaded(q, f"loader of {dt}", dt=dt)
            for s in q.site_list:
                for key in "ACE":
                    xs = [before["tensors"][s]["A"]] if key == "A" else before["tensors"][s][key]
                    ys = [q[s]["A"]] if key == "A" else q[s][key]
                    for x, y in zip(xs, ys):
                        x = torch.from_numpy(x).to(q.dtype)
                        r.check(torch.equal(x, y), "load-conversion", f"{key} of {s} converted to {dt}; {tag}")
            r.count("dtype_conversions")
        if case["process"]:
            r.count("new_processes")
            code = ("import sys, json; sys.path.insert(0, sys.argv[1]); from vlib import core; core._init_worker(); core._quiet();"
                    "from vlib import api, ops; a = json.loads(sys.argv[2]); ip = api.new(a['cfg']); ip.load(a['path']);"
                    "[ops.apply(ip, o) for o in a['setup']]; ip.set_chi(a['chi']);"
                    "print('OUT' + json.dumps([ops.probe(ip)] + [x for x in [ops.apply(ip, o) for o in a['future']] if x] + [ops.probe(ip)]))")
            arg = json.dumps({"cfg": cfg, "path": path, "setup": setup, "future": future, "chi": chi0})
            p = subprocess.run([sys.executable, "-c", code, VERIF, arg], capture_output=True, text=True, cwd=folder,
                               env={**os.environ, "VERIF_REPO": REPO, "OMP_NUM_THREADS": "1"}, timeout=150)
            line = [x for x in p.stdout.splitlines() if x.startswith("OUT")]
            if r.check(p.returncode == 0 and line, "new-process", f"loading in a new process failed: {p.stderr[-400:]}; {tag}"):
                got = json.loads(line[0][3:])
                r.check(ops.close(got[0], before_m, 1e-10), "new-process", f"measured {got[0]} in a new process, {before_m} before saving; {tag}")
                ok = len(got) == len(want) + 1 and all(ops.close(x, y) for x, y in zip(got[1:], want))
                r.check(ok, "new-process", f"continued to {got[1:]} in a new process, the original to {want}; {tag}")
    r.nontrivial = True
    r.fingerprint = f"{case['seed']}"
    r.sample = {"history": [o["op"] for o in history], "future": [o["op"] for o in future], "energy": want[-1].get("Energy")}
    return r
