"""C16: independent objects never influence each other."""
import copy
import os
import shutil
import numpy as np
import torch
from vlib import api, ops, forked
from vlib.core import Result
from vlib.checks.c15 import scratch

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: the trace of every object in a random interleaving compared with the trace of the same operations run alone in a process of its own; dictionaries passed in watched for writes"
LEVEL_NOTE = "Held on the executed interleavings; the reference runs start from clean forks of the same process."
RULE = ("Two to four Ipeps objects of random cells, dimensions, dtypes, options and models, created at random points (some from one shared "
        "configuration dictionary), performing random operations interleaved at random, with custom models under colliding names, models "
        "handed over as instances, files saved and loaded, tensors modified, objects deleted, and dictionaries changed after use; every "
        "operation has its own random seed; non-trivial with at least two objects evolving; distinct by seed.")
ASSUMPTIONS = ["operations follow each other, none run concurrently in threads"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("objects", "operations", "switches", "set_model", "evolve", "save", "load", "shared_configs", "late_objects", "deleted_objects",
                   "dictionary_mutations", "name_collisions", "builtin_names", "bare_configs", "attribute_models")
BUDGET = {"quick": 200, "thorough": 1500}
CASE_TIMEOUT = 300
KINDS = ("renormalize", "evolve", "evolve", "measure", "measure", "set_chi", "set_model", "set_model_params", "perturb", "save", "load", "instance", "vandalize")


def cases(rng, tier):
    return [{"kind": "interleaving", "objects": int(rng.integers(2, 5)), "seed": int(rng.integers(2 ** 31))} for i in range(80 if tier == "quick" else 800)]


def random_op(rng, names):
    k = str(rng.choice(list(KINDS)))
    if k in ("save", "load", "vandalize"):
        return {"op": k, "seed": int(rng.integers(2 ** 31))}
    if k == "instance":
        # the last class answers from an attribute of the instance
        return {"op": k, "cls": int(rng.integers(3)), "params": {"a": float(rng.uniform(0.2, 2)), "b": float(rng.uniform(0.2, 2))},
                "weight": float(rng.uniform(0.2, 3)) if rng.uniform() < 0.5 else None, "how": str(rng.choice(["evolve", "measure"])), "seed": int(rng.integers(2 ** 31))}
    op = ops.random_op(rng, (k,))
    if k == "set_model":
        op["name"] = names[int(rng.integers(len(names)))]
    if k == "evolve":
        op["steps"] = int(rng.integers(0, 3))
    return op


def bare(rng, cfg):
    """a configuration that leaves the parameters to set_model_params"""
    cfg["model"] = {"name": ["ising", "heisenberg"][int(rng.integers(2))], **({"params": {}} if rng.uniform() < 0.7 else {})}


def complete(rng, cfg):
    """the parameters a bare configuration still needs"""
    if cfg["model"].get("params"):
        return []
    want = {"J": float(rng.uniform(0.5, 1.5))} if cfg["model"]["name"].lower() == "heisenberg" else {"jz": float(rng.uniform(0.5, 2)), "hx": float(rng.uniform(0.5, 3))}
    return [{"op": "set_model_params", "params": want, "seed": int(rng.integers(2 ** 31))}]


def scenario(rng, n):
    names = [None, "mine", "Other", "ising", "Heisenberg"]
    shared = ops.random_config(rng)
    if rng.uniform() < 0.4:
        bare(rng, shared)
    objs, todo = [], []
    for i in range(n):
        share = rng.uniform() < 0.5
        cfg = shared if share else ops.random_config(rng)
        if not share and rng.uniform() < 0.5:
            bare(rng, cfg)
        objs.append({"cfg": cfg, "shared": share})
        todo.append([{"op": "create", "seed": int(rng.integers(2 ** 31))}] + complete(rng, cfg) + [random_op(rng, names) for _ in range(int(rng.integers(3, 8)))]
                    + [{"op": "evolve", "dtau": 0.05, "steps": 1, "seed": int(rng.integers(2 ** 31))}, {"op": "measure", "seed": 1}, {"op": "delete", "seed": 1}])
    # operations that would fail alone are of no interest: the built-in models need their own parameters
    order = []
    left = [len(t) for t in todo]
    while sum(left):
        i = int(rng.choice(np.flatnonzero(np.array(left) > 0)))
        # bursts as well as strict alternation
        for _ in range(int(rng.integers(1, 3))):
            if left[i]:
                order.append(i)
                left[i] -= 1
    return objs, todo, order


def fresh_answer(ip, op):
    """the answer of one operation together with the state it left behind"""
    from acetn.model.model import Model  # noqa: F401
    if op["op"] == "instance":
        weight = op["weight"]
        cls = ops.model_class(op["cls"]) if weight is None else ops.weighted_class()

        class Cfg:
            name, params, dtype, device, dim = "x", dict(op["params"]) if weight is None else {}, ip.dtype, ip.device, 2
        torch.manual_seed(op["seed"])
        m = cls(Cfg)
        if weight is not None:
            m.weight = weight
        if op["how"] == "evolve":
            ip.evolve(0.04, 1, model=m)
            return None
        return {k: float(v) for k, v in ip.measure(model=m).items()}
    return ops.apply(ip, op)


def play(objs, todo, order, folder, only=None, vandal=False):
    """run (a subset of) the interleaving; the trace of every object"""
    live, trace, notes = {}, {i: [] for i in range(len(objs))}, []
    pos = [0] * len(objs)
    shared = {}
    handed = []
    for i in order:
        op = todo[i][pos[i]]
        pos[i] += 1
        if only is not None and i != only:
            continue
        if op["op"] == "create":
            key = "shared" if objs[i]["shared"] and only is None else i
            cfg = shared.setdefault(key, copy.deepcopy(objs[i]["cfg"]))
            torch.manual_seed(op["seed"])
            before = copy.deepcopy(cfg)
            live[i] = api.new(cfg)
            if cfg != before:
                notes.append(("config-modified", f"the constructor changed the configuration {before} to {cfg}"))
            handed.append((f"configuration of object {i}", cfg, before))
            out = None
        elif op["op"] == "delete":
            if i not in live:
                continue
            del live[i]
            trace[i].append((op["op"], None, None))
            continue
        elif op["op"] == "save":
            live[i].save(os.path.join(folder, f"{'alone' if only is not None else 'all'}-{i}.pt"))
            out = None
        elif op["op"] == "load":
            path = os.path.join(folder, f"{'alone' if only is not None else 'all'}-{i}.pt")
            if os.path.exists(path):
                live[i].load(path)
            out = None
        elif op["op"] == "set_model":
            params = dict(op["params"])
            if str(op["name"]).lower() == "heisenberg":
                params["J"] = 0.8
            before = dict(params)
            live[i].set_model(ops.model_class(op["cls"]), params, *([op["name"]] if op["name"] else []))
            handed.append((f"parameters of object {i}", params, before))
            out = None
        elif op["op"] == "vandalize":
            # the caller reuses its dictionaries for something else
            out = None
            if vandal:
                pending = any(objs[j]["shared"] and pos[j] == 0 for j in range(len(objs)))
                for what, obj, before in handed:
                    if obj != before:
                        notes.append(("dictionary-modified", f"{what}: {before} became {obj}"))
                for what, obj, before in handed:
                    if what.startswith("parameters"):
                        obj.clear()
                        obj.update(a=77.0, b=-55.0)
                    elif not (pending and obj is shared.get("shared")):
                        obj["TN"]["dims"].update(chi=2, phys=3, bond=5)
                        obj["TN"].update(nx=7)
                        obj["ctmrg"].update(steps=0, projectors="nonsense")
                        obj["evolution"].update(update_type="nonsense", als_niter=0)
                        obj["model"].update(name="nonsense")
                        obj["model"].setdefault("params", {}).clear()
                    notes.append(("mutation", what))
                handed = [(what, obj, copy.deepcopy(obj)) for what, obj, before in handed]
        else:
            # random answers must not depend on anything else
            out = fresh_answer(live[i], op)
        ip = live[i]
        trace[i].append((op["op"], out, ops.snapshot(ip)))
    for what, obj, before in handed:
        if obj != before:
            notes.append(("dictionary-modified", f"{what}: {before} became {obj}"))
    notes.append(("global", (str(torch.get_default_dtype()), torch.is_grad_enabled(), os.getcwd(), torch.get_num_threads())))
    return trace, notes


def run_case(case):
    folder = scratch()
    try:
        return inner(case, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def inner(case, folder):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    objs, todo, order = scenario(rng, case["objects"])
    from tqdm import tqdm
    tqdm.get_lock()       # created once, before the forks
    n = len(objs)

    def story(i):
        return [o["op"] + (f"({o['name']})" if o["op"] == "set_model" else "") for o in todo[i]]
    got = forked.run(play, objs, todo, order, folder, None, True)
    alone = [forked.run(play, objs, todo, order, folder, i) for i in range(n)]
    if any(a[0] == "error" for a in alone):
        bad = next(i for i, a in enumerate(alone) if a[0] == "error")
        r.violate("exception", f"object {bad} alone: {alone[bad][1]} in {story(bad)}", trace=alone[bad][2][-2500:])
        r.nontrivial = True
        return r
    if not r.check(got[0] == "ok", "interleaving", f"{got[1]} in the interleaving only; {[story(i) for i in range(n)]}, order {order}"):
        r.nontrivial = True
        return r
    trace, notes = got[1]
    for kind, text in notes:
        if kind == "mutation":
            r.count("dictionary_mutations")
        elif kind == "global":
            r.check(all(a[1][1][-1][1] == text for a in alone), "global-state", f"global state {text} afterwards")
        else:
            r.check(False, "dictionaries", text)
    r.check(True, "dictionaries", "")
    for i in range(n):
        want = alone[i][1][0][i]
        r.check(len(want) == len(trace[i]), "length", f"object {i}")
        for k, ((op, out, snap), (op2, out2, snap2)) in enumerate(zip(trace[i], want)):
            tag = f"operation {k} ({op}) of object {i}, story {story(i)}, order {order}"
            r.count("operations")
            r.count(op)
            if op == "delete":
                r.count("deleted_objects")
                continue
            if out2 is not None:
                ok = out is not None and ops.close(out2, out, 1e-7)
                if not r.check(ok, "answers", f"{out} in company, {out2} alone; {tag}"):
                    break
            diff = ops.differences(snap, snap2, ("sites", "bonds", "dims", "cell", "dtype"))
            if not r.check(not diff, "state", f"{diff[:3]}; {tag}"):
                break
            bad = [(s, f"{np.abs(snap['tensors'][s]['A'] - snap2['tensors'][s]['A']).max():.1e}") for s in snap["tensors"]
                   if snap["tensors"][s]["A"].shape != snap2["tensors"][s]["A"].shape
                   or np.abs(snap["tensors"][s]["A"] - snap2["tensors"][s]["A"]).max() > 1e-6]
            if not r.check(not bad, "state", f"site tensors {bad}; {tag}"):
                break
            shapes = [(x.shape, y.shape) for s in snap["tensors"] for q in "CE" for x, y in zip(snap["tensors"][s][q], snap2["tensors"][s][q]) if x.shape != y.shape]
            if not r.check(not shapes, "state", f"boundary shapes {shapes[:3]}; {tag}"):
                break
            r.count("bitwise", not ops.differences(snap, snap2, ("tensors",)))
    r.count("bare_configs", sum(not o["cfg"]["model"].get("params") for o in objs))
    r.count("attribute_models", sum(o.get("weight") is not None for t in todo for o in t))
    r.count("objects", n)
    r.count("switches", sum(a != b for a, b in zip(order, order[1:])))
    r.count("shared_configs", sum(o["shared"] for o in objs) >= 2)
    r.count("late_objects", sum(order.index(i) > 3 for i in range(n)))
    names = [{str(o["name"]).lower() for o in t if o["op"] == "set_model"} for t in todo]
    r.count("name_collisions", sum(bool(names[i] & names[j]) for i in range(n) for j in range(i)))
    r.count("builtin_names", sum(bool(x & {"ising", "heisenberg"}) for x in names))
    r.nontrivial = True
    r.fingerprint = f"{case['seed']}"
    r.sample = {"objects": n, "order": order, "first": story(0)}
    return r
