"""C19: distributed runs agree with serial runs and between ranks."""
import json
import os
import shutil
import socket
import subprocess
import sys
import time
import numpy as np
from vlib import api, ops, states
from vlib.core import Result, REPO, VERIF
from vlib.checks.c15 import scratch

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: programs on two to eight processes with injected delays, every rank's tensors compared bitwise after every operation and the answers compared with the serial program"
LEVEL_NOTE = "Held on the executed programs and schedules; gloo on the loopback device, no GPUs. A program that does not finish is a violation."
RULE = ("Random programs of creations, evolutions (both updates), renormalizations, measurements, copies, loads and deletions of several "
        "objects of random cells, dtypes and projectors, on every number of processes from two to the number of cores, with different random "
        "numbers on every rank and random delays before operations and collectives that favour either end; non-trivial with at least two ranks "
        "and an evolution; distinct by seed and number of processes.")
ASSUMPTIONS = ["all ranks run the same program; evolutions are compared with the serial ones on states with a short correlation length"]
MIN_NONTRIVIAL = 5
REQUIRED_EVENTS = ("ranks", "operations", "rank_comparisons", "serial_comparisons", "collectives", "delays", "full_updates", "simple_updates", "odd_worlds",
                   "cells_not_divisible", "deleted", "several_objects", "random_starts", "loads")
BUDGET = {"quick": 200, "thorough": 1800}
CASE_TIMEOUT = 420
WORKERS = 3
CELLS = [(2, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (1, 1), (2, 1), (1, 3), (3, 1), (1, 2)]
LIMIT = 120


def worlds():
    n = min(8, os.cpu_count() or 1)
    return [w for w in (2, 3, 4, 5, 6, 7, 8) if w <= n]


def cases(rng, tier):
    ws = worlds()
    picks = [8, 2, 3, 4, 2, 5, 3, 6, 4, 7, 2, 3] if tier == "quick" else [ws[i % len(ws)] for i in range(140)]
    return [{"kind": "program", "world": int(w), "delay": float([0.0, 0.05, 0.4][i % 3]), "slow": ["first", "last"][i % 2], "objects": 3 if tier == "quick" else 4,
             "seed": int(rng.integers(2 ** 31))} for i, w in enumerate(picks) if w in ws]


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def program(rng, arrays, folder, n):
    """the actions of a random program, several objects interleaved"""
    per = []
    for i in range(n):
        nx, ny = states.cell(rng, CELLS)
        name, key = f"o{i}", f"s{i}"
        kind = ["evolve", "renormalize", "start", "evolve"][int(rng.integers(4))]
        if kind != "renormalize" and (nx == 1 or ny == 1):
            nx, ny = CELLS[int(rng.integers(6))]
        cplx = rng.uniform() < 0.4
        update = str(rng.choice(["full", "simple"]))
        cfg = api.config(nx, ny, 2, 8, 2, "complex128" if cplx else "float64", 7,
                         ctmrg={"projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"]))},
                         evolution={"update_type": update, "use_gauge_fix": bool(rng.integers(2))},
                         model={"name": "ising", "params": {"jz": 1.0, "hx": 3.5}} if rng.uniform() < 0.5 else {"name": "heisenberg", "params": {"J": 0.7}})
        acts = [{"do": "create", "cfg": cfg}]
        if kind == "start":
            # an evolution from random noise: ranks have to agree although they draw different numbers
            cfg["model"] = {"name": "ising", "params": {"jz": 0.5, "hx": 3.0}}
            acts += [{"do": "evolve", "dtau": 0.05, "steps": int(rng.integers(1, 3))}, {"do": "measure"}, {"do": "evolve", "dtau": 0.02, "steps": 1}, {"do": "measure"}]
            if rng.uniform() < 0.5:
                acts.insert(1, {"do": "set_model", "cls": int(rng.integers(3)), "params": {"a": 2.0, "b": 0.3}})
        else:
            A, _ = states.short_state(rng, nx, ny, 2, 2, cplx, 0.3, ratio=0.15)
            for s, a in states.normalized(A).items():
                arrays[f"{key}|{s[0]}|{s[1]}"] = a
            acts.append({"do": "state", "key": key, "keep": True})
            acts.append({"do": "converge"})
            if kind == "evolve":
                acts += [{"do": "evolve", "dtau": float(rng.uniform(0.005, 0.02)), "steps": int(rng.integers(1, 4)), "keep": True, "compare": update},
                         {"do": "converge"}, {"do": "measure"}]
            else:
                acts += [{"do": "renormalize"}, {"do": "set_chi", "chi": int(rng.integers(5, 10))}, {"do": "renormalize"}, {"do": "measure"}]
            if rng.uniform() < 0.4:
                acts += [{"do": "copy", "target": f"c{i}"}]
            if rng.uniform() < 0.5:
                acts += [{"do": "save", "file": name}, {"do": "evolve", "dtau": 0.01, "steps": 1} if kind == "evolve" else {"do": "renormalize"}, {"do": "reload", "file": name}, {"do": "measure"}]
        if rng.uniform() < 0.7:
            acts.append({"do": "delete"})
        for a in acts:
            a["name"] = name
            a["seed"] = int(rng.integers(2 ** 20))
        per.append(acts)
    out, left = [], [len(p) for p in per]
    together = rng.uniform() < 0.7
    while sum(left):
        alive = np.flatnonzero(np.array(left) > 0)
        i = int(rng.choice(alive)) if together else int(alive[0])
        out.append(per[i][len(per[i]) - left[i]])
        left[i] -= 1
    return out


def launch(job, folder, world, tag):
    """start all ranks, wait for them; list of (exit code, output, errors)"""
    path = os.path.join(folder, f"job-{tag}.json")
    json.dump(job, open(path, "w"))
    port = free_port()
    procs = []
    for rank in range(world):
        env = {k: v for k, v in os.environ.items() if k not in ("RANK", "WORLD_SIZE", "MASTER_ADDR", "MASTER_PORT", "LOCAL_RANK")}
        env.update(OMP_NUM_THREADS="1", VERIF_REPO=REPO)
        if world > 1:
            env.update(RANK=str(rank), WORLD_SIZE=str(world), LOCAL_RANK=str(rank), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), GLOO_SOCKET_IFNAME="lo")
        err = open(os.path.join(folder, f"err-{tag}-{rank}"), "w+")
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "vlib", "distworker.py"), path, os.path.join(folder, f"out-{tag}-{rank}.json")],
                             stdout=subprocess.DEVNULL, stderr=err, cwd=folder, env=env, start_new_session=True)
        procs.append((p, err))
    return procs, port


def wait(procs, folder, tag, limit):
    end = time.time() + limit
    done = []
    failed = None
    try:
        while time.time() < end:
            codes = [p.poll() for p, _ in procs]
            if all(c is not None for c in codes):
                break
            if any(c not in (None, 0) for c in codes):
                # one rank failed; the others wait for it in vain
                failed = failed or time.time() + 8
                if time.time() > failed:
                    break
            time.sleep(0.05)
    finally:
        for rank, (p, err) in enumerate(procs):
            hung = p.poll() is None
            if hung:
                p.kill()
                p.wait()
            err.seek(0)
            text = err.read()
            err.close()
            path = os.path.join(folder, f"out-{tag}-{rank}.json")
            done.append({"code": p.returncode, "hung": hung, "err": text[-1500:], "out": json.load(open(path)) if os.path.exists(path) and not hung and p.returncode == 0 else None})
    return done


def run_case(case):
    folder = scratch()
    try:
        return inner(case, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def inner(case, folder):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    arrays = {}
    actions = program(rng, arrays, folder, case["objects"])
    np.savez(os.path.join(folder, "arrays.npz"), **arrays)
    world = case["world"]
    job = {"verif": VERIF, "seed": case["seed"], "arrays": os.path.join(folder, "arrays.npz"), "actions": actions, "delay": case["delay"], "slow": case["slow"],
           "world": world, "folder": folder}
    story = [f"{a['name']}.{a['do']}" for a in actions]
    tag = f"{world} processes, {case['delay']} s delays, program {story}"
    serial, _ = launch(job, folder, 1, "serial")
    for attempt in range(2):
        ranks, port = launch(job, folder, world, f"dist{attempt}")
        got = wait(ranks, folder, f"dist{attempt}", LIMIT)
        # another process may have taken the port in the meantime
        if not any("EADDRINUSE" in g["err"] or "address already in use" in g["err"].lower() for g in got):
            break
    want = wait(serial, folder, "serial", LIMIT)[0]
    if want["out"] is None:
        if "/acetn/" in want["err"].replace(REPO + "/acetn", "/acetn/"):
            r.violate("exception", f"the serial program failed: {want['err'][-600:]}; {tag}")
            r.nontrivial = True
            return r
        raise RuntimeError(f"serial program: exit code {want['code']}, hung {want['hung']}: {want['err']}")
    bad = [(i, g) for i, g in enumerate(got) if g["out"] is None]
    if bad:
        first = next((x for x in bad if not x[1]["hung"] and "Traceback" in x[1]["err"]), bad[0])
        hung = [i for i, g in bad if g["hung"]]
        r.violate("completion", f"ranks {[i for i, _ in bad]} did not complete (waiting: {hung}); rank {first[0]} exit code {first[1]['code']}: {first[1]['err'][-700:]}; {tag}")
        r.nontrivial = True
        r.fingerprint = f"{case['seed']}"
        return r
    r.check(True, "completion", "")
    recs = [g["out"]["records"] for g in got]
    for rank, g in enumerate(got):
        r.count("collectives", g["out"]["collectives"])
        r.count("delays", g["out"]["delays"])
        r.check(not g["out"]["group_left"], "process-group", f"rank {rank}: process group left behind after all objects were deleted; {tag}")
    spoiled = set()
    for i, a in enumerate(actions):
        here = f"action {i} {a['name']}.{a['do']}; {tag}"
        first = recs[0][i]
        for rank in range(world):
            rec = recs[rank][i]
            r.count("rank_comparisons")
            if a["name"] in spoiled:
                continue
            for k in rec.get("digest", {}):
                if not r.check(rec["digest"][k] == first["digest"][k], "ranks-agree", f"tensors {k} of rank {rank} differ from those of rank 0 after {here}"):
                    spoiled.add(a["name"])
            if "values" in rec:
                r.check(rec["values"] == first["values"], "ranks-agree", f"rank {rank} measured {rec['values']}, rank 0 {first['values']} in {here}")
            if "bonds" in rec:
                r.check(rec["bonds"] == first["bonds"], "ranks-agree", f"bonds of rank {rank} in {here}")
            if "world" in rec:
                r.check(rec["world"] == [rank, world, True], "identity", f"rank {rank} of {world} believes to be {rec['world']} in {here}")
        r.count("operations")
        r.count({"delete": "deleted", "reload": "loads", "copy": "copies"}.get(a["do"], a["do"]))
        ser = want["out"]["records"][i]
        if a["do"] == "evolve":
            r.count("random_starts", a.get("keep") is None)
        if a.get("compare"):
            r.count("full_updates" if a["compare"] == "full" else "simple_updates")
            tol = 1e-9 if a["compare"] == "simple" else 1e-4
            r.count("serial_comparisons")
            for s in ser["A"]:
                x = np.array(ser["A"][s][0]) + 1j * np.array(ser["A"][s][1])
                y = np.array(first["A"][s][0]) + 1j * np.array(first["A"][s][1])
                if a["compare"] == "simple":
                    r.close(y, x, tol, "serial-simple", f"site tensor {s} after {here}")
        if a["do"] == "state":
            r.check(ser["digest"]["A"] == first["digest"]["A"], "serial-state", here)
        if a["do"] == "converge":
            r.count("serial_comparisons")
            res = max(ser["residual"], first["residual"])
            evolved = any(b["name"] == a["name"] and b["do"] == "evolve" for b in actions[:i])
            full = any(b["name"] == a["name"] and b.get("compare") == "full" for b in actions[:i])
            for k in ser["values"]:
                r.close(first["values"][k], ser["values"][k], 1e-8 + 20 * res + (1e-6 if full else 1e-8 if evolved else 0), "serial-full" if full else "serial-converged", f"{k} in {here}")
    r.count("ranks", world)
    r.count("odd_worlds", world % 2)
    half = max(1, world // 2)
    r.count("cells_not_divisible", sum(a["do"] == "create" and (a["cfg"]["TN"]["ny"] % half != 0 or a["cfg"]["TN"]["nx"] % half != 0) for a in actions))
    r.count("several_objects", len({a["name"] for a in actions}) > 1)
    r.nontrivial = any(a["do"] == "evolve" for a in actions)
    r.fingerprint = f"{world}|{case['seed']}"
    r.sample = {"world": world, "program": story[:12], "collectives": got[0]["out"]["collectives"]}
    return r
