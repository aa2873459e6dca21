"""One rank of a program on several processes (or the serial program): python distworker.py JOB.json OUT.json

The job is a list of actions on named objects; every answer and a digest of every tensor is written down.
Delays before operations and collective calls make the ranks run at different speeds.
"""
import gc
import hashlib
import json
import os
import sys
import time

import numpy as np


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, job["verif"])
    from vlib import core
    core._init_worker()
    import torch
    import torch.distributed as dist
    from vlib import api, ops
    rank = int(os.environ.get("RANK", 0))
    distributed = int(os.environ.get("WORLD_SIZE", 1)) > 1
    rng = np.random.default_rng([job["seed"], rank])
    arrays = np.load(job["arrays"], allow_pickle=False)
    collectives = []

    slept = [0.0, 0]

    def pause(limit, p=0.3):
        # in total at most a few seconds, more on one end of the ranks than on the other
        weight = (rank + 1 if job["slow"] == "last" else job["world"] - rank) / job["world"]
        if distributed and limit and slept[0] < 1.5 * weight and rng.uniform() < p:
            t = float(rng.uniform(0, limit)) * weight
            time.sleep(t)
            slept[0] += t
            slept[1] += 1

    if distributed:
        for name in ("all_gather", "broadcast", "all_reduce", "barrier", "all_gather_into_tensor", "gather", "scatter"):
            real = getattr(dist, name)

            def call(*a, real=real, name=name, **k):
                collectives.append(name)
                pause(job["delay"], 0.02)
                return real(*a, **k)
            setattr(dist, name, call)

    def digest(ip):
        h = {}
        for k in "ACE":
            m = hashlib.sha1()
            for s in sorted(ip.site_list):
                for t in ([ip[s]["A"]] if k == "A" else ip[s][k]):
                    m.update(str((tuple(t.shape), str(t.dtype))).encode())
                    m.update(np.ascontiguousarray(api.npy(t)).tobytes())
            h[k] = m.hexdigest()
        return h

    objects, out = {}, []
    for i, act in enumerate(job["actions"]):
        pause(job["delay"])
        # every rank has random numbers of its own, as in a real program
        torch.manual_seed(act.get("seed", i) * 64 + rank)
        name, what = act["name"], act["do"]
        rec = {"action": i, "name": name, "do": what}
        if what == "create":
            objects[name] = api.new(act["cfg"], **({"ipeps": objects[act["source"]]} if act.get("source") else {}))
        elif what == "state":
            ip = objects[name]
            api.set_state(ip, {tuple(s): arrays[f"{act['key']}|{s[0]}|{s[1]}"] for s in ip.site_list})
        elif what == "renormalize":
            objects[name].renormalize()
        elif what == "evolve":
            objects[name].evolve(act["dtau"], act["steps"])
        elif what == "measure":
            rec["values"] = {k: float(v) for k, v in objects[name].measure().items()}
        elif what == "converge":
            ip = objects[name]

            def probe():
                m = ip.measure()
                return np.array([float(m[k]) for k in sorted(m)])
            vals, res, calls = api.converge(ip, probe, 0.0, 2)
            rec["values"] = dict(zip(sorted(ip.measure()), vals.tolist()))
            rec["residual"] = res
        elif what == "set_chi":
            objects[name].set_chi(act["chi"])
        elif what == "set_model":
            objects[name].set_model(ops.model_class(act["cls"]), dict(act["params"]))
        elif what == "set_model_params":
            objects[name].set_model_params(**act["params"])
        elif what == "copy":
            objects[act["target"]] = objects[name].copy()
        elif what == "load":
            objects[name].load(act["path"])
        elif what == "save":
            objects[name].save(os.path.join(job["folder"], f"{act['file']}-{rank if distributed else 'serial'}.pt"))
        elif what == "reload":
            objects[name].load(os.path.join(job["folder"], f"{act['file']}-{rank if distributed else 'serial'}.pt"))
        elif what == "delete":
            del objects[name]
            gc.collect()
        if name in objects and what != "delete":
            ip = objects[name]
            rec["digest"] = digest(ip)
            rec["bonds"] = [list(api.key3(b)) for b in ip.bond_list]
            if what in ("state", "evolve", "load") and act.get("keep"):
                rec["A"] = {f"{s[0]}|{s[1]}": [np.real(api.npy(ip[s]["A"])).tolist(), np.imag(api.npy(ip[s]["A"])).tolist()] for s in ip.site_list}
            if hasattr(ip, "world_size"):
                rec["world"] = [ip.rank, ip.world_size, bool(ip.is_distributed)]
        out.append(rec)
    ip = probe = None
    objects.clear()
    gc.collect()
    left = bool(distributed and dist.is_initialized())
    json.dump({"records": out, "collectives": len(collectives), "kinds": sorted(set(collectives)), "group_left": left, "delays": slept[1]}, open(sys.argv[2], "w"))


main()
