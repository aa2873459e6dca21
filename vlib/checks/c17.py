"""C17: copies are faithful and independent."""
import os
import shutil
import numpy as np
import torch
from vlib import api, ops, states
from vlib.core import Result
from vlib.checks.c15 import scratch

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: bitwise snapshots of both sides of every copy around a random sequence of modifications of either, with the storage of their tensors checked for overlap"
LEVEL_NOTE = "Held on the executed copies and modifications; futures of copies compared with the future of the original under the same random numbers."
RULE = ("Networks after random histories (odd and even numbers of steps, changed chi, modified tensors), copied with copy(), to(), "
        "Ipeps(config, ipeps=other), SiteTensor.copy()/to() and chains of these, into the same or another dtype and chi; then either side is "
        "modified in place, through the setters, by evolution, by lists and dimensions; non-trivial after an evolution; distinct by seed.")
ASSUMPTIONS = ["a network is copied into a configuration of the same unit cell and tensor dimensions"]
MIN_NONTRIVIAL = 30
REQUIRED_EVENTS = ("copies", "copy", "to", "from_ipeps", "from_network", "site_copies", "chains", "conversions", "modifications", "inplace", "evolve",
                   "set_chi", "futures", "first_evolutions", "odd_histories", "setters")
BUDGET = {"quick": 200, "thorough": 1200}
CASE_TIMEOUT = 250
WIDER = {"float32": ["float64", "complex64", "complex128"], "float64": ["float32", "complex128", "complex64"],
         "complex64": ["complex128"], "complex128": ["complex64"]}


def cases(rng, tier):
    return [{"kind": ["network", "network", "site", "future"][i % 4], "seed": int(rng.integers(2 ** 31))} for i in range(240 if tier == "quick" else 1600)]


def history(r, rng, cfg, fresh=False):
    ip = api.new(cfg)
    if fresh:
        return ip, ["fresh"]
    todo = [{"op": "evolve", "dtau": 0.05, "steps": int(rng.integers(1, 4)), "seed": int(rng.integers(2 ** 31))}]
    todo += [ops.random_op(rng, ("renormalize", "evolve", "set_chi", "perturb")) for _ in range(int(rng.integers(0, 3)))]
    for op in todo:
        ops.apply(ip, op)
    r.count("odd_histories", sum(o.get("steps", 0) for o in todo) % 2)
    return ip, [o["op"] + str(o.get("steps", "")) for o in todo]


def tensors_of(tn):
    out = {}
    for s in tn.site_list:
        out[f"A{s}"] = tn[s]["A"]
        for k in "CE":
            for i, t in enumerate(tn[s][k]):
                out[f"{k}{i}{s}"] = t
    return out


def overlap(a, b):
    """names of tensors of a that share memory with tensors of b"""
    spans = [(t.untyped_storage().data_ptr(), n) for n, t in tensors_of(b).items()]
    known = dict(spans)
    return [(n, known[t.untyped_storage().data_ptr()]) for n, t in tensors_of(a).items() if t.untyped_storage().data_ptr() in known]


def faithful(r, tn, ref, tag, dtype=None, chi=None):
    """a copy has the tensors and lists of the snapshot ref"""
    now = ops.snapshot(tn)
    if dtype is None:
        diff = ops.differences(ref, now, ("tensors", "sites", "bonds", "cell", "dtype"))
    else:
        diff = ops.differences(ref, now, ("sites", "bonds", "cell"))
        dt = getattr(torch, dtype)
        r.check(tn.dtype == dt, "dtype", f"dtype {tn.dtype}, wanted {dt}; {tag}")
        for s in ref["tensors"]:
            for k in "ACE":
                xs = [ref["tensors"][s][k]] if k == "A" else ref["tensors"][s][k]
                ys = [tn[s][k]] if k == "A" else tn[s][k]
                r.check(len(xs) == len(ys), "tensors", f"{len(ys)} tensors {k}; {tag}")
                for x, y in zip(xs, ys):
                    r.check(y.dtype == dt and torch.equal(torch.from_numpy(x).to(dt), y), "conversion", f"{k} of {s} is not the converted tensor; {tag}")
    r.check(not diff, "faithful", f"copy differs in {diff[:4]}; {tag}")
    dims = dict(ref["dims"])
    if chi is not None:
        dims["chi"] = chi
    r.check(dict(tn.dims) == dims, "dims", f"dimensions {dict(tn.dims)}, wanted {dims}; {tag}")


def modify(rng, tn, r):
    """change something in a network; returns a description"""
    sites = list(tn.site_list)
    s = sites[int(rng.integers(len(sites)))]
    what = str(rng.choice(["inplace", "inplace", "setters", "set_chi", "evolve", "renormalize", "bonds", "sites", "lists", "site_dims", "dims", "load", "swap"]))
    ipeps = hasattr(tn, "evolve")
    if what in ("evolve", "renormalize") and not ipeps:
        what = "inplace"
    if what == "set_chi" and not ipeps:
        what = "dims"
    with torch.inference_mode():
        if what == "inplace":
            k = "ACE"[int(rng.integers(3))]
            t = tn[s]["A"] if k == "A" else tn[s][k][int(rng.integers(4))]
            [lambda: t.mul_(1.5), lambda: t.neg_(), lambda: t.add_(0.05 * t.abs().max()), lambda: t[0].mul_(1.1)][int(rng.integers(4))]()
        elif what == "setters":
            k = "ACE"[int(rng.integers(3))]
            tn[s][k] = tn[s]["A"] * 2 if k == "A" else [x * 2 for x in tn[s][k]]
        elif what == "lists":
            k = "CE"[int(rng.integers(2))]
            i = int(rng.integers(4))
            tn[s][k][i] = 1.25 * tn[s][k][i]
        elif what == "swap":
            other = sites[int(rng.integers(len(sites)))]
            tn[s], tn[other] = tn[other], tn[s]
            tn[s]["A"] = tn[s]["A"] * 3
    if what == "set_chi":
        tn.set_chi(int(rng.integers(2, 12)))
    elif what == "evolve":
        tn.evolve(0.03, int(rng.integers(1, 3)))
    elif what == "renormalize":
        tn.renormalize()
    elif what == "bonds":
        [lambda: tn.bond_list.reverse(), lambda: tn.bond_list.pop(), lambda: tn.bond_list.append(tn.bond_list[0])][int(rng.integers(3))]()
    elif what == "sites":
        tn.site_list.append((9, 9))
    elif what == "dims":
        tn.dims["chi"] = 17
    elif what == "site_dims":
        tn[s].dims["chi"] = 19
    elif what == "load":
        folder = scratch()
        try:
            p = os.path.join(folder, "x.pt")
            src = api.new(api.config(tn.nx, tn.ny, tn.dims["bond"], 4, tn.dims["phys"], str(tn.dtype)[6:], 1))
            src.save(p)
            tn.load(p)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    r.count(what)
    r.count("modifications")
    return what


def clean(tn):
    """undo what would stop a network from being looked at"""
    while (9, 9) in tn.site_list:
        tn.site_list.remove((9, 9))
    return tn


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    dtype = str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.4, .4, .1, .1]))
    cfg = ops.random_config(rng, dtype=dtype)
    ip, told = history(r, rng, cfg, fresh=rng.uniform() < 0.15)
    tag = f"{kind}, cell {ip.nx}x{ip.ny}, {dtype}, {cfg['evolution']['update_type']}, history {told}"
    ref = ops.snapshot(ip)
    if kind == "site":
        site(r, rng, ip, dtype, tag)
    elif kind == "network":
        network(r, rng, ip, cfg, ref, dtype, tag)
    else:
        future(r, rng, ip, cfg, ref, tag, case)
    r.nontrivial = told != ["fresh"]
    r.fingerprint = f"{kind}|{case['seed']}"
    r.sample = {"kind": kind, "history": told}
    return r


def make_copy(r, rng, src, cfg, dtype):
    """one way to copy a network: (copy, how, dtype of the copy or None, chi of the copy or None)"""
    how = str(rng.choice(["copy", "to", "to", "from_ipeps"]))
    if how == "copy":
        r.count("copy")
        return src.copy(), "copy()", None, None
    if how == "to":
        r.count("to")
        if rng.uniform() < 0.4:
            return (src.to(), "to()", None, None) if rng.uniform() < 0.5 else (src.to(device="cpu"), "to(device)", None, None)
        dt = str(rng.choice(WIDER[dtype]))
        r.count("conversions")
        t = getattr(torch, dt)
        return (src.to(t), f"to({dt})", dt, None) if rng.uniform() < 0.5 else (src.to(dtype=t, device=torch.device("cpu")), f"to(dtype={dt}, device)", dt, None)
    c2 = {**cfg, "dtype": dtype, "TN": {**cfg["TN"], "dims": dict(cfg["TN"]["dims"])}}
    dt = None
    if rng.uniform() < 0.4:
        dt = str(rng.choice(WIDER[dtype]))
        c2["dtype"] = dt
        r.count("conversions")
    chi = int(rng.integers(3, 11))
    c2["TN"]["dims"]["chi"] = chi
    r.count("from_ipeps" if hasattr(src, "evolve") else "from_network")
    return api.new(c2, ipeps=src), f"Ipeps(config {dt or dtype} chi {chi}, ipeps=other)", dt, chi


def network(r, rng, ip, cfg, ref, dtype, tag):
    pairs = []
    src, src_ref, sdt = ip, ref, dtype
    for i in range(int(rng.integers(1, 4))):
        q, how, dt, chi = make_copy(r, rng, src, cfg, sdt)
        r.count("copies")
        r.check(q is not src, "same-object", f"{how} returned the same object; {tag}")
        faithful(r, q, src_ref, f"{how}; {tag}", dt, chi)
        diff = ops.differences(src_ref, ops.snapshot(src))
        r.check(not diff, "copying-modifies", f"{how} changed the original: {diff[:3]}; {tag}")
        for where, p in [("original", ip)] + [(h, x) for h, x, _ in pairs]:
            ov = overlap(q, p)
            r.check(not ov, "shared-memory", f"{how} shares the memory of {ov[:3]} with the {where}; {tag}")
        pairs.append((how, q, ops.snapshot(q)))
        if rng.uniform() < 0.5:
            r.count("chains")
            src, src_ref, sdt = q, pairs[-1][2], dt or sdt
    everyone = [["original", ip, ref]] + [list(p) for p in pairs]
    for _ in range(int(rng.integers(2, 6))):
        i = int(rng.integers(len(everyone)))
        what = modify(rng, everyone[i][1], r)
        for j, (name, tn, snap) in enumerate(everyone):
            if j != i:
                diff = ops.differences(snap, ops.snapshot(tn))
                r.check(not diff, "independent", f"{what} of {everyone[i][0]} changed {name} in {diff[:3]}; {tag}")
                per_site = [s for s in tn.site_list if tn[s].dims.get("chi") in (17, 19)] if what in ("site_dims", "dims") else []
                seen = [s for s in per_site if tn.dims.get("chi") not in (17, 19)]
                r.check(not seen, "independent", f"{what} of {everyone[i][0]} reached the dimensions of sites {seen[:2]} of {name}; {tag}")
        clean(everyone[i][1])
        everyone[i][2] = ops.snapshot(everyone[i][1])
        if what in ("dims", "site_dims"):
            tn = everyone[i][1]
            tn.dims["chi"] = 6
            for s in tn.site_list:
                tn[s].dims["chi"] = 6
            everyone[i][2] = ops.snapshot(tn)
        if what == "bonds":
            # put the bonds back in some order for the evolutions that may follow
            tn = everyone[i][1]
            tn.bond_list[:] = tn.build_bond_list()
            everyone[i][2] = ops.snapshot(tn)
        if what == "swap":
            # two names for one tensor object are not a copy
            return


def site(r, rng, ip, dtype, tag):
    s = ip.site_list[int(rng.integers(len(ip.site_list)))]
    st = ip[s]

    def snap(x):
        return {"A": api.npy(x["A"]).copy(), "C": [api.npy(t).copy() for t in x["C"]], "E": [api.npy(t).copy() for t in x["E"]], "dims": dict(x.dims), "dtype": x.dtype}

    def same(a, b):
        return [k for k in a if (k in ("dims", "dtype") and a[k] != b[k]) or (k == "A" and not ops.same(a[k], b[k]))
                or (k in "CE" and (len(a[k]) != len(b[k]) or not all(ops.same(x, y) for x, y in zip(a[k], b[k]))))]
    ref = snap(st)
    mode = int(rng.integers(3))
    dt = st.dtype
    if mode == 0:
        q, how = st.copy(), "copy()"
    elif mode == 1:
        q, how = st.to(), "to()"
    else:
        dt = getattr(torch, str(rng.choice(WIDER[dtype])))
        q, how = st.to(dt), f"to({dt})"
        r.count("conversions")
    r.count("site_copies")
    how = f"SiteTensor.{how}; {tag}"
    r.check(q is not st, "same-object", how)
    r.check(not same(ref, snap(st)), "copying-modifies", f"{how}: original changed in {same(ref, snap(st))}")
    r.check(q.dtype == dt and q["A"].dtype == dt and all(t.dtype == dt for k in "CE" for t in q[k]), "dtype", how)
    conv = {"A": [st["A"]], "C": st["C"], "E": st["E"]}
    for k in "ACE":
        ys = [q["A"]] if k == "A" else q[k]
        r.check(len(ys) == len(conv[k]) and all(torch.equal(x.to(dt), y) for x, y in zip(conv[k], ys)), "faithful", f"{k}: {how}")
        xs = conv[k]
        r.check(not ({t.untyped_storage().data_ptr() for t in xs} & {t.untyped_storage().data_ptr() for t in ys}), "shared-memory", f"{k}: {how}")
    r.check(dict(q.dims) == dict(st.dims), "dims", how)
    for a, b, name in ((st, q, "original"), (q, st, "copy")):
        keep = snap(b)
        with torch.inference_mode():
            a["A"].mul_(2)
            a["C"][1].zero_()
            a["E"][2] = torch.zeros_like(a["E"][2])
        a.dims["chi"] += 1
        r.count("inplace")
        r.check(not same(keep, snap(b)), "independent", f"changing the {name} changed the other in {same(keep, snap(b))}; {how}")
        keep = snap(b)
        # what is put into a site tensor is copied as well
        t = torch.clone(a["A"]) * 0.5
        cs = [torch.clone(x) for x in a["C"]]
        es = [torch.clone(x) for x in a["E"]]
        a["A"], a["C"], a["E"] = t, cs, es
        now = snap(a)
        with torch.inference_mode():
            t.zero_()
            cs[0].zero_()
            es[3].zero_()
        cs.pop()
        es[1] = None
        r.count("setters")
        r.check(not same(now, snap(a)), "setter", f"changing a tensor after handing it over changed {same(now, snap(a))}; {how}")
        r.check(not same(keep, snap(b)), "independent", f"setting tensors of the {name} changed the other; {how}")


def future(r, rng, ip, cfg, ref, tag, case):
    """a network that starts from another one continues as that would have"""
    r.count("futures")
    src = ip
    if rng.uniform() < 0.5:
        src = ip.copy()
        r.count("from_network")
    c2 = {**cfg, "TN": {**cfg["TN"], "dims": dict(ip.dims)}}
    q = api.new(c2, ipeps=src)
    faithful(r, q, ref, f"Ipeps(config, ipeps=other); {tag}")
    # the first evolution starts from the given tensors, not from the initial state of the model
    torch.manual_seed(3)
    q.evolve(0.1, 0)
    r.count("first_evolutions")
    now = ops.snapshot(q)
    for s in q.site_list:
        x, y = ref["tensors"][tuple(s)]["A"], now["tensors"][tuple(s)]["A"]
        r.check(ops.same(x, y), "first-evolution", f"evolving no step changed the tensor at {s} from {np.abs(x).max():.3g} to {np.abs(y).max():.3g}; {tag}")
    q2 = api.new(c2, ipeps=src)
    diff = ops.differences(ref, ops.snapshot(ip))
    r.check(not diff, "independent", f"evolving the new network changed the original: {diff[:3]}; {tag}")
    todo = [{"op": "evolve", "dtau": float(rng.uniform(0.01, 0.1)), "steps": int(rng.integers(1, 4)), "seed": 11},
            {"op": "measure", "seed": 12}, {"op": "evolve", "dtau": 0.02, "steps": 1, "seed": 13}, {"op": "renormalize", "seed": 14}, {"op": "measure", "seed": 15}]
    if not ip.site_states_initialized:
        # the original would begin with the initial state of its model, which is not what was copied
        ip.site_states_initialized = True
    first = rng.uniform() < 0.5
    a, b = (q2, ip) if first else (ip, q2)
    out_a = [ops.apply(a, o) for o in todo]
    snap_a = ops.snapshot(a)
    out_b = [ops.apply(b, o) for o in todo]
    diff = ops.differences(snap_a, ops.snapshot(a))
    r.check(not diff, "independent", f"evolving one changed the other: {diff[:3]}; {tag}")
    tol = 1e-8 if api.eps_of(cfg["dtype"]) < 1e-10 else 1e-3
    for o, x, y in zip(todo, out_a, out_b):
        if x is not None:
            r.check(ops.close(x, y, tol), "future", f"{o['op']}: {x} and {y}; {tag}")
    r.count("bitwise_futures", not ops.differences(snap_a, ops.snapshot(b), ("tensors", "bonds")))
