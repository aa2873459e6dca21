"""C22: precision and number field are preserved throughout."""
import copy
import os
import shutil
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from vlib import api, ops, states
from vlib.core import Result, exception_origin
from vlib.checks.c15 import scratch

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = ("function-mode monitor that sees every torch call of a run and flags conversions to a narrower type that lose digits, dtype monitors on all tensors after "
             "every operation of random histories, and paired runs: real data in complex dtypes, single against double precision, two torch default dtypes")
LEVEL_NOTE = ("Held on the executed histories. Single and double precision are compared on generic full-rank states only, as rank-deficient ones amplify rounding without bound; "
              "values that leave torch through Python numbers are not seen by the monitor.")
RULE = ("Random histories of renormalize, evolve, measure, set_chi, set_model, perturb, save, load, copy and to() in four dtypes; generic states evolved with both updates, both projector "
        "types and both solvers, in pairs of dtypes that must agree; product states against exact results to rounding; large tensors; non-trivial when at least one evolution and one measurement were compared or monitored; distinct by seed.")
ASSUMPTIONS = ["torch function modes see every torch call made from Python"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("tensor_operations", "conversions", "dtype_checks", "values_checked", "pairs_embedded", "pairs_precision", "pairs_default", "float32", "float64", "complex64", "complex128",
                   "updates_full", "updates_simple", "conversions_to", "loads", "exact_runs")
BUDGET = {"quick": 250, "thorough": 1800}
CASE_TIMEOUT = 200
WIDTH = {torch.float16: 11, torch.bfloat16: 8, torch.float32: 24, torch.complex64: 24, torch.float64: 53, torch.complex128: 53}
CASTS = {"to", "type", "type_as", "float", "half", "bfloat16", "double", "cfloat", "as_tensor", "tensor"}
SINGLE = {"float32", "complex64"}


class Narrowing(TorchFunctionMode):
    """Notes every torch call that turns its input into a narrower type and loses digits.

    (A TorchDispatchMode would see more, but torch computes wrong pseudo-inverses of complex matrices inside of one.)"""

    def __init__(self):
        super().__init__()
        self.seen = 0
        self.conversions = 0
        self.lost = []

    def __torch_function__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.seen += 1
        name = getattr(func, "__name__", "")
        if name == "__setitem__" and len(args) == 3:
            self.moved(args[2], args[0], name, whole=False)
        elif name == "copy_" and len(args) > 1:
            self.moved(args[1], args[0], name)
        elif name in CASTS and args:
            self.moved(args[0], out, name)
        elif isinstance(out, torch.Tensor) and out.dtype in WIDTH:
            wide = [a for a in args if isinstance(a, torch.Tensor) and a.dtype in WIDTH and a.dim() > 0]
            if name not in ("__get__", "__set__") and any(WIDTH[a.dtype] > WIDTH[out.dtype] for a in wide):
                self.lost.append(f"{name} of {[str(a.dtype) for a in wide]} gives {out.dtype}")
        return out

    def moved(self, src, dst, name, whole=True):
        if not (isinstance(src, torch.Tensor) and isinstance(dst, torch.Tensor) and src.dtype in WIDTH and dst.dtype in WIDTH) or src.numel() == 0:
            return
        self.conversions += src.dtype != dst.dtype
        with torch._C.DisableTorchFunction():
            if WIDTH[dst.dtype] < WIDTH[src.dtype]:
                back = func_free(func_free(src, dst.dtype), src.dtype)
                if not torch.equal(torch.nan_to_num(back), torch.nan_to_num(func_free(src, back.dtype))):
                    self.lost.append(f"{name}: {src.dtype} -> {dst.dtype} of {tuple(src.shape)}")
            if src.dtype.is_complex and not dst.dtype.is_complex and float(src.detach().imag.abs().max()) > 0:
                self.lost.append(f"{name}: imaginary part, {src.dtype} -> {dst.dtype} of {tuple(src.shape)}")


def func_free(t, dtype):
    """conversion outside of the monitor"""
    t = t.detach()
    if t.is_complex() and not dtype.is_complex:
        t = t.real
    return t.to(dtype)


def cases(rng, tier):
    big = 2 if tier == "quick" else 12
    out = []
    for i in range(28 * big):
        dtype = ["float64", "complex128", "float32", "complex64"][i % 4]
        out.append({"kind": "history", "dtype": dtype, "length": 6, "seed": int(rng.integers(2 ** 31))})
    for kind, n in (("embedded", 24), ("precision", 24), ("default", 20)):
        for i in range(n * big):
            out.append({"kind": kind, "update": ["full", "simple"][i % 2], "projectors": str(rng.choice(["half-system", "full-system"])), "svd": str(rng.choice(["rsvd", "full-rank"])),
                        "method": str(rng.choice(["cholesky", "pinv"])), "single": bool(rng.uniform() < .3), "complex": bool(rng.integers(2)), "D": int(rng.choice([2, 2, 2, 3])),
                        "cell": [[2, 2], [3, 2], [2, 3]][int(rng.integers(3))], "gauge": bool(rng.integers(2)), "steps": int(rng.integers(1, 4)), "seed": int(rng.integers(2 ** 31))})
    for i in range(20 * big):
        out.append({"kind": "exact", "dtype": ["float64", "complex128", "float32", "complex64"][i % 4], "update": ["full", "simple"][(i // 4) % 2], "gauge": bool(rng.integers(2)),
                    "method": str(rng.choice(["cholesky", "pinv"])), "cell": [[2, 2], [3, 2], [2, 3]][int(rng.integers(3))], "seed": int(rng.integers(2 ** 31))})
    # sizes at which an implementation may switch methods
    for i in range(4 * big):
        D, chi = [(3, 24), (4, 12), (2, 40), (5, 6)][i % 4]
        out.append({"kind": "large", "dtype": ["float64", "complex128"][int(rng.integers(2))], "D": D, "chi": chi, "svd": ["full-rank", "rsvd"][(i // 4) % 2] if rng.uniform() < .8 else "rsvd",
                    "projectors": ["half-system", "full-system"][i % 2], "update": ["full", "simple"][int(rng.integers(2))], "method": ["cholesky", "pinv"][int(rng.integers(2))],
                    "seed": int(rng.integers(2 ** 31))})
    return out


def exact(case, r):
    """product states under one-site terms, where nothing but rounding separates the run from the exact result"""
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    dtype = case["dtype"]
    cplx = api.is_complex(dtype)
    d = int(rng.integers(2, 5))
    eps = api.eps_of(dtype)
    cfg = api.config(nx, ny, 1, 2, d, dtype, 2, evolution={"update_type": case["update"], "use_gauge_fix": case["gauge"], "als_method": case["method"]})
    ip = api.new(cfg)
    psi = {s: states.randn(rng, d, cplx) for s in states.sites_of(nx, ny)}
    api.set_state(ip, {s: v.reshape(1, 1, 1, 1, d) / np.linalg.norm(v) for s, v in psi.items()})
    h = {s: states.hermitian(rng, d, cplx) for s in psi}
    n, dtau = int(rng.integers(1, 4)), float(10 ** rng.uniform(-2, -0.3))
    model = api.probe_model(ip, site_ham=lambda s: h[tuple(s)])
    ip.evolve(dtau, n, model=model)
    O = {s: states.hermitian(rng, d, cplx) for s in psi}
    got, _ = api.expectations(ip, {s: [O[s]] for s in psi}, {})
    want = {}
    for s, v in psi.items():
        f = evolved(h[s], v, n * dtau)
        want[s] = (f.conj() @ O[s] @ f).real / (f.conj() @ f).real
    tag = f"{n} steps of {dtau} on {nx}x{ny}, d={d}, {dtype}, {case['update']}, gauge_fix={case['gauge']}, {case['method']}"
    for s in psi:
        r.close(got[s][0], want[s], 600 * eps, "rounding", f"site {s}: more than rounding separates the values from the exact ones, {tag}")
    m = ip.measure(model=model)
    energy = 0.0
    for s in psi:
        f = evolved(h[s], psi[s], n * dtau)
        energy += (f.conj() @ h[s] @ f).real / (f.conj() @ f).real
    r.close(float(m["Energy"]) * len(psi), energy, 600 * eps * len(psi), "rounding", f"energy, {tag}")
    check_types(ip, dtype, r, tag)
    check_values(m, dtype, r, tag)
    r.count("exact_runs")
    r.count(dtype)
    r.count("updates_" + case["update"])
    r.nontrivial = True
    r.fingerprint = f"exact {case['seed']}"
    r.sample = {k: v for k, v in case.items() if k != "seed"}


def evolved(h, v, tau):
    w, u = np.linalg.eigh(h)
    return (u * np.exp(-tau * w)) @ (u.conj().T @ v)


def large(case, r):
    """one sweep, one time step and one measurement with large tensors under the monitor"""
    rng = np.random.default_rng(case["seed"])
    dtype, D, chi = case["dtype"], case["D"], case["chi"]
    cplx = dtype.startswith("complex")
    cfg = api.config(2, 2, D, chi, 2, dtype, 3, ctmrg={"projectors": case["projectors"], "svd_type": case["svd"]}, evolution={"update_type": case["update"], "als_method": case["method"], "als_niter": 5})
    ip = api.new(cfg)
    A, _ = states.short_state(rng, 2, 2, D, 2, cplx, 0.4)
    api.set_state(ip, states.normalized(A))
    torch.manual_seed(case["seed"])
    hs, hb = hamiltonian(rng, 2, 2, cplx)
    model = api.probe_model(ip, site_ham=lambda s: hs[tuple(s)], bond_ham=lambda b: forward(b, hb))
    mon = Narrowing()
    with mon:
        ip.renormalize()
        check_types(ip, dtype, r, f"renormalize of {case}")
        ip.evolve(0.02, 1, model=model)
        check_types(ip, dtype, r, f"evolve of {case}")
        e = ip.measure(model=model)
    check_values(e, dtype, r, "large run")
    r.check(not mon.lost, "narrowing", f"digits lost in {sorted(set(mon.lost))[:4]} for {case}")
    r.count(dtype)
    r.count("large_runs")
    r.count("updates_" + case["update"])
    r.count("tensor_operations", mon.seen)
    r.count("conversions", mon.conversions)
    r.nontrivial = True
    r.fingerprint = f"large {case['seed']}"
    r.sample = dict(case)


def check_types(tn, dtype, r, when):
    bad = {}
    for s in tn.site_list:
        for name, ts in (("A", [tn[s]["A"]]), ("C", tn[s]["C"]), ("E", tn[s]["E"])):
            for t in ts:
                r.count("dtype_checks")
                if t.dtype != api.tdtype(dtype):
                    bad[name] = str(t.dtype)
    r.check(not bad and tn.dtype == api.tdtype(dtype), "dtype", f"tensors {bad}, network {tn.dtype} instead of {dtype} after {when}")


def check_values(m, dtype, r, when):
    """measured values are real numbers of matching precision"""
    for k, v in m.items():
        r.count("values_checked")
        if isinstance(v, torch.Tensor):
            want = torch.float32 if dtype in SINGLE else torch.float64
            r.check(v.dtype == want, "value dtype", f"{k} of type {v.dtype} in {dtype} ({when})")
        else:
            r.check(not isinstance(v, complex) and not np.iscomplexobj(v), "value dtype", f"{k} is {v!r} in {dtype} ({when})")
        try:
            float(v)
        except Exception as e:
            r.violate("value dtype", f"{k} = {v!r} is not a real number: {e}")


def lapack(e):
    return "LinAlg" in type(e).__name__


def history(case, r):
    rng = np.random.default_rng(case["seed"])
    dtype = case["dtype"]
    cfg = ops.random_config(rng, dtype=dtype, D=2)
    if dtype in SINGLE:
        cfg["evolution"].update(als_epsilon=1e-5, positive_approx_cutoff=1e-5, gauge_fix_atol=1e-6)
        cfg["ctmrg"]["svd_cutoff"] = 1e-6
    folder = scratch()
    mon = Narrowing()
    done = set()
    trail = []
    try:
        ip = api.new(cfg)
        check_types(ip, dtype, r, "construction")
        A, _ = states.short_state(rng, ip.nx, ip.ny, 2, 2, dtype.startswith("complex"), 0.3)
        if rng.uniform() < 0.7:
            api.set_state(ip, states.normalized(A))
        r.count(dtype)
        r.count("updates_" + cfg["evolution"]["update_type"])
        for i in range(case["length"]):
            op = ops.random_op(rng, ("renormalize", "evolve", "evolve", "measure", "set_chi", "set_model", "perturb", "save", "copy", "to"))
            trail.append(op["op"])
            when = " > ".join(trail) + f" ({dtype}, {cfg['evolution']['update_type']})"
            k = op["op"]
            try:
                if k == "measure":
                    torch.manual_seed(op["seed"])
                    with mon:
                        m = ip.measure()
                    check_values(m, dtype, r, when)
                elif k == "save":
                    f = os.path.join(folder, f"{i}.pt")
                    ip.save(f)
                    other = api.new(cfg)
                    other.load(f)
                    check_types(other, dtype, r, when + " in the loaded network")
                    r.count("loads")
                elif k == "copy":
                    check_types(ip.copy(), dtype, r, when + " in the copy")
                elif k == "to":
                    for name in ("float32", "float64", "complex64", "complex128"):
                        if dtype.startswith("complex") and not name.startswith("complex"):
                            continue
                        t = ip.to(dtype=api.tdtype(name))
                        check_types(t, name, r, when + f" {name}")
                        for s in ip.site_list:
                            a, b = api.npy(ip[s]["A"]), api.npy(t[s]["A"])
                            r.check(np.array_equal(a.astype(name), b, equal_nan=True), "conversion", f"to({name}) changed values of {s}, {when}")
                        r.count("conversions_to")
                    # real data survive a larger type and the way back
                    wide = ip.to(dtype=torch.complex128).to(dtype=ip.dtype) if dtype.startswith("complex") else ip.to(dtype=torch.float64).to(dtype=ip.dtype)
                    d = ops.differences(ops.snapshot(ip), ops.snapshot(wide), what=("tensors",))
                    r.check(not d, "conversion", f"a round trip through double precision changed {d[:3]}, {when}")
                elif k == "perturb":
                    ops.apply(ip, op)
                else:
                    with mon:
                        ops.apply(ip, op)
            except Exception as e:
                if exception_origin(e) == "code" and lapack(e) and dtype in SINGLE:
                    r.count("lapack_failures")
                    break
                raise
            check_types(ip, dtype, r, when)
            done.add(k)
        r.check(not mon.lost, "narrowing", f"digits lost in {sorted(set(mon.lost))[:4]} during {' > '.join(trail)} ({dtype})")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    r.count("tensor_operations", mon.seen)
    r.count("conversions", mon.conversions)
    r.nontrivial = bool(done & {"evolve", "measure"})
    r.fingerprint = f"{dtype} {case['seed']}"
    r.sample = {"dtype": dtype, "history": trail, "tensor operations monitored": mon.seen}


def hamiltonian(rng, nx, ny, cplx):
    """a Hermitian model with terms of its own on every site and bond"""
    hs = {s: states.hermitian(rng, 2, cplx) for s in states.sites_of(nx, ny)}
    hb = {b: states.hermitian(rng, 4, cplx) for b in states.bonds_of(nx, ny)}
    return hs, hb


def run(case, dtype, A, hs, hb, r=None):
    """all values measured along a run; and its operators"""
    nx, ny = case["cell"]
    single = dtype in SINGLE
    narrow = single or case["single"] or case["kind"] == "precision"
    ev = {"update_type": case["update"], "als_method": case["method"], "use_gauge_fix": case["gauge"], "als_niter": 60}
    c = {"projectors": case["projectors"], "svd_type": case["svd"], "rsvd_oversampling": 20, "rsvd_niter": 4, "svd_cutoff": 1e-12}
    if narrow:
        ev.update(als_epsilon=1e-6, positive_approx_cutoff=1e-7, gauge_fix_atol=1e-7)
        c["svd_cutoff"] = 1e-7
    cfg = api.config(nx, ny, case["D"], 10, 2, dtype, 3, ctmrg=c, evolution=ev)
    ip = api.new(cfg)
    api.set_state(ip, A)
    torch.manual_seed(case["seed"])
    X, Z = np.array([[0, 1], [1, 0.]]), np.diag([1., -1])
    mon = Narrowing()
    vals = []

    def look():
        vs, vb = api.expectations(ip, {s: [X, Z] for s in states.sites_of(nx, ny)}, {api.key3(b): [np.kron(Z, Z), np.kron(X, X), np.kron(X, Z)] for b in ip.bond_list})
        vals.append(np.concatenate([vs[k] for k in sorted(vs)] + [vb[k] for k in sorted(vb)]))
    with mon:
        ip.renormalize()
        look()
        model = api.probe_model(ip, site_ham=lambda s: hs[tuple(s)], bond_ham=lambda b: forward(b, hb))
        for _ in range(case["steps"]):
            ip.evolve(0.03, 1, model=model)
            look()
        e = ip.measure(model=api.probe_model(ip, site_ham=lambda s: hs[tuple(s)], bond_ham=lambda b: forward(b, hb)))
    vals.append(np.array([float(e["Energy"])]))
    if r is not None:
        check_types(ip, dtype, r, f"a run of {case}")
        check_values(e, dtype, r, "run")
        r.count(dtype)
        r.count("tensor_operations", mon.seen)
        r.count("conversions", mon.conversions)
        r.check(not mon.lost, "narrowing", f"digits lost in {sorted(set(mon.lost))[:4]} in {dtype} for {case}")
    return vals


def forward(bond, hb):
    """term of a bond, whichever way it is listed"""
    return hb[api.key3(bond)]


def compare(one, two, tols, mech, what, r):
    names = ["renormalize"] + [f"{i + 1} evolve calls" for i in range(len(one) - 2)] + ["energy"]
    for n, a, b, t in zip(names, one, two, tols):
        r.close(a, b, t, mech, f"{what} after {n}")


def paired(case, r):
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    kind = case["kind"]
    cplx = case["complex"] and kind != "embedded"
    A, _ = states.short_state(rng, nx, ny, case["D"], 2, cplx, 0.3)
    A = states.normalized(A)
    if kind == "precision" or case["single"]:
        # exactly representable in single precision
        A = {s: a.astype("complex64" if cplx else "float32").astype(a.dtype) for s, a in A.items()}
    hs, hb = hamiltonian(rng, nx, ny, cplx)
    hs, hb = [{k: v.astype("complex64" if cplx else "float32").astype(v.dtype) for k, v in h.items()} for h in (hs, hb)]
    case = dict(case)
    double, single = ("complex128", "complex64") if cplx else ("float64", "float32")
    try:
        if kind == "embedded":
            real, wide = ("float32", "complex64") if case["single"] else ("float64", "complex128")
            one, two = run(case, real, A, hs, hb, r), run(case, wide, A, hs, hb, r)
            tol = 3e-3 if case["single"] else 1e-6
            compare(two, one, [2e-4 if case["single"] else 1e-8] + [tol] * (len(one) - 1), "embedding", f"{wide} and {real} runs of the same real problem {case}:", r)
        elif kind == "precision":
            one, two = run(case, double, A, hs, hb, r), run(case, single, A, hs, hb, r)
            compare(two, one, [2e-4] + [3e-3] * (len(one) - 1), "precision", f"{single} and {double} runs of {case}:", r)
        else:
            dtype = single if case["single"] else double
            old = torch.get_default_dtype()
            try:
                torch.set_default_dtype(torch.float32)
                one = run(case, dtype, A, hs, hb, r)
                torch.set_default_dtype(torch.float64)
                two = run(case, dtype, A, hs, hb, r)
            finally:
                torch.set_default_dtype(old)
            tol = 1e-3 if case["single"] else 1e-9
            compare(two, one, [tol] * len(one), "default dtype", f"{dtype} runs with torch default dtypes float32 and float64, {case}:", r)
    except Exception as e:
        if exception_origin(e) == "code" and lapack(e) and (case["single"] or kind == "precision"):
            r.count("lapack_failures")
            return
        raise
    r.count({"embedded": "pairs_embedded", "precision": "pairs_precision", "default": "pairs_default"}[kind])
    r.count("updates_" + case["update"])
    r.nontrivial = np.abs(one[-2] - one[0]).max() > 1e-3
    r.fingerprint = f"{kind} {case['seed']}"
    r.sample = {k: v for k, v in case.items() if k != "seed"}


def run_case(case):
    r = Result()
    {"history": history, "large": large, "exact": exact}.get(case["kind"], paired)(case, r)
    return r
