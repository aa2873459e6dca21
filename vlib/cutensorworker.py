"""Runs inside a process with the sanitizer loaded: python cutensorworker.py JOB.json OUT.jsonl

Every item of the job is announced before it runs, so that the last line names the input of a crash.
"""
import ctypes
import json
import os
import sys
import traceback

import numpy as np


def reference(a1, a2, n12g, n12, a12g, niter, tol, method, eps, noise=None):
    """alternating least squares as documented, in double precision; tensors and the relative changes of the cost"""
    def cost():
        w = np.einsum("yup,xuq->yxpq", a1, a2)
        return (np.einsum("yxYX,yxpq,YXpq->", n12, w, w.conj()) - 2 * np.einsum("yxYX,yxpq,YXpq->", n12, a12g, w.conj())).real

    def solve(R, S):
        n, b, p = S.shape
        S, R = S.reshape(n * b, p), R.reshape(n * b, n * b)
        if noise:
            # rounding errors of the contractions and of the factorization
            rng, e = noise
            R = R + e * np.abs(R).max() * rng.uniform(-1, 1, R.shape)
            S = S + e * np.abs(S).max() * rng.uniform(-1, 1, S.shape)
        R = (R + R.conj().T) / 2
        if method == "cholesky":
            R = R + eps * np.abs(R).max() * np.eye(n * b)
            return np.linalg.solve(R, S).reshape(n, b, p)
        w, v = np.linalg.eigh(R)
        keep = np.abs(w) > eps * np.abs(w).max()
        return ((v[:, keep] / w[keep]) @ (v[:, keep].conj().T @ S)).reshape(n, b, p)
    d1, changes = cost(), []
    for i in range(niter):
        a1 = solve(np.einsum("yxYX,xuq,XUq->YUyu", n12, a2, a2.conj()), np.einsum("YXpQ,XUQ->YUp", n12g, a2.conj()))
        a2 = solve(np.einsum("yxYX,yvp,YVp->XVxv", n12, a1, a1.conj()), np.einsum("YXPq,YVP->XVq", n12g, a1.conj()))
        d2 = cost()
        with np.errstate(all="ignore"):
            e = abs(d2 - d1) / abs(d1)
        changes.append(float(e))
        if i > 1 and e < tol:
            break
        d1 = d2
    return a1, a2, changes


def main():
    job = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w", buffering=1)
    sys.path.insert(0, job["verif"])
    so = job["so"]
    sys.setdlopenflags(os.RTLD_NOW)
    import importlib.util
    import torch
    spec = importlib.util.spec_from_file_location("_C_cutensor", so)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)
    # the place where acetn looks for the extension
    sys.modules["acetn.evolution._extensions._C_cutensor"] = ext
    lib = ctypes.CDLL(so)
    lib.standin_get.restype = ctypes.c_longlong
    lib.standin_misuse.restype = ctypes.c_char_p
    lib.standin_set.argtypes = (ctypes.c_char_p, ctypes.c_longlong)

    def get(n):
        return lib.standin_get(n.encode())

    def put(n, v):
        lib.standin_set(n.encode(), v)
    from vlib import core
    core._init_worker()
    from vlib import api, states

    def say(**k):
        out.write(json.dumps(k) + "\n")

    def view(rng, x, kind):
        """the same values in another memory layout"""
        t = torch.from_numpy(np.ascontiguousarray(x)).clone()
        if kind == "permuted":
            p = list(rng.permutation(t.dim()))
            return t.permute(p).contiguous().permute([p.index(i) for i in range(t.dim())])
        if kind == "slice":
            # contiguous, but at an address that is not aligned
            big = torch.empty(t.numel() + 1, dtype=t.dtype)
            big[1:] = t.reshape(-1)
            return big[1:].reshape(t.shape)
        if kind == "step":
            big = torch.empty(tuple(t.shape[:-1]) + (2 * t.shape[-1],), dtype=t.dtype)
            big[..., ::2] = t
            return big[..., ::2]
        if kind == "conj" and t.is_complex():
            return torch.conj(t.conj().resolve_conj())
        return t

    def guards(info):
        info["live"] = get("live")
        info["misuse"] = get("misuse")
        info["what"] = lib.standin_misuse().decode()
        info["handles"] = get("handles")
        if info["misuse"]:
            put("misuse", 0)
        if info["live"]:
            info["left"] = {k: get(k) for k in ("tensors", "operations", "plans", "preferences")}
            put("forget", 0)
        return info

    for i, item in enumerate(job["items"]):
        say(start=i)
        rng = np.random.default_rng(item["seed"])
        torch.manual_seed(item["seed"] % 2 ** 31)
        info = {"done": i}
        try:
            put("workspace", item.get("workspace", 0))
            before = {k: get(k) for k in ("calls", "contractions", "factorizations", "not_positive", "created")}
            if item["kind"] == "evolve":
                evolve(item, rng, api, states, info)
            else:
                solve(item, rng, api, torch, ext, view, info, get, put, guards)
            info["events"] = {k: get(k) - v for k, v in before.items()}
            guards(info)
        except Exception as e:
            info["exception"] = f"{type(e).__name__}: {str(e)[:500]}"
            info["origin"] = core.exception_origin(e)
            info["trace"] = traceback.format_exc()[-2500:]
            guards(info)
        finally:
            put("workspace", 0)
            put("fail_at", 0)
        say(**info)
    say(end=True)


def problem(item, rng, api):
    """a random least squares problem in double precision"""
    n, b, p, cplx = item["n"], item["b"], item["p"], item["dtype"].startswith("complex")

    def randn(*shape):
        x = rng.standard_normal(shape)
        return x + 1j * rng.standard_normal(shape) if cplx else x
    m = n * n
    q, _ = np.linalg.qr(randn(m, m))
    w = {"positive": rng.uniform(0.2, 1, m), "graded": 10.0 ** -rng.uniform(0, 4, m), "deficient": np.where(rng.uniform(size=m) < 0.5, rng.uniform(0.2, 1, m), 0.0),
         "indefinite": rng.uniform(0.2, 1, m) * rng.choice([-1, 1], m)}[item["spectrum"]]
    if item["spectrum"] == "deficient":
        w[0] = 1
    n12 = ((q * w) @ q.conj().T * item["scale"]).reshape(n, n, n, n)
    a12g = randn(n, n, p, p)
    x = {"a1": randn(n, b, p), "a2": randn(n, b, p), "n12": n12, "a12g": a12g}
    dt = np.dtype(item["dtype"])
    x = {k: v.astype(dt) for k, v in x.items()}
    x["n12g"] = np.einsum("yxYX,yxpq->YXpq", x["n12"], x["a12g"])
    return x


def relative(x, y):
    s = max(np.abs(y).max(), 1e-300)
    d = np.abs(x - y).max() / s
    return float(d) if np.isfinite(d) else float("inf")


def tolerances(item, rng, x, result):
    """how far results of different rounding may be apart, from perturbed inputs; None if undecidable"""
    eps = api_eps(item["dtype"])
    args = (item["niter"], item["tol"], item["method"], item["eps"])
    wide = {k: v.astype(complex if np.iscomplexobj(v) else float) for k, v in x.items()}
    r1, r2, changes = reference(wide["a1"], wide["a2"], wide["n12g"], wide["n12"], wide["a12g"], *args)
    if not (np.isfinite(r1).all() and np.isfinite(r2).all()):
        return None
    stops = [abs(c / item["tol"] - 1) < 0.1 for c in changes[2:]] if item["tol"] > 1e-13 else []
    # at the end of convergence the relative change is rounding noise
    noisy = item["niter"] > 3 and any(c < 100 * eps for c in changes)
    spread = 0.0
    for _ in range(3):
        pert = {k: v * (1 + 4 * eps * rng.uniform(-1, 1, v.shape)) for k, v in wide.items()}
        m = pert["n12"]
        pert["n12"] = (m + m.transpose(2, 3, 0, 1).conj()) / 2
        p1, p2, c2 = reference(pert["a1"], pert["a2"], pert["n12g"], pert["n12"], pert["a12g"], *args, noise=(rng, 4 * eps))
        spread = max(spread, relative(p1, r1), relative(p2, r2), relative(np.einsum("yup,xuq->yxpq", p1, p2), np.einsum("yup,xuq->yxpq", r1, r2)))
        if len(c2) != len(changes):
            stops.append(True)
    if any(stops):
        return None
    return r1, r2, len(changes), 30 * spread + 300 * eps, noisy


def api_eps(name):
    return 6e-8 if name in ("float32", "complex64") else 1.2e-16


def solve(item, rng, api, torch, ext, view, info, get, put, guards):
    x = problem(item, rng, api)
    t = {k: view(rng, v, item["layout"]) for k, v in x.items()}
    keep = {k: v.clone().resolve_conj() for k, v in t.items()}
    call = (item["niter"], item["tol"], item["method"], item["eps"])
    if item["kind"] == "fail":
        # let some library call fail, then try again
        n0 = get("calls")
        ext.als_solve(t["a1"], t["a2"], t["n12g"], t["n12"], t["a12g"], *call)
        total = get("calls") - n0
        info["injected"], info["survived"], info["leaks"], info["misuses"] = 0, [], [], []
        points = sorted({int(rng.integers(1, total + 1)) for _ in range(item["points"])} | {1, min(total, 20), min(total, 40)})
        for k in points:
            put("fail_at", k)
            f0 = get("failed")
            try:
                ext.als_solve(t["a1"], t["a2"], t["n12g"], t["n12"], t["a12g"], *call)
                if get("failed") > f0:
                    info["survived"].append(k)
            except Exception:
                pass
            put("fail_at", 0)
            info["injected"] += get("failed") - f0
            g = guards({})
            if g["live"]:
                info["leaks"].append([k, g["left"]])
            if g["misuse"]:
                info["misuses"].append([k, g["what"]])
    if item["kind"] == "invalid":
        raised = []
        for bad in item["values"]:
            try:
                ext.als_solve(t["a1"], t["a2"], t["n12g"], t["n12"], t["a12g"], item["niter"], item["tol"], bad, item["eps"])
                raised.append(False)
            except Exception:
                raised.append(True)
        info["raised"] = raised
    g1, g2 = ext.als_solve(t["a1"], t["a2"], t["n12g"], t["n12"], t["a12g"], *call)
    info["modified"] = [k for k in t if not torch.equal(t[k].resolve_conj(), keep[k])]
    info["shapes"] = [list(g1.shape), list(g2.shape), str(g1.dtype)[6:], str(g2.dtype)[6:]]
    g1, g2 = api.npy(g1), api.npy(g2)
    ref = tolerances(item, rng, x, (g1, g2))
    if ref is None:
        info["undecided"] = True
    else:
        r1, r2, used, tol, noisy = ref
        info["iterations"] = used
        prod = relative(np.einsum("yup,xuq->yxpq", g1, g2), np.einsum("yup,xuq->yxpq", r1, r2))
        info["direct"] = [max(relative(g1, r1), relative(g2, r2), prod), tol]
        info["noisy"] = noisy
    # the whole solver, with its own initial tensors, in both backends
    from acetn.evolution.als_solver import ALSSolver
    from acetn.ipeps.ipeps_config import EvolutionConfig
    if item["b"] <= item["n"] * item["p"]:
        res = []
        for backend in ("torch", "cutensor"):
            cfg = EvolutionConfig(backend=backend, als_niter=item["niter"], als_tol=item["tol"], als_method=item["method"], als_epsilon=item["eps"])
            s = ALSSolver(t["n12"], t["a12g"], (item["n"], item["b"], item["p"]), cfg)
            res.append([api.npy(v) for v in s.solve()])
        info["modified_by_solver"] = [k for k in t if not torch.equal(t[k].resolve_conj(), keep[k])]
        (p1, p2), (q1, q2) = res
        # the initial tensors of the solver, for the sensitivity
        cfg = EvolutionConfig(backend="torch", als_niter=0, als_tol=item["tol"], als_method=item["method"], als_epsilon=item["eps"])
        s1, s2 = [api.npy(v) for v in ALSSolver(t["n12"], t["a12g"], (item["n"], item["b"], item["p"]), cfg).solve()]
        ref = tolerances({**item, "eps": max(item["eps"], item["n"] * item["b"] * 2 * api_eps(item["dtype"]))}, rng, {**x, "a1": s1, "a2": s2}, None)
        if ref is not None:
            d = max(relative(q1, p1), relative(q2, p2), relative(np.einsum("yup,xuq->yxpq", q1, q2), np.einsum("yup,xuq->yxpq", p1, p2)))
            info["solver"] = [d, ref[3]]
            info["solver_noisy"] = ref[4]


def evolve(item, rng, api, states, info):
    """the same evolution with both backends"""
    import torch
    vals = []
    A, _ = states.short_state(rng, 2, 2, 2, 2, item["dtype"].startswith("complex"), 0.3)
    A = states.normalized(A)
    for backend in ("torch", "cutensor"):
        cfg = api.config(2, 2, 2, 6, 2, item["dtype"], 4, evolution={"backend": backend, "als_method": item["method"], "als_niter": 6},
                         model={"name": "heisenberg", "params": {"J": 1.0}})
        ip = api.new(cfg)
        info.setdefault("backends", []).append(ip.config.evolution.backend)
        api.set_state(ip, A)
        torch.manual_seed(7)
        ip.evolve(0.02, 2)
        m = ip.measure()
        vals.append([float(m[k]) for k in sorted(m)])
    info["evolved"] = vals


main()
