"""C13: the ALS solver minimizes its cost monotonically."""
import types
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result
from vlib.faults import LapackFaults

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: distances computed independently after every iteration count, an independent solver for stationarity, metamorphic runs over solver and gauge settings, and runs with injected failures of the matrix factorization"
LEVEL_NOTE = "Held on the executed inputs; norm tensors have condition numbers up to 1e6 (1e2 in single precision)."
RULE = ("Random positive norm tensors of bond sizes 1-9 with spectra from flat to decaying over six orders of magnitude, product or "
        "correlated, random targets of full, low and deficient rank and of any scale, all dtypes, both linear solvers, every iteration "
        "count from one up; non-trivial when the target cannot be represented exactly; distinct by seed.")
ASSUMPTIONS = ["norm tensors are Hermitian and positive, as the preconditioning guarantees"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("iterations_watched", "stationary_checked", "exact_targets", "solver_pairs", "gauge_pairs", "gauge_updates", "costs_checked", "random_pairs", "real", "complex", "single")
BUDGET = {"quick": 200, "thorough": 1500}


def cases(rng, tier):
    out = []
    for i in range(600 if tier == "quick" else 6000):
        out.append({"dtype": str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.4, .4, .1, .1])),
                    "n": int(rng.integers(1, 10)), "D": int(rng.integers(1, 5)), "d": int(rng.integers(2, 4)),
                    "method": str(rng.choice(["cholesky", "pinv"])), "cond": float(rng.uniform(0, 6)),
                    "norm": str(rng.choice(["flat", "decay", "product", "peaked"])), "target": str(rng.choice(["full", "low", "gate", "exact"], p=[.4, .1, .3, .2])),
                    "scale": float(10 ** rng.uniform(-3, 3)), "nscale": float(10 ** rng.uniform(-3, 3)), "seed": int(rng.integers(2 ** 31))})
    return out


def norm_tensor(rng, n, kind, cond, cplx):
    if kind == "product":
        def one():
            q = states.unitary(rng, n, cplx)
            return (q * 10 ** (-cond / 2 * rng.uniform(0, 1, n))) @ q.conj().T
        M = np.einsum("yY,xX->yxYX", one(), one()).reshape(n * n, n * n)
    else:
        q = states.unitary(rng, n * n, cplx)
        if kind == "flat":
            w = rng.uniform(0.3, 1, n * n)
        elif kind == "decay":
            w = 10 ** (-cond * np.linspace(0, 1, n * n))
        else:
            w = np.full(n * n, 10.0 ** -cond)
            w[0] = 1
        M = (q * w) @ q.conj().T
    return ((M + M.conj().T) / 2).reshape(n, n, n, n)


def dot(N, x, y):
    """<y|x>, the first index pair of N belongs to the ket"""
    return np.einsum("yxYX,yxpq,YXpq->", N, x, y.conj(), optimize=True)


def distance(N, a, b, t):
    e = np.einsum("yup,xuq->yxpq", a, b) - t
    return dot(N, e, e).real


def sweep(N, t, a, b):
    n, D, d = a.shape
    T = np.einsum("yxYX,yxpq->YXpq", N, t)
    R = np.einsum("yxYX,xuq,XUq->YUyu", N, b, b.conj(), optimize=True).reshape(n * D, n * D)
    a = np.linalg.lstsq(R, np.einsum("YXpq,XUq->YUp", T, b.conj()).reshape(n * D, d), rcond=1e-14)[0].reshape(n, D, d)
    R = np.einsum("yxYX,yup,YUp->XUxu", N, a, a.conj(), optimize=True).reshape(n * D, n * D)
    b = np.linalg.lstsq(R, np.einsum("YXpq,YUp->XUq", T, a.conj()).reshape(n * D, d), rcond=1e-14)[0].reshape(n, D, d)
    return a, b


def run_case(case):
    from acetn.evolution.als_solver import ALSSolver
    from acetn.evolution.full_update import FullUpdater, gauge_fix, positive_approx
    r = Result()
    rng = np.random.default_rng(case["seed"])
    n, D, d = case["n"], case["D"], case["d"]
    single = case["dtype"] in ("float32", "complex64")
    cplx = api.is_complex(case["dtype"])
    dt = getattr(torch, case["dtype"])
    D = min(D, n * d)
    cond = min(case["cond"], 2) if single else case["cond"]
    if single:
        case = dict(case, scale=min(max(case["scale"], 0.1), 10), nscale=min(max(case["nscale"], 0.1), 10))
    N = norm_tensor(rng, n, case["norm"], cond, cplx) * case["nscale"]
    rank = {"full": n * d, "low": max(1, D - 1), "exact": D, "gate": n * d}[case["target"]]
    if case["target"] == "gate":
        x = np.einsum("yup,xuq->yxpq", states.randn(rng, (n, D, d), cplx), states.randn(rng, (n, D, d), cplx))
        h = states.hermitian(rng, d * d, cplx)
        w, v = np.linalg.eigh(h)
        g = ((v * np.exp(-10 ** rng.uniform(-2, 0) * w)) @ v.conj().T).reshape(d, d, d, d)
        t = np.einsum("yxpq,rspq->yxrs", x, g)
    else:
        t = np.einsum("yup,xuq->yxpq", states.randn(rng, (n, rank, d), cplx), states.randn(rng, (n, rank, d), cplx))
    t = t / np.linalg.norm(t) * case["scale"]
    Nt, tt = api.to_torch(N, dt), api.to_torch(t, dt)
    N, t = api.npy(Nt).astype(complex), api.npy(tt).astype(complex)
    t2 = dot(N, t, t).real
    eps = api.eps_of(case["dtype"])
    # size of the largest contribution to the cost, which sets its rounding error
    big = case["scale"] ** 2 * case["nscale"]

    def config(niter, tol=0.0, method=None, epsilon=1e-12):
        return types.SimpleNamespace(als_niter=niter, als_tol=tol, als_method=method or case["method"], als_epsilon=epsilon, backend="torch")

    def solve(*a, **k):
        q = ALSSolver(Nt.clone(), tt.clone(), (n, D, d), config(*a, **k))
        a1, a2 = q.solve()
        return a1, a2
    tag = f"n={n}, D={D}, d={d}, {case['dtype']}, {case['method']}, {case['norm']} norm (condition 1e{cond:.1f}), {case['target']} target, scale {case['scale']:.1e}, {case['nscale']:.1e}"
    U, s, V = np.linalg.svd(t.transpose(0, 2, 1, 3).reshape(n * d, n * d))
    a = (U[:, :D] * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
    b = (V[:D].T * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
    start = distance(N, a, b, t)
    last, trace = start, [start]
    # regularization 1e-12 and rounding limit how exactly a minimum is hit
    slack = (2e-10 if not single else 1e-4) * big
    with torch.inference_mode():
        counts = [1, 2, 3, 4, 6, 9, 14, 30]
        prev = None
        for m in counts:
            a1, a2 = solve(m)
            x, y = api.npy(a1).astype(complex), api.npy(a2).astype(complex)
            now = distance(N, x, y, t)
            trace.append(now)
            r.count("iterations_watched", m)
            r.le(now, last + slack, "monotone", f"distance after {m} iterations against fewer; trace {trace[:4]}; {tag}")
            last = now
            cost = float(ALSSolver.calculate_cost(a1, a2, tt, Nt))
            r.count("costs_checked")
            size = abs(dot(N, *(2 * [np.einsum("yup,xuq->yxpq", x, y)])).real) + t2
            r.close(cost + t2, now, 200 * n * n * eps * max(size, big), "cost", f"reported cost plus the norm of the target is the distance; {tag}")
        # the cost of any pair, not only of solutions
        for _ in range(3):
            p_, q_ = (states.randn(rng, (n, D, d), cplx) * np.sqrt(case["scale"]) * 10 ** rng.uniform(-1, 1) for _ in range(2))
            p_, q_ = (api.npy(api.to_torch(z, dt)).astype(complex) for z in (p_, q_))
            cost = float(ALSSolver.calculate_cost(api.to_torch(p_, dt), api.to_torch(q_, dt), tt, Nt))
            size = abs(dot(N, *(2 * [np.einsum("yup,xuq->yxpq", p_, q_)])).real) + t2
            r.close(cost + t2, distance(N, p_, q_, t), 200 * n * n * eps * max(size, big), "cost", f"cost of a random pair plus the norm of the target is the distance; {tag}")
            r.count("random_pairs")
        r.le(last, start + slack, "better-than-svd", f"final distance against the truncated SVD; {tag}")
        if case["target"] in ("exact", "low"):
            r.count("exact_targets")
            r.le(last, (1e-9 if not single else 1e-3) * big, "exact", f"distance to a target of rank {rank}; {tag}")
        # many iterations: nothing left to gain
        a1, a2 = solve(600, 1e-15)
        x, y = api.npy(a1).astype(complex), api.npy(a2).astype(complex)
        final = distance(N, x, y, t)
        r.le(final, last + slack, "monotone", f"distance after 600 iterations; {tag}")
        p, q = x, y
        for _ in range(2):
            p, q = sweep(N, t, p, q)
        better = distance(N, p, q, t)
        r.count("stationary_checked")
        r.le(final - better, 2e-2 * abs(better) + slack, "stationary", f"an independent solver lowers the distance from {final:.6e} to {better:.6e}; {tag}")
        other = "pinv" if case["method"] == "cholesky" else "cholesky"
        b1, b2 = solve(30, 0.0, other)
        u, v = api.npy(b1).astype(complex), api.npy(b2).astype(complex)
        r.count("solver_pairs")
        r.close(distance(N, u, v, t), last, 1e-3 * abs(last) + 2 * slack, "solver-independence", f"distance with {other}; {tag}")
        # a factorization that fails, at any call, costs no accuracy
        with LapackFaults(rng, ("linalg_cholesky", "cholesky"), float(rng.choice([0.2, 0.5, 1]))) as faults:
            b1, b2 = solve(30, 0.0)
        r.count("factorizations_failed", faults.failed)
        u, v = api.npy(b1).astype(complex), api.npy(b2).astype(complex)
        r.close(distance(N, u, v, t), last, 1e-3 * abs(last) + 2 * slack, "fault-independence", f"distance with {faults.failed} of {faults.calls} factorizations failing; {tag}")
        # gauge fixing changes the basis and nothing else
        if not single:
            nz = positive_approx(Nt.clone(), cutoff=1e-12)
            G, tg, xi, yi = gauge_fix(nz, tt.clone(), atol=1e-12)
            Gn, tgn = api.npy(G).astype(complex), api.npy(tg).astype(complex)
            xi, yi = api.npy(xi).astype(complex), api.npy(yi).astype(complex)
            a_, b_ = states.randn(rng, (n, D, d), cplx), states.randn(rng, (n, D, d), cplx)
            back = np.einsum("yz,zup->yup", yi, a_), np.einsum("xw,wvq->xvq", xi, b_)
            want = distance(N, *back, t)
            got = distance(Gn, a_, b_, tgn)
            r.count("gauge_pairs")
            r.close(got / max(want, 1e-300), 1.0, 1e-6, "gauge-metric", f"distance of the same pair before and after gauge fixing ({want:.4e}); {tag}")
            r.close(dot(Gn, tgn, tgn).real / t2, 1.0, 1e-6, "gauge-target", f"norm of the target before and after gauge fixing; {tag}")
            res = {}
            # elsewhere the two starting points may lead into different local minima
            comparable = case["target"] == "gate" and case["norm"] in ("flat", "product", "decay") and cond <= 3
            for gf in (True, False) if comparable else ():
                full = FullUpdater(types.SimpleNamespace(dims={}), None, types.SimpleNamespace(
                    use_gauge_fix=gf, gauge_fix_atol=1e-12, positive_approx_cutoff=1e-12, **vars(config(600, 1e-15))))
                # the reduced tensors of the state with a gate that produces the target only if the target has that form
                if comparable:
                    f1, f2 = full.update_reduced_tensors(*[api.to_torch(z, dt) for z in factorise(t, g, D)], Nt.clone(), api.to_torch(g, dt))
                    z = np.einsum("yup,xuq->yxpq", api.npy(f1).astype(complex), api.npy(f2).astype(complex))
                    ov = dot(N, t, z)
                    res[gf] = 1 - abs(ov) ** 2 / (dot(N, z, z).real * t2)
            if res:
                r.count("gauge_updates")
                r.close(res[True], res[False], 0.05 * abs(res[False]) + 1e-8, "gauge-independence", f"infidelity of the update with and without gauge fixing; {tag}")
    r.count("single" if single else "complex" if cplx else "real")
    r.nontrivial = len(s) > D and s[D] / s[0] > 1e-6
    r.fingerprint = str(case)
    r.sample = {"n": n, "D": D, "d": d, "trace": trace[:5], "final": final}
    return r


def factorise(t, g, D):
    """the rank-D pair that the gate maps to the target"""
    n, _, d, _ = t.shape
    gi = np.linalg.inv(g.reshape(d * d, d * d)).reshape(d, d, d, d)
    x = np.einsum("yxpq,rspq->yxrs", t, gi)
    U, s, V = np.linalg.svd(x.transpose(0, 2, 1, 3).reshape(n * d, n * d))
    a = (U[:, :D] * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
    b = (V[:D].T * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
    return a, b
