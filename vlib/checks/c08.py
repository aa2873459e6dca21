"""C08: the randomized SVDs are accurate decompositions."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every decomposition checked against LAPACK and against a reference power method (statistically)"
LEVEL_NOTE = ("Held on the executed inputs. Isometry, ordering, interlacing and exactness hold for every draw of the random test "
              "matrix; near-optimality is checked with bounds that a correct method exceeds with negligible probability.")
RULE = ("Random matrices and products over shapes (wide, tall, smaller than q, empty overlap), spectra (flat, decaying, deficient, "
        "degenerate, zero, graded over 150 orders of magnitude, along coordinate axes), scales and dtypes; statistics over repeated draws compare the gain per power iteration with a numpy "
        "reference; distinct by kind, function, shape and seed.")
ASSUMPTIONS = ["numpy.linalg.svd as the exact decomposition"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("svd_lowrank", "fused_matmul_svd_lowrank", "fused_3matmul_svd_lowrank", "statistics", "rank_deficient", "graded", "axis")
BUDGET = {"quick": 200, "thorough": 900}
FUNCS = {"svd_lowrank": 1, "fused_matmul_svd_lowrank": 2, "fused_3matmul_svd_lowrank": 4}


def cases(rng, tier):
    out = []
    n = 1400 if tier == "quick" else 8000
    for i in range(n):
        out.append({"kind": "statistics" if i % 8 == 7 else "single", "func": list(FUNCS)[int(rng.integers(3))],
                    "dtype": str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.35, .35, .15, .15])) if i % 8 != 7 else str(rng.choice(["float64", "complex128"])),
                    "spectrum": str(rng.choice(["flat", "decay", "fast", "deficient", "degenerate", "zero", "one", "graded", "axis"], p=[.12, .15, .15, .15, .12, .03, .06, .12, .10])),
                    "seed": int(rng.integers(2 ** 31))})
    return out


def spectrum(rng, name, n):
    if name == "flat":
        return np.sort(rng.uniform(0.3, 1, n))[::-1]
    if name == "decay":
        return 0.6 ** np.arange(n)
    if name == "fast":
        return 10.0 ** (-1.5 * np.arange(n))
    if name == "deficient":
        s = np.zeros(n)
        k = int(rng.integers(1, n + 1))
        s[:k] = np.sort(rng.uniform(0.05, 1, k))[::-1]
        return s
    if name == "degenerate":
        return np.repeat(0.3 ** np.arange(n), 3)[:n]
    if name == "one":
        s = np.zeros(n)
        s[0] = 1
        return s
    return np.zeros(n)


def matrix(rng, m, n, s, cplx):
    k = min(m, n)
    u = np.linalg.qr(states.randn(rng, (m, k), cplx))[0]
    v = np.linalg.qr(states.randn(rng, (n, k), cplx))[0]
    return (u * s) @ v.conj().T


def graded(rng, shape, cplx, depth):
    """generic matrix times diagonal matrices with entries between 1 and 10**-depth"""
    def scales(n):
        e = -depth * np.sort(rng.uniform(0, 1, n) * (rng.uniform(0, 1, n) < 0.7))
        e[0] = 0
        return 10.0 ** e
    m = states.randn(rng, shape, cplx) * scales(shape[0])[:, None] * scales(shape[1])
    return m / np.abs(m).max()


def axis(rng, shape, cplx):
    """singular vectors along coordinate axes, in any order, with rows and columns of zeros"""
    k = min(shape)
    rank = int(rng.integers(1, k + 1))
    m = np.zeros(shape, complex if cplx else float)
    values = rng.choice([0.5, 0.8, 1.0]) ** np.arange(rank) if rng.uniform() < 0.6 else np.exp(rng.normal(0, 2, rank))
    phase = np.exp(2j * np.pi * rng.uniform(0, 1, rank)) if cplx else rng.choice([-1.0, 1.0], rank)
    if rng.uniform() < 0.5:
        rows, cols = rng.permutation(shape[0])[:rank], rng.permutation(shape[1])[:rank]
    else:
        # the last ones, or the first ones
        last = rng.uniform() < 0.7
        rows, cols = (np.arange(n - rank, n) if last else np.arange(rank) for n in shape)
    m[rows, cols] = values * phase
    return m


def factors(rng, nf, dims, s, cplx):
    """matrices whose product has about the given spectrum: the spectrum is spread over the factors"""
    if nf == 1:
        return [matrix(rng, dims[0], dims[-1], s, cplx)]
    out = [matrix(rng, dims[0], dims[1], spectrum(rng, "flat", min(dims[0], dims[1])), cplx)]
    inner = s
    for i in range(1, nf):
        k = min(dims[i], dims[i + 1])
        if i == nf // 2:
            t = np.zeros(k)
            t[:min(k, len(inner))] = inner[:min(k, len(inner))]
        else:
            t = spectrum(rng, "flat", k)
        out.append(matrix(rng, dims[i], dims[i + 1], t, cplx))
    return out


def call(func, ms, q, niter):
    import acetn.linalg as L
    return getattr(L, func)(*ms, q=q, niter=niter)


def reference_errors(A, q, niter, n, rng, cplx):
    out = []
    for _ in range(n):
        Y = A @ states.randn(rng, (A.shape[1], q), cplx)
        for _ in range(niter):
            Y = np.linalg.qr(Y)[0]
            Y = A @ (A.conj().T @ Y)
        Q = np.linalg.qr(Y)[0]
        out.append(np.linalg.norm(A - Q @ (Q.conj().T @ A)) ** 2)
    return np.array(out)


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    dt = getattr(torch, case["dtype"])
    cplx = dt.is_complex
    nf = FUNCS[case["func"]]
    if case["kind"] == "statistics":
        return run_statistics(case, r, rng, dt, cplx, nf)
    dims = [int(rng.integers(1, 40)) for _ in range(nf + 1)]
    if rng.uniform() < 0.3:
        dims = [int(rng.integers(1, 8)) for _ in range(nf + 1)]
    elif rng.uniform() < 0.08:
        dims = [int(rng.integers(60, 420)) for _ in range(nf + 1)]
    s = spectrum(rng, case["spectrum"], min(dims))
    k0 = min(dims[0], dims[-1])
    if nf == 1:
        s = spectrum(rng, case["spectrum"], k0)
    ms = factors(rng, nf, dims, s, cplx)
    small = case["dtype"] in ("float32", "complex64")
    if case["spectrum"] == "graded":
        # rows and columns of widely different size, as near-product states produce them
        ms = [graded(rng, m.shape, cplx, 18 if small else 150) for m in ms]
    if case["spectrum"] == "axis":
        ms = [axis(rng, m.shape, cplx) for m in ms]
        if nf > 1 and rng.uniform() < 0.8:
            # only one factor of that kind, so that the product does not vanish
            ms[1:] = [matrix(rng, *m.shape, spectrum(rng, "flat", min(m.shape)), cplx) for m in ms[1:]]
        if rng.uniform() < 0.5:
            ms = [np.ascontiguousarray(m.T) for m in ms[::-1]]
            dims = dims[::-1]
    sc = [10.0 ** float(rng.uniform(-2, 2) if small else rng.uniform(-15, 15)) for _ in ms]
    ms = [torch.from_numpy(m * c).to(dt) for m, c in zip(ms, sc)]
    if rng.uniform() < 0.4:      # strided inputs
        ms = [m.mT.contiguous().mT for m in ms]
    q = int(rng.integers(1, 14)) if rng.uniform() < 0.8 else int(rng.integers(1, 60))
    niter = int(rng.integers(0, 5))
    keep = [m.clone() for m in ms]
    U, S, V = call(case["func"], ms, q, niter)
    tag = f"{case['func']} of {'x'.join(map(str, dims))}, {case['spectrum']} spectrum, q={q}, niter={niter}, {case['dtype']}"
    r.check(all(torch.equal(a, b) for a, b in zip(ms, keep)), "input-modified", f"{tag}: an input was modified")
    A = api.npy(keep[0].to(torch.complex128))
    amp = np.linalg.norm(A, 2)
    for m in keep[1:]:
        A = A @ api.npy(m.to(torch.complex128))
        amp *= np.linalg.norm(api.npy(m.to(torch.complex128)), 2)
    sig = np.linalg.svd(A, compute_uv=False)
    eps = api.eps_of(case["dtype"])
    n = min(q, dims[0], dims[-1])
    r.check(U.dtype == dt and V.dtype == dt and not S.dtype.is_complex and S.dtype == torch.zeros((), dtype=dt).real.dtype, "dtype", f"{tag}: dtypes {U.dtype} {S.dtype} {V.dtype}")
    if not r.check(tuple(U.shape) == (dims[0], n) and tuple(S.shape) == (n,) and tuple(V.shape) == (dims[-1], n), "shape",
                   f"{tag}: shapes {tuple(U.shape)} {tuple(S.shape)} {tuple(V.shape)}, expected rank {n}"):
        r.nontrivial, r.fingerprint = True, str(case)
        return r
    U, S, V = api.npy(U.to(torch.complex128)), api.npy(S.double()), api.npy(V.to(torch.complex128))
    r.close(U.conj().T @ U, np.eye(n), 300 * eps, "isometry", f"{tag}: U is not isometric")
    r.close(V.conj().T @ V, np.eye(n), 300 * eps, "isometry", f"{tag}: V is not isometric")
    r.check(np.all(S >= 0) and np.all(np.diff(S) <= 0), "order", f"{tag}: singular values {S[:6]} are not descending and non-negative")
    r.le(np.max(S - sig[:n]) if n else 0, 300 * eps * amp, "interlacing", f"{tag}: a singular value exceeds the exact one")
    err = np.linalg.norm(A - (U * S) @ V.conj().T)
    rank = int(np.sum(sig > 1e-3 * eps * amp)) if sig[0] > 0 else 0
    # without power iterations rounding is amplified by the condition number of the random test matrix
    noise = (1000 if niter else 30000) * eps * amp
    if rank <= n or np.sum(sig[n:]) < eps * amp:
        r.le(err, noise, "not-exact", f"{tag}: rank {rank} fits but the product is not reproduced")
        r.le(np.max(np.abs(S - sig[:n])), noise, "values", f"{tag}: singular values of an exactly representable matrix")
        r.count("rank_deficient")
    else:
        best = np.sqrt(np.sum(sig[n:] ** 2))
        r.le(best, err * (1 + 1e-6) + noise, "better-than-optimal", f"{tag}: impossible error (oracle)")
        k = max(0, n - 6)
        p = n - k
        bound = np.sqrt((1 + k / max(p - 1, 0.5)) * np.sum(sig[k:] ** 2)) * (1 + 6 / np.sqrt(p)) + noise
        r.le(err, bound, "far-from-optimal", f"{tag}: error, optimum {best:.2e}")
    r.count(case["func"])
    r.count("axis", case["spectrum"] == "axis")
    r.count("graded", case["spectrum"] == "graded")
    r.nontrivial = sig[0] > 0
    r.fingerprint = f"{tag}{case['seed']}"
    r.sample = {"tag": tag, "error": err, "sigma": sig[:4]}
    return r


def run_statistics(case, r, rng, dt, cplx, nf):
    m, n = int(rng.integers(14, 24)), int(rng.integers(14, 24))
    decay = float(rng.choice([0.45, 0.6, 0.8, 0.9]))
    dims = [m] + [24] * (nf - 1) + [n]
    s = decay ** np.arange(min(m, n))
    # orthogonal outer factors: the spectrum of the product is exactly s
    ms, core = [], nf // 2
    for i in range(nf):
        a, b = dims[i], dims[i + 1]
        k = min(a, b)
        t = np.ones(k)
        if i == core:
            t = np.zeros(k)
            t[:min(k, len(s))] = s[:min(k, len(s))]
        ms.append(matrix(rng, a, b, t, cplx))
    A = np.linalg.multi_dot(ms) if nf > 1 else ms[0]
    ms = [torch.from_numpy(x).to(dt) for x in ms]
    q = int(rng.integers(3, 6))
    sig = np.linalg.svd(A, compute_uv=False)
    best = np.sum(sig[q:] ** 2)
    N = 40
    means = []
    for niter in (0, 1, 2, 3, 5, 10):
        got = []
        for _ in range(N):
            U, S, V = call(case["func"], ms, q, niter)
            got.append(np.linalg.norm(A - api.npy((U * S.to(U.dtype)) @ V.mH)) ** 2)
        ex = np.log(np.maximum(np.array(got) - best, 1e-10 * best))
        rf = np.log(np.maximum(reference_errors(A, q, niter, N, rng, cplx) - best, 1e-10 * best))
        sd = np.sqrt((np.var(ex) + np.var(rf)) / N)
        r.le(np.mean(ex) - np.mean(rf), 8 * sd + 0.2, "power-iterations",
             f"{case['func']} q={q} niter={niter}: log of the excess error over the power method (decay {decay})")
        means.append(float(np.mean(ex)))
    r.count("statistics")
    r.count(case["func"])
    r.nontrivial = True
    r.fingerprint = f"stat{case}"
    r.sample = {"func": case["func"], "mean log excess error by niter": means}
    return r
