"""C14: the norm tensor is the true bond environment, made positive."""
import signal
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result
from vlib.faults import LapackFaults
from vlib.checks import c11

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: norm tensors compared with an independent contraction and with measured density matrices; positive approximations inspected spectrally, with a watchdog on termination and injected failures of the eigensolver"
LEVEL_NOTE = "Held on the executed boundary tensors and matrices; a run of the positive approximation that exceeds 20 s is a violation."
RULE = ("Norm tensors: random and converged boundary tensors of random sizes, all bonds and directions, arbitrary reduced tensors. "
        "Positive approximation: Hermitian matrices with positive, indefinite, negative, zero, rank-deficient and graded spectra over "
        "forty orders of magnitude in scale, all dtypes and cutoffs; non-trivial unless already positive; distinct by seed.")
ASSUMPTIONS = ["the overall phase of the boundary tensors is arbitrary; the norm is positive"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("norms_random", "norms_converged", "density_matrices", "indefinite", "positive", "zero", "tiny_scale", "huge_scale", "right_bonds", "up_bonds")
BUDGET = {"quick": 200, "thorough": 1200}
CASE_TIMEOUT = 200
CELLS = [(2, 2), (3, 2), (2, 3), (1, 1), (2, 1), (1, 2)]


def cases(rng, tier):
    out = []
    for i in range(600 if tier == "quick" else 4000):
        kind = ["norm", "positive", "positive", "positive", "converged"][i % 5]
        c = {"kind": kind, "dtype": str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.4, .4, .1, .1])),
             "seed": int(rng.integers(2 ** 31))}
        if kind != "positive":
            c.update(cell=list(states.cell(rng, CELLS)), D=int(rng.integers(1, 4)), d=int(rng.integers(2, 4)), chi=int(rng.integers(1, 9)))
        else:
            c.update(n=int(rng.integers(1, 8)), spectrum=str(rng.choice(["positive", "indefinite", "noise", "negative", "zero", "deficient", "graded"],
                     p=[.15, .2, .25, .1, .1, .1, .1])), scale=float(10 ** rng.uniform(-20, 20)) if rng.uniform() < 0.5 else 1.0,
                     cutoff=float(rng.choice([1e-12, 1e-12, 1e-8, 1e-3, 1e-15])))
        out.append(c)
    return out


def spectrum(rng, kind, m):
    w = rng.uniform(0.1, 1, m)
    if kind == "indefinite":
        w *= rng.choice([-1, 1], m)
        w[0] = -abs(w[0])
    elif kind == "noise":
        w[rng.permutation(m)[:max(1, m // 2)]] = -10.0 ** rng.uniform(-17, -4)
    elif kind == "negative":
        w = -w
    elif kind == "zero":
        w[:] = 0
    elif kind == "deficient":
        w[rng.permutation(m)[:max(1, m // 2)]] = 0
    elif kind == "graded":
        w = 10.0 ** -np.linspace(0, 30, m)
    return w


class Hang(Exception):
    pass


def guarded(f, seconds=20):
    """f() or Hang"""
    def alarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    left = signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(left)


def run_positive(case, r, rng):
    from acetn.evolution.full_update import positive_approx
    dt = getattr(torch, case["dtype"])
    cplx, eps = dt.is_complex, api.eps_of(case["dtype"])
    n = case["n"]
    m = n * n
    single = eps > 1e-10
    scale = case["scale"]
    if single:
        scale = min(max(scale, 1e-12), 1e12)
    w = spectrum(rng, case["spectrum"], m) * scale
    q = states.unitary(rng, m, cplx)
    M = (q * w) @ q.conj().T
    M = (M + M.conj().T) / 2
    T = api.to_torch(M if cplx else M.real, dt)
    M = api.npy(T).astype(complex)
    M = (M + M.conj().T) / 2
    w0 = np.linalg.eigvalsh(M)
    big = max(abs(w0).max(), 0)
    cut = case["cutoff"]
    tag = f"{case['spectrum']} spectrum [{w0[0]:.3e}, {w0[-1]:.3e}], n={n}, {case['dtype']}, cutoff={cut}, scale={scale:.1e}"
    N = T.clone().reshape(n, n, n, n)
    with torch.inference_mode():
        try:
            nz = guarded(lambda: positive_approx(N.clone(), cutoff=cut))
        except Hang:
            r.violate("termination", f"positive_approx did not return within 20 s; {tag}")
            return
    z = api.npy(nz).astype(complex)
    if not r.check(np.all(np.isfinite(z)) and nz.dtype == dt, "finite", f"positive approximation is not finite or changes dtype; {tag}"):
        return
    z = z.reshape(m, -1)
    P = z @ z.conj().T
    wp = np.linalg.eigvalsh(P)
    noise = 60 * m * eps * max(big, cut)
    r.le(cut * (1 - 1e-3) - noise, wp[0], "smallest-eigenvalue", f"smallest eigenvalue {wp[0]:.3e} of the positive approximation; {tag}")
    delta = P - M
    c = np.trace(delta).real / m
    r.le(np.abs(delta - c * np.eye(m)).max(), noise + 60 * m * eps * abs(c), "only-shifted", f"positive approximation minus input is not a multiple of the identity; {tag}")
    if w0[0] > cut * (1 + 1e-9) + 4 * m * eps * big:
        r.count("positive")
        r.le(abs(c), noise, "unchanged", f"an already positive norm tensor was shifted by {c:.3e}; {tag}")
    else:
        r.count("indefinite" if w0[0] < 0 else "zero" if big == 0 else "semidefinite")
        r.le(c, 8 * max(cut, abs(min(w0[0], 0))) + 60 * m * eps * max(big, cut), "shift-size", f"shift {c:.3e} against the most negative eigenvalue {w0[0]:.3e}; {tag}")
        r.nontrivial = True
    # when the eigensolver fails the shift may differ, the guarantees do not; |N| is a positive approximation as well
    with torch.inference_mode(), LapackFaults(rng, ("linalg_eigh", "linalg_eigvalsh"), float(rng.choice([0.5, 1])), most=int(rng.integers(1, 4))) as faults:
        try:
            nz = guarded(lambda: positive_approx(T.clone().reshape(n, n, n, n), cutoff=cut))
        except Hang:
            r.violate("termination", f"positive_approx did not return within 20 s with {faults.failed} failures of the eigensolver; {tag}")
            return
    if faults.failed:
        r.count("eigensolver_failures", faults.failed)
        z = api.npy(nz).astype(complex)
        if r.check(np.all(np.isfinite(z)) and nz.dtype == dt, "finite", f"positive approximation is not finite or changes dtype after failures of the eigensolver; {tag}"):
            P = z.reshape(m, -1) @ z.reshape(m, -1).conj().T
            wp = np.linalg.eigvalsh(P)
            low = max(cut, -w0[0])
            r.le(cut * (1 - 1e-3) - noise, wp[0], "smallest-eigenvalue", f"smallest eigenvalue {wp[0]:.3e} after {faults.failed} failures of the eigensolver; {tag}")
            r.le(np.linalg.norm(P - M, 2), 8 * low + noise + 60 * m * eps * low, "approximates", f"distance of the positive approximation from the input after {faults.failed} failures of the eigensolver; {tag}")
            if w0[0] > cut * (1 + 1e-9) + 4 * m * eps * big:
                r.le(np.linalg.norm(P - M, 2), noise, "unchanged", f"an already positive norm tensor was changed after {faults.failed} failures of the eigensolver; {tag}")
    r.count("tiny_scale", 0 < big < 1e-10)
    r.count("huge_scale", big > 1e10)
    r.sample = {"spectrum": [w0[0], w0[-1]], "cutoff": cut, "shift": c}


def run_norm(case, r, rng):
    from acetn.evolution.full_update import build_norm_tensor
    nx, ny = case["cell"]
    D, d, chi = case["D"], case["d"], case["chi"]
    conv = case["kind"] == "converged"
    if conv:
        D = 2
        chi = 10
    cplx, eps = api.is_complex(case["dtype"]), api.eps_of(case["dtype"])
    ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], 8))
    if conv:
        A, _ = states.short_state(rng, nx, ny, D, d, cplx, 0.3, 0.3)
        A = states.normalized(A)
        api.set_state(ip, A)
        ip.renormalize()
    else:
        A = {s: states.randn(rng, (D,) * 4 + (d,), cplx) for s in states.sites_of(nx, ny)}
        A = states.normalized(A)
        api.set_state(ip, A)
        # boundary tensors without any symmetry; the bond dimension of every boundary leg is its own
        dims = {}

        def dim(*key):
            return dims.setdefault(key, int(rng.integers(1, 7)))
        for s in ip.site_list:
            x, y = s
            ip[s]["C"] = [api.to_torch(states.randn(rng, (chi, chi), cplx), ip.dtype) for _ in range(4)]
            ip[s]["E"] = [api.to_torch(states.randn(rng, (chi, chi, D, D), cplx), ip.dtype) for _ in range(4)]
    if conv:
        S, B = api.tomography(ip)
    with torch.inference_mode():
        for b in list(ip.bond_list):
            s1, s2, k = api.key3(b)
            n1, n2 = int(rng.integers(1, D * d + 1)), int(rng.integers(1, D * d + 1))
            tag = f"bond {s1}-{s2} (k={k}), cell {nx}x{ny}, D={D}, d={d}, chi={chi}, {case['dtype']}, {case['kind']}"
            if conv:
                # reduced tensors of the state itself, by an own decomposition
                f1 = c11.frame(api.npy(ip[s1]["A"]).astype(complex), k).transpose(1, 2, 3, 0, 4).reshape(D ** 3, D * d)
                f2 = c11.frame(api.npy(ip[s2]["A"]).astype(complex), k).transpose(0, 1, 3, 2, 4).reshape(D ** 3, D * d)
                q1, r1 = np.linalg.qr(f1)
                q2, r2 = np.linalg.qr(f2)
                if not cplx:
                    q1, q2 = q1.real, q2.real
            else:
                n2 = n1     # the code uses one size for both
                q1 = states.randn(rng, (D ** 3, n1), cplx)
                q2 = states.randn(rng, (D ** 3, n2), cplx)
            n1, n2 = q1.shape[1], q2.shape[1]
            # first tensor: legs u r d, second tensor: legs l u d (bond frame); the code wants (r,d,u) and (d,l,u)
            t1 = api.to_torch(q1.reshape(D, D, D, n1).transpose(1, 2, 0, 3), ip.dtype)
            t2 = api.to_torch(q2.reshape(D, D, D, n2).transpose(2, 0, 1, 3), ip.dtype)
            N = api.npy(build_norm_tensor(ip, b, t1, t2)).astype(complex)
            g = c11.metric(ip, b).reshape((D ** 3,) * 4)
            want = np.einsum("abAB,ay,bx,AY,BX->yxYX", g, q1, q2, q1.conj(), q2.conj(), optimize=True)
            tr = np.einsum("yxyx->", want)
            want = want * tr.conjugate() / abs(tr)
            # magnitude of the terms: cancellations limit the accuracy of random contractions
            size = np.abs(want).max() * (1 if conv else 30)
            r.close(N / size, want / size, 2000 * eps * (1 if conv else 20), "environment", f"norm tensor against an independent contraction of the boundary; {tag}")
            r.count("norms_converged" if conv else "norms_random")
            r.count("right_bonds" if k == 2 else "up_bonds")
            if conv:
                r1, r2 = r1.reshape(n1, D, d), r2.reshape(n2, D, d)
                x = np.einsum("yap,xaq->yxpq", r1, r2)
                rho = np.einsum("yxYX,yxpq,YXrs->pqrs", N, x, x.conj(), optimize=True).reshape(d * d, d * d)
                rho = rho / np.trace(rho)
                got = B[(s1, s2, k)]
                if not cplx:
                    rho = (rho + rho.T) / 2
                r.close(rho if cplx else rho.real, got if cplx else got.real, 1e-7 if eps < 1e-10 else 2e-4, "density-matrix",
                        f"density matrix of the bond from the norm tensor against measure(); {tag}")
                r.count("density_matrices")
                M = N.reshape(n1 * n2, n1 * n2)
                h = np.linalg.eigvalsh((M + M.conj().T) / 2)
                r.le(np.abs(M - M.conj().T).max() / np.abs(M).max(), 1e-5 if eps < 1e-10 else 2e-3, "hermitian", f"converged norm tensor is Hermitian; {tag}")
                r.le(-h[0] / h[-1], 1e-4 if eps < 1e-10 else 2e-3, "positive", f"converged norm tensor is positive; {tag}")
    r.nontrivial = True
    r.sample = {"cell": [nx, ny], "D": D, "kind": case["kind"]}


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    (run_positive if case["kind"] == "positive" else run_norm)(case, r, rng)
    r.fingerprint = str(case)
    return r
