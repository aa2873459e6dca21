"""C07: the CTMRG projectors are the best low-rank truncation."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: projectors of the real calculator judged against a numpy SVD of the independently contracted corners"
LEVEL_NOTE = ("Held on the executed environments. The optimum is known exactly (Eckart-Young); the randomized SVD is allowed a factor "
              "over it that its theory exceeds only with negligible probability.")
RULE = ("Random (generic and renormalized) environments on random cells, all four sites/directions, both projector types and SVD "
        "types, chi below and above the rank; plus whole sweeps that must reproduce a finite patch exactly; non-trivial when "
        "something was truncated or the patch is entangled; distinct by variant, settings and seed.")
ASSUMPTIONS = ["for direction k the four sites are given in the order the directional moves use (corner, next along, opposite, next against)"]
MIN_NONTRIVIAL = 30
REQUIRED_EVENTS = ("truncated", "exact_rank", "patch", "cutoff", "recorded_calls", "scaled", "multiplets")
BUDGET = {"quick": 200, "thorough": 1200}
CELLS = [(2, 2), (3, 2), (2, 3), (1, 1), (2, 1), (1, 2), (3, 3)]


def cases(rng, tier):
    out = []
    n = 840 if tier == "quick" else 6000
    for i in range(n):
        kind = ["generic", "generic", "recorded", "cutoff", "patch", "degenerate", "generic"][i % 7]
        out.append({"kind": kind, "cell": list(states.cell(rng, CELLS)) if kind != "patch" else [1, 1],
                    "D": int(rng.choice([1, 2, 2, 2, 3])) if kind != "patch" else 2, "d": int(rng.choice([1, 2, 3])) if kind != "patch" else 2,
                    "dtype": ["float64", "complex128"][int(rng.integers(2))],
                    "projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"])),
                    "seed": int(rng.integers(2 ** 31))})
        if kind == "generic" and rng.uniform() < 0.1:
            # sizes at which an implementation may switch methods
            out[-1].update(D=int(rng.choice([3, 4])), large=True)
    return out


def corner(ip, site, j):
    """corner j of a site with the tensors around it: matrix from the legs leaving it against/along the clockwise order

    The closed chain is C0 E0 C1 E1 C2 E2 C3 E3 with the legs of A in the order left, up, right, down;
    E[i] closes leg (i+1)%4 (E0 the upper leg, E1 the right one, ...), corner j sits between E[j-1] and E[j].
    Rows: chain leg after E[j] + the two layers of leg (j+2)%4; columns: chain leg before E[j-1] + layers of leg (j+3)%4.
    """
    j = j % 4
    C = api.npy(ip[site]["C"][j])
    E2, E1 = api.npy(ip[site]["E"][j]), api.npy(ip[site]["E"][(j + 3) % 4])
    a = api.npy(ip[site]["A"])
    a = np.moveaxis(a, [j % 4, (j + 1) % 4, (j + 2) % 4, (j + 3) % 4], [0, 1, 2, 3])
    t = np.tensordot(C, E2, (1, 0))              # b, c, u, U
    t = np.tensordot(E1, t, (1, 0))              # e, l, L, c, u, U
    t = np.tensordot(t, a, ([1, 4], [0, 1]))     # e, L, c, U, r, d, p
    t = np.tensordot(t, a.conj(), ([1, 3, 6], [0, 1, 4]))   # e, c, r, d, R, D
    t = t.transpose(1, 2, 4, 0, 3, 5)            # c, r, R, e, d, D
    return t.reshape(t.shape[0] * t.shape[1] * t.shape[2], -1)


def parts(ip, sites, k, projectors):
    s1, s2, s3, s4 = sites
    q1, q4 = corner(ip, s1, k), corner(ip, s4, k + 3)
    if projectors == "half-system":
        return q1, q4
    q2, q3 = corner(ip, s2, k + 1), corner(ip, s3, k + 2)
    return q2 @ q1, q4 @ q3


def judge(r, ip, sites, k, p1, p2, cfg, chi, tag, cap=None):
    R1, R2 = parts(ip, sites, k, cfg.projectors)
    R1, R2 = R1 / np.linalg.norm(R1), R2 / np.linalg.norm(R2)
    F = R1 @ R2
    F, R2 = F / np.linalg.norm(F), R2 / np.linalg.norm(F)
    s = np.linalg.svd(F, compute_uv=False)
    p1, p2 = api.npy(p1), api.npy(p2)
    n = p1.shape[-1]
    ok = r.check(p1.ndim == 4 and p2.ndim == 4 and p2.shape[-1] == n, "shape", f"{tag}: projector shapes {p1.shape} {p2.shape}")
    if not ok:
        return s, n
    P1, P2 = p1.reshape(-1, n), p2.reshape(-1, n)
    if not r.check(P1.shape[0] == R1.shape[1] and P2.shape[0] == R2.shape[0], "shape", f"{tag}: projectors act on dimensions {P1.shape[0]}, {P2.shape[0]}, the corners have {R1.shape[1]}"):
        return s, n
    r.check(1 <= n <= chi, "chi", f"{tag}: {n} states kept, chi={chi}")
    rel = s / s[0]
    rank = int(np.sum(rel > 1e-13))
    above = int(np.sum(rel > 3 * cfg.svd_cutoff))
    r.check(n >= min(chi, int(np.sum(rel > max(3 * cfg.svd_cutoff, 1e-9)))) or cfg.svd_type == "rsvd" and n >= min(chi, int(np.sum(rel > max(10 * cfg.svd_cutoff, 1e-7)))),
            "kept-too-few", f"{tag}: only {n} states kept of {above} above the cutoff, chi={chi}")
    if cfg.svd_cutoff > 1e-9:
        r.check(n <= int(np.sum(rel > cfg.svd_cutoff / 3)), "cutoff", f"{tag}: {n} states kept, only {int(np.sum(rel > cfg.svd_cutoff / 3))} have a relative weight above a third of the cutoff {cfg.svd_cutoff}")
        r.count("cutoff")
    smin = rel[min(n, len(rel)) - 1]
    # norms of the factors against the norm of the product: rounding is amplified by it
    amp = np.linalg.norm(R1, 2) * np.linalg.norm(R2, 2) / s[0]
    G = P1.T @ P2
    c = np.trace(G) / n
    tol = min(1e-13 * amp / smin * 30, 1e3)
    if tol < 1e-3:
        r.close(G / c, np.eye(n), max(tol, 1e-10), "inverse", f"{tag}: the second projector is not a right inverse of the first")
    X = (R1 @ P2) @ (P1.T @ R2)
    got = X * (np.vdot(X, F) / np.vdot(X, X))
    err = np.linalg.norm(got - F)
    m = min(n, chi)
    best = np.sqrt(np.sum(s[m:] ** 2))
    if cfg.svd_type == "full-rank":
        bound = best * (1 + 1e-6) + 1e-11 * amp
    else:
        bound = best * 1.25 + 1e-10 * amp
    r.le(err, bound, "not-optimal-" + cfg.svd_type if best > 1e-9 else "not-exact", f"{tag}: truncation error, optimum {best:.3e}, rank {rank}, {n} kept")
    if best > 1e-6:
        r.count("truncated")
    if rank <= chi:
        r.count("exact_rank")
    return s, n


def quad(k, x, y, nx, ny):
    """sites of the 2x2 plaquette in the order the move in direction k hands them over"""
    step = [[(0, 0), (1, 0), (1, -1), (0, -1)], [(0, 0), (0, -1), (-1, -1), (-1, 0)],
            [(0, 0), (-1, 0), (-1, 1), (0, 1)], [(0, 0), (0, 1), (1, 1), (1, 0)]][k]
    return [((x + dx) % nx, (y + dy) % ny) for dx, dy in step]


def calculator(**kw):
    from acetn.renormalization.projectors import ProjectorCalculator
    from acetn.ipeps.ipeps_config import CTMRGConfig
    cfg = CTMRGConfig(**kw)
    return ProjectorCalculator(cfg), cfg


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    D, d, cplx, kind = case["D"], case["d"], api.is_complex(case["dtype"]), case["kind"]
    if kind == "patch":
        return run_patch(case, r, rng, cplx)
    kw = {"projectors": case["projectors"], "svd_type": case["svd_type"]}
    if kind == "cutoff":
        kw["svd_cutoff"] = 10 ** float(rng.uniform(-6, -1))
    calc, cfg = calculator(**kw)
    chi = int(rng.integers(1, 14)) if not case.get("large") else int(rng.integers(10, 40))
    ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], 2, ctmrg=kw))
    if kind == "recorded":
        A, _ = states.short_state(rng, nx, ny, 2, max(d, 2), cplx, 0.45, 0.5) if D == 2 and d > 1 else (states.weak_state(rng, nx, ny, D, d, cplx, 0.4), 0)
    else:
        A = {s: states.randn(rng, (D,) * 4 + (d,), cplx) for s in states.sites_of(nx, ny)}
    if A[(0, 0)].shape != tuple(ip[(0, 0)]["A"].shape):
        ip = api.new(api.config(nx, ny, D, chi, A[(0, 0)].shape[-1], case["dtype"], 2, ctmrg=kw))
    api.set_state(ip, A)
    t = getattr(torch, case["dtype"])

    def tensor(*shape):
        return torch.from_numpy(states.randn(rng, shape, cplx)).to(t)
    if kind == "recorded":
        ip.renormalize()
    else:
        c = int(rng.integers(1, 8)) if not case.get("large") else int(rng.integers(12, 24))
        r.count("large", c > 8)
        multiplet = int(rng.integers(1, 4))
        if kind == "degenerate" and multiplet > 1:
            c = min(c, 4)
        for s in ip.site_list:
            ip[s]["C"] = [tensor(c, c) for _ in range(4)]
            ip[s]["E"] = [tensor(c, c, D, D) for _ in range(4)]
            if kind == "degenerate" and multiplet > 1:
                # every weight occurs that many times
                one = torch.eye(multiplet).to(t)
                ip[s]["C"] = [torch.kron(tensor(c, c), one) for _ in range(4)]
                ip[s]["E"] = [torch.einsum("abuU,xy->axbyuU", tensor(c, c, D, D), one).reshape(c * multiplet, c * multiplet, D, D) for _ in range(4)]
                r.count("multiplets")
            elif kind == "degenerate":
                # low rank corners and repeated weights
                w = max(1, c // 2)
                ip[s]["C"] = [tensor(c, w) @ tensor(w, c) for _ in range(4)]
            if kind == "cutoff":
                ip[s]["C"] = [torch.diag(torch.logspace(0, -3, c, dtype=torch.float64)).to(t) + 1e-6 * tensor(c, c) for _ in range(4)]
    if kind in ("generic", "cutoff", "degenerate"):
        # the truncation does not depend on the scale of the environment
        for s in ip.site_list:
            for key in "CE":
                ip[s][key] = [v * 10 ** float(rng.uniform(-4, 2)) for v in ip[s][key]]
        r.count("scaled")
    seen = []
    for _ in range(4):
        k, x, y = int(rng.integers(4)), int(rng.integers(nx)), int(rng.integers(ny))
        before = api.clone_env(ip)
        p1, p2 = calc.calculate(ip, quad(k, x, y, nx, ny), k)
        s, n = judge(r, ip, quad(k, x, y, nx, ny), k, p1, p2, cfg, chi, f"{case['projectors']} {case['svd_type']} k={k} at {(x, y)} of {nx}x{ny}")
        r.check(all(torch.equal(u, v) for q in before for a in "CE" for u, v in zip(before[q][a], ip[q][a])), "environment-changed", "calculating projectors changed the environment")
        seen.append((k, n, float(s[min(n, len(s) - 1)] / s[0])))
        r.count("recorded_calls" if kind == "recorded" else "calls")
    r.nontrivial = D > 1 or chi > 1
    r.fingerprint = f"{case}"
    r.sample = {"kind": kind, "chi": chi, "direction, kept, first dropped weight": seen}
    return r


def run_patch(case, r, rng, cplx):
    """one sweep that truncates nothing reproduces the contraction of the 5 x 5 patch with traced outer legs"""
    D, d = 2, int(rng.choice([2, 3]))
    a = states.randn(rng, (D,) * 4 + (d,), cplx) + 0.3
    a = a / np.linalg.norm(a)
    ip = api.new(api.config(1, 1, D, 16 + int(rng.integers(0, 5)), d, case["dtype"], 1, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]}))
    api.set_state(ip, {(0, 0): a})
    ip.renormalize()
    o, where = api.hermitian_basis(d, cplx)
    got, _ = api.expectations(ip, {(0, 0): o}, {})
    W = 5
    T = states.PatchOracle._double(a, None)
    one = np.eye(D).reshape(-1)

    def contract(center):
        # column by column, legs: E[r_0..r_{W-1}]
        E = None
        for x in range(W):
            X = np.ones((1,))
            cur = one if E is None else None
            # start: [v(bottom traced)] x left legs
            L = E if E is not None else np.array(1.0)
            if E is None:
                for _ in range(W):
                    L = np.multiply.outer(L, one)
            X = one.reshape([-1] + [1] * W) * L[None]
            for y in range(W):
                t = center if (x, y) == (2, 2) else T
                X = np.tensordot(X, t, ([0, 1], [3, 0]))
                X = np.moveaxis(X, -2, 0)
            E = np.tensordot(one, X, (0, 0))
        for _ in range(W):
            E = np.tensordot(E, one, (0, 0))
        return E
    Z = contract(T)
    want = np.array([(contract(states.PatchOracle._double(a, O)) / Z).real for O in o])
    # the full-system projectors see the square of the weights, so their cutoff bites earlier
    r.close(got[(0, 0)], want, 1e-9 if case["projectors"] == "half-system" else 2e-2, "patch", f"one untruncated sweep ({case['projectors']}, {case['svd_type']}) against the 5x5 patch")
    r.count("patch")
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"kind": "patch", "values": want[:4]}
    return r
