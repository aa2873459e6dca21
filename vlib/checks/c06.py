"""C06: equivalent states give equivalent results (metamorphic monitor)."""
import numpy as np
from vlib import api, states
from vlib.core import Result

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: metamorphic relations between runs of the real code on transformed copies of a state"
LEVEL_NOTE = ("Held on the executed transformations. Two runs of the code are compared with each other through full tomography, "
              "so a mistake that respects all listed symmetries is left to C01.")
RULE = ("Random short-range states; density matrices of all sites and bonds (tomography through measure()) of the transformed "
        "state are compared with the relabelled ones of the original; evolution is compared under rotated and conjugated "
        "Hamiltonians; non-trivial when the states are entangled; distinct by transformation, cell, settings and seed.")
ASSUMPTIONS = ["correlations of the generated states decay by at least a factor 4 per site (checked in numpy for strips)"]
MIN_NONTRIVIAL = 20
KINDS = ["translate", "rotate", "reflect", "tile", "gauge", "rescale", "pad", "unitary", "conjugate", "evolve"]
REQUIRED_EVENTS = tuple("transformed_" + k for k in KINDS)
BUDGET = {"quick": 200, "thorough": 1500}
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1)]


def cases(rng, tier):
    out = []
    for i in range(80 if tier == "quick" else 900):
        kind = KINDS[i % len(KINDS)]
        cell = states.cell(rng, CELLS)
        if kind == "translate":
            cell = [(2, 2), (3, 2), (2, 3), (3, 3), (3, 1), (1, 3)][int(rng.integers(6))]
        if kind == "evolve":
            cell = [(2, 2), (2, 2), (3, 2), (2, 3)][int(rng.integers(4))]
        out.append({"kind": kind, "cell": list(cell), "d": int(rng.choice([2, 2, 3])),
                    "dtype": "complex128" if kind == "conjugate" else ["float64", "complex128"][int(rng.integers(2))],
                    "projectors": str(rng.choice(["half-system", "full-system"])),
                    "svd_type": str(rng.choice(["rsvd", "full-rank"])), "seed": int(rng.integers(2 ** 31))})
    return out


def swap_ends(rho, d):
    return rho.reshape(d, d, d, d).transpose(1, 0, 3, 2).reshape(d * d, d * d)


def site_map(kind, nx, ny, arg):
    """(new cell, f: old site of the infinite lattice -> new site)"""
    if kind == "translate":
        return (nx, ny), lambda s: (s[0] + arg[0], s[1] + arg[1])
    if kind == "rotate":
        return (ny, nx), lambda s: (-s[1], s[0])
    if kind == "reflect":
        return (nx, ny), lambda s: (-s[0], s[1])
    return (nx, ny), lambda s: s


def relabel(bonds, cell, f, d, nx, ny):
    """density matrices of all bonds after moving site s to f(s)"""
    out = {}
    mx, my = cell
    for (s1, s2, k), rho in bonds.items():
        t2 = (s1[0] + 1, s1[1]) if k == 2 else (s1[0], s1[1] + 1)
        a, b = f(s1), f(t2)
        if b[0] < a[0] or b[1] < a[1]:
            a, b, rho = b, a, swap_ends(rho, d)
        k = 2 if b[0] > a[0] else 1
        out[((a[0] % mx, a[1] % my), (b[0] % mx, b[1] % my), k)] = rho
    return out


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    kind = case["kind"]
    d = 2 if nx * ny > 4 or kind in ("evolve", "pad") else case["d"]
    D = 2
    chi = 14
    if kind == "evolve":
        return run_evolve(case, r, rng, nx, ny, d, cplx)
    A, q = states.short_state(rng, nx, ny, D, d, cplx, 0.3, 0.2)
    A = states.normalized(A)

    def tomo(B, cell, D=D, dtype=case["dtype"]):
        ip = api.new(api.config(*cell, D, chi, d, dtype, 14, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]}))
        api.set_state(ip, B)
        box = {}

        def probe():
            box["t"] = s, b = api.tomography(ip)
            return np.concatenate([s[k].ravel() for k in sorted(s)] + [b[k].ravel() for k in sorted(b)])
        _, res, _ = api.converge(ip, probe, 1e-10, 3)
        r.le(res, 1e-7, "not-converged", "CTMRG still moves")
        return box["t"]
    S0, B0 = tomo(A, (nx, ny))
    arg, cell, D1 = None, (nx, ny), D
    want_s, want_b = S0, B0
    dtype = case["dtype"]
    if kind in ("translate", "rotate", "reflect"):
        if kind == "translate":
            while True:
                arg = (int(rng.integers(nx)), int(rng.integers(ny)))
                if arg != (0, 0):
                    break
        cell, f = site_map(kind, nx, ny, arg)
        perm = {"translate": (0, 1, 2, 3, 4), "rotate": (1, 2, 3, 0, 4), "reflect": (2, 1, 0, 3, 4)}[kind]
        img = lambda s: (f(s)[0] % cell[0], f(s)[1] % cell[1])
        B = {img(s): a.transpose(perm) for s, a in A.items()}
        want_s = {img(s): m for s, m in S0.items()}
        want_b = relabel(B0, cell, f, d, nx, ny)
    elif kind == "tile":
        arg = (1, 1)
        while arg == (1, 1):
            arg = (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
        cell = (nx * arg[0], ny * arg[1])
        B = {(x, y): A[(x % nx, y % ny)] for x, y in states.sites_of(*cell)}
        want_s = {(x, y): S0[(x % nx, y % ny)] for x, y in B}
        want_b = {(s1, s2, k): B0[((s1[0] % nx, s1[1] % ny), (s2[0] % nx, s2[1] % ny), k)] for s1, s2, k in states.bonds_of(*cell)}
    elif kind == "gauge":
        B = states.apply_gauges(A, nx, ny, rng, cplx, 0.4)
    elif kind == "rescale":
        B = {s: a * float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-2, 2)) * (np.exp(1j * rng.uniform(0, 6)) if cplx else 1) for s, a in A.items()}
    elif kind == "pad":
        D1 = D + 1
        B = {s: np.pad(a, [(0, 1)] * 4 + [(0, 0)]) for s, a in A.items()}
        # the padding may sit anywhere in the bond space
        for s1, s2, k in states.bonds_of(nx, ny):
            p = rng.permutation(D1)
            l1, l2 = (2, 0) if k == 2 else (1, 3)
            B[s1] = np.take(B[s1], p, axis=l1)
            B[s2] = np.take(B[s2], p, axis=l2)
    elif kind == "unitary":
        dtype = str(rng.choice([case["dtype"], "complex128"]))
        U = {s: states.unitary(rng, d, api.is_complex(dtype)) for s in A}
        B = {s: np.einsum("qp,lurdp->lurdq", U[s], a) for s, a in A.items()}
        want_s = {s: U[s] @ m @ U[s].conj().T for s, m in S0.items()}
        want_b = {}
        for b, m in B0.items():
            u = np.kron(U[b[0]], U[b[1]])
            want_b[b] = u @ m @ u.conj().T
    elif kind == "conjugate":
        B = {s: a.conj() for s, a in A.items()}
        want_s = {s: m.conj() for s, m in S0.items()}
        want_b = {b: m.conj() for b, m in B0.items()}
    S1, B1 = tomo(B, cell, D1, dtype)
    if dtype != case["dtype"] or not api.is_complex(dtype):
        pass
    tol = 1e-6
    r.check(set(S1) == set(want_s) and set(B1) == set(want_b), "labels", f"{kind}: sites or bonds differ")
    for s in want_s:
        if s in S1:
            r.close(S1[s], want_s[s], tol, kind, f"{kind} {arg or ''} of a {nx}x{ny} cell: density matrix of site {s}")
    for b in want_b:
        if b in B1:
            r.close(B1[b], want_b[b], tol, kind, f"{kind} {arg or ''} of a {nx}x{ny} cell: density matrix of bond {b}")
    r.count("transformed_" + kind)
    r.count("density_matrices_compared", len(S1) + len(B1))
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"kind": kind, "cell": [nx, ny], "arg": arg, "ratio": q, "rho": S1[(0, 0)].ravel()[:2]}
    return r


def run_evolve(case, r, rng, nx, ny, d, cplx):
    """covariance of imaginary time evolution"""
    D, chi = 2, 12
    update = ["full", "simple"][case["seed"] % 2]
    A, q = states.short_state(rng, nx, ny, D, d, cplx, 0.3, 0.2)
    A = states.normalized(A)
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    H1 = {s: states.hermitian(rng, d, cplx) for s in sites}
    H2 = {b: states.hermitian(rng, d * d, cplx) for b in bonds}
    dtau, steps = float(rng.choice([0.02, 0.1])), 3

    def run(A, H1, H2, dtype):
        ip = api.new(api.config(nx, ny, D, chi, d, dtype, 10, ctmrg={"projectors": "half-system", "svd_type": "full-rank"},
                                evolution={"update_type": update}))
        api.set_state(ip, A)
        ip.evolve(dtau, steps, model=api.probe_model(ip, {}, {}, lambda s: H1[tuple(s)], lambda b: H2[api.key3(b)]))
        ip.renormalize()
        return api.tomography(ip)
    S0, B0 = run(A, H1, H2, case["dtype"])
    how = "conjugate" if cplx and case["seed"] % 4 < 2 else "unitary"
    if how == "conjugate":
        S1, B1 = run({s: a.conj() for s, a in A.items()}, {s: h.conj() for s, h in H1.items()}, {b: h.conj() for b, h in H2.items()}, case["dtype"])
        want_s = {s: m.conj() for s, m in S0.items()}
        want_b = {b: m.conj() for b, m in B0.items()}
    else:
        U = {s: states.unitary(rng, d, cplx) for s in sites}
        W = {b: np.kron(U[b[0]], U[b[1]]) for b in bonds}
        S1, B1 = run({s: np.einsum("qp,lurdp->lurdq", U[s], a) for s, a in A.items()},
                     {s: U[s] @ h @ U[s].conj().T for s, h in H1.items()}, {b: W[b] @ h @ W[b].conj().T for b, h in H2.items()}, case["dtype"])
        want_s = {s: U[s] @ m @ U[s].conj().T for s, m in S0.items()}
        want_b = {b: W[b] @ m @ W[b].conj().T for b, m in B0.items()}
    tol = 2e-6
    for s in sites:
        r.close(S1[s], want_s[s], tol, "evolve", f"{how}: site {s} after {steps} {update} steps of {dtau} on {nx}x{ny}")
    for b in bonds:
        r.close(B1[b], want_b[b], tol, "evolve", f"{how}: bond {b} after {steps} {update} steps of {dtau} on {nx}x{ny}")
    r.count("transformed_evolve")
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"kind": "evolve", "how": how, "update": update, "cell": [nx, ny], "rho": S1[(0, 0)].ravel()[:2]}
    return r
