"""C10: evolution without truncation is exact imaginary time evolution."""
import numpy as np
from vlib import api, states
from vlib.core import Result

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: measured density matrices after evolve() against exact imaginary time evolution computed in numpy"
LEVEL_NOTE = ("Held on the executed Hamiltonians, all of which the bond dimension can represent exactly, so the only differences "
              "allowed are solver and boundary rounding.")
RULE = ("One-site Hamiltonians on product states, random two-site Hamiltonians on random dimer coverings (all orientations, across "
        "the cell boundary), diagonal Hamiltonians on all bonds in random local bases, vanishing Hamiltonians or time steps on "
        "entangled states; split into several evolve() calls; both updates and solver settings; non-trivial unless H = 0; distinct by seed.")
ASSUMPTIONS = ["cells of at least 2 x 2 (the update needs two different site tensors)"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("kind_onsite", "kind_dimers", "kind_diagonal", "kind_identity", "calls_split", "full", "simple")
BUDGET = {"quick": 200, "thorough": 1500}
CELLS = [(2, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2)]


def cases(rng, tier):
    out = []
    for i in range(90 if tier == "quick" else 1000):
        kind = ["dimers", "diagonal", "onsite", "dimers", "diagonal", "identity"][i % 6]
        out.append({"kind": kind, "cell": list(states.cell(rng, CELLS, 0.05)), "update": ["full", "simple"][(i // 6) % 2],
                    "dtype": ["float64", "complex128"][int(rng.integers(2))],
                    "gauge_fix": bool(rng.uniform() < 0.6), "als_method": str(rng.choice(["cholesky", "pinv"])),
                    "projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"])),
                    "seed": int(rng.integers(2 ** 31))})
    return out


def expm(h, t):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-t * w)) @ v.conj().T


def unit(v):
    return v / np.linalg.norm(v)


def split(rng, n):
    """n steps in one to three calls"""
    cuts = sorted(int(c) for c in rng.integers(1, n, int(rng.integers(0, 3)))) if n > 1 else []
    e = [0] + cuts + [n]
    return [b - a for a, b in zip(e, e[1:]) if b > a]


def matching(rng, nx, ny):
    """random set of disjoint bonds of the torus"""
    todo = states.bonds_of(nx, ny)
    used, out = set(), []
    for i in rng.permutation(len(todo)):
        b = todo[i]
        if b[0] != b[1] and not used & {b[0], b[1]}:
            out.append(b)
            used |= {b[0], b[1]}
    return out


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    cplx, kind, update = api.is_complex(case["dtype"]), case["kind"], case["update"]
    d = int(rng.choice([2, 2, 3])) if kind in ("dimers", "onsite") else 2
    D = d if kind in ("dimers", "diagonal") else 2
    if kind == "onsite":
        D = int(rng.choice([1, 2]))
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    n = int(rng.integers(1, 6)) if rng.uniform() < 0.88 else int(rng.integers(7, 24))
    dtau = float(rng.uniform(0.02, 0.25)) * (1 if rng.uniform() < 0.85 else -1)
    if n > 6:
        dtau *= 5 / n
    parts = split(rng, n) if n <= 6 or rng.uniform() < 0.3 else [n]
    chi = 8 if D < 3 else 9
    ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], 6, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]},
                            evolution={"update_type": update, "use_gauge_fix": case["gauge_fix"], "als_method": case["als_method"]}))
    H1 = {s: None for s in sites}
    H2 = {b: np.zeros((d * d, d * d)) for b in bonds}
    psi = {s: unit(states.randn(rng, d, cplx)) for s in sites}
    zero = {s: np.zeros((D,) * 4 + (d,), complex) for s in sites}

    def product(psi):
        out = {}
        for s in sites:
            a = zero[s].copy()
            a[0, 0, 0, 0] = psi[s]
            out[s] = a
        return out
    tau = n * dtau
    exact = None            # function returning (site rhos, bond rhos)
    if kind == "onsite":
        H1 = {s: states.hermitian(rng, d, cplx) if rng.uniform() < 0.8 else None for s in sites}
        A = product(psi)

        def exact():
            f = {s: unit(expm(H1[s], tau) @ psi[s] if H1[s] is not None else psi[s]) for s in sites}
            S = {s: np.outer(f[s], f[s].conj()) for s in sites}
            return S, {b: np.kron(S[b[0]], S[b[1]]) for b in bonds}
    elif kind == "dimers":
        dim = matching(rng, nx, ny)
        for b in dim:
            H2[b] = 1.5 * states.hermitian(rng, d * d, cplx)
        A = product(psi)
        start = {}
        for b in dim:
            start[b] = np.kron(psi[b[0]], psi[b[1]])
        if rng.uniform() < 0.5:
            # entangled dimers to start from
            for b in dim:
                m = states.randn(rng, (d, d), cplx)
                U, s, V = np.linalg.svd(m)
                start[b] = unit(m.reshape(-1))
                l1, l2 = (2, 0) if b[2] == 2 else (1, 3)
                for j in range(d):
                    i1, i2 = [0, 0, 0, 0], [0, 0, 0, 0]
                    i1[l1] = i2[l2] = j
                    A[b[0]][tuple(i1)] = U[:, j] * np.sqrt(s[j])
                    A[b[1]][tuple(i2)] = V[j] * np.sqrt(s[j])
        else:
            m = None

        def exact():
            S = {s: np.outer(psi[s], psi[s].conj()) for s in sites}
            B = {}
            for b in dim:
                f = unit(expm(H2[b], tau) @ start[b])
                B[b] = np.outer(f, f.conj())
                S[b[0]], S[b[1]] = api.marginals(B[b], d)
            return S, {b: B[b] if b in B else np.kron(S[b[0]], S[b[1]]) for b in bonds}
        # two bonds between the same pair of sites (cells two wide): the second one sees different copies
    elif kind == "diagonal":
        U = {s: states.unitary(rng, d, cplx) for s in sites}
        f2 = {b: rng.uniform(-1, 1, (d, d)) * 0.4 / max(0.3, abs(tau)) for b in bonds}
        f1 = {s: rng.uniform(-1, 1, d) if rng.uniform() < 0.7 else None for s in sites}
        psi = {s: U[s] @ unit((np.abs(states.randn(rng, d, False)) + 0.4)) for s in sites}
        for b in bonds:
            u = np.kron(U[b[0]], U[b[1]])
            H2[b] = (u * f2[b].reshape(-1)) @ u.conj().T
        for s in sites:
            if f1[s] is not None:
                H1[s] = (U[s] * f1[s]) @ U[s].conj().T
        A = product(psi)

        def exact_state():
            """exp(-tau sum f2(p,q)) as a network: every bond factor by its own SVD"""
            T = {}
            legs = {}
            for b in bonds:
                w = np.exp(-tau * f2[b])
                u, s, v = np.linalg.svd(w)
                l1, l2 = (2, 0) if b[2] == 2 else (1, 3)
                legs[(b[0], l1)] = u * np.sqrt(s)
                legs[(b[1], l2)] = v.T * np.sqrt(s)
            for s in sites:
                w = (U[s].conj().T @ psi[s]) * (np.exp(-tau * f1[s]) if f1[s] is not None else 1)
                t = np.einsum("p,pl,pu,pr,pd->lurdp", w, *[legs[(s, i)] for i in range(4)])
                T[s] = np.einsum("qp,lurdp->lurdq", U[s], t)
            return states.normalized(T)

        def exact():
            ref = api.new(api.config(nx, ny, D, 12, d, "complex128", 30, ctmrg={"svd_type": "full-rank"}))
            api.set_state(ref, exact_state())
            ref.renormalize()
            return api.tomography(ref)
    else:
        A, _ = states.short_state(rng, nx, ny, D, d, cplx, 0.3, 0.2)
        if rng.uniform() < 0.5:
            dtau = 0.0
            H1 = {s: states.hermitian(rng, d, cplx) for s in sites}
            H2 = {b: states.hermitian(rng, d * d, cplx) for b in bonds}

        def exact():
            ref = api.new(api.config(nx, ny, D, 14, d, case["dtype"], 20, ctmrg={"svd_type": "full-rank"}))
            api.set_state(ref, A)
            ref.renormalize()
            return api.tomography(ref)
        chi = 14
        ip.set_chi(chi)
    if kind in ("onsite", "dimers") and D > 1 and (update == "simple" or case["gauge_fix"]):
        # entries of any size: LAPACK breaks down on the denormal numbers that exact zeros turn into
        A = states.apply_gauges(A, nx, ny, rng, cplx, 0.3)
    A = states.normalized(A)
    api.set_state(ip, A)
    model = api.probe_model(ip, {}, {}, lambda s: H1[tuple(s)], lambda b: H2[api.key3(b)])
    if kind in ("diagonal", "identity"):
        ip.config.ctmrg.steps = 20
    for m in parts:
        ip.evolve(dtau, m, model=model)
    S, B = api.tomography(ip)
    Sx, Bx = exact()
    tol = {"onsite": 1e-7, "dimers": 1e-6, "diagonal": 2e-5, "identity": 1e-6}[kind]
    tag = f"{update}, {parts} steps of {dtau:.3f} on {nx}x{ny}, D={D}, d={d}, gauge_fix={case['gauge_fix']}, {case['als_method']}"
    for s in sites:
        r.close(S[s], Sx[s], tol, f"{kind}-{update}", f"{kind}: site {s}, {tag}")
    for b in bonds:
        r.close(B[b], Bx[b], tol, f"{kind}-{update}", f"{kind}: bond {b}, {tag}")
    r.count("kind_" + kind)
    r.count(update)
    r.count("calls_split", len(parts) > 1)
    r.count("many_steps", max(parts) > 6)
    r.count("density_matrices_compared", len(sites) + len(bonds))
    r.nontrivial = kind != "identity" or dtau == 0
    r.fingerprint = f"{case}"
    r.sample = {"kind": kind, "update": update, "steps": parts, "dtau": dtau, "cell": [nx, ny], "rho": Sx[(0, 0)].ravel()[:2]}
    return r
