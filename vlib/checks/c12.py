"""C12: imaginary time evolution finds ground states variationally."""
import numpy as np
from vlib import api, states
from vlib.core import Result

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: energies measured along evolution runs against exact energies, rigorous lower bounds and mean-field upper bounds computed independently"
LEVEL_NOTE = ("Held on the executed runs. Lower bounds hold for every state; how close an evolution must come to the ground state is "
              "bounded empirically (small multiples of the known bond-dimension error).")
RULE = ("Transverse-field Ising chains along either direction (exact integral), the two-dimensional Ising model away from criticality "
        "(exact diagonalisation), random gapped dimers, the Heisenberg antiferromagnet, random Hamiltonians (Anderson bound from "
        "plaquettes, best product state), each optionally seen through random local basis changes, both updates, real and complex; "
        "decreasing time steps; non-trivial always; distinct by seed.")
ASSUMPTIONS = ["cells of at least 2 x 2", "away from criticality, so that bond dimension 2 or 3 suffices"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("kind_chain", "kind_tfim", "kind_dimer", "kind_heisenberg", "kind_random", "kind_covariance", "rotated", "full", "simple", "energies", "single_steps")
BUDGET = {"quick": 150, "thorough": 2400}
X, Z = np.array([[0, 1.0], [1, 0]]), np.diag([1.0, -1.0])
Y = np.array([[0, -1j], [1j, 0]])
ZZ = np.kron(Z, Z)
SS = (np.kron(X, X) + np.kron(Z, Z) + np.kron(Y, Y).real) / 4


def cases(rng, tier):
    out = []
    kinds = ["chain", "heisenberg", "random", "tfim", "dimer", "covariance", "chain", "random"]
    for i in range(32 if tier == "quick" else 480):
        kind = kinds[i % 8]
        cell = [(2, 2), (2, 2), (3, 2), (2, 3)][int(rng.integers(4))]
        if kind == "heisenberg":
            cell = [(2, 2), (4, 2), (2, 4)][int(rng.integers(3))] if rng.uniform() < 0.4 else (2, 2)
        out.append({"kind": kind, "cell": list(cell), "update": ["full", "simple"][(i // 8 + i) % 2] if kind != "heisenberg" else ["full", "simple"][(i // 8) % 2],
                    "dtype": ["float64", "complex128"][int(rng.integers(2))], "rotate": bool(rng.uniform() < 0.5),
                    "projectors": str(rng.choice(["half-system", "full-system"])),
                    "param": float(rng.uniform()), "seed": int(rng.integers(2 ** 31))})
    return out


def chain_energy(h, J=1.0):
    k = (np.arange(4000) + 0.5) * np.pi / 4000
    return -np.mean(np.sqrt(J * J + h * h - 2 * J * h * np.cos(k)))


def torus_energy(h, L1=4, L2=4):
    """ground-state energy per site of the Ising model on a torus (Lanczos)"""
    n = L1 * L2
    idx = np.arange(1 << n)
    s = [1.0 - 2 * ((idx >> i) & 1) for i in range(n)]
    diag = np.zeros(1 << n)
    for x in range(L1):
        for y in range(L2):
            i = x * L2 + y
            diag -= s[i] * (s[((x + 1) % L1) * L2 + y] + s[x * L2 + (y + 1) % L2])
    v = np.random.default_rng(0).normal(size=1 << n) + 1
    v /= np.linalg.norm(v)
    a, b, old = [], [], 0
    for _ in range(40):
        w = diag * v
        for i in range(n):
            w -= h * v[idx ^ (1 << i)]
        if b:
            w -= b[-1] * old
        a.append(w @ v)
        w -= a[-1] * v
        b.append(np.linalg.norm(w))
        old, v = v, w / b[-1]
    return np.linalg.eigvalsh(np.diag(a) + np.diag(b[:-1], 1) + np.diag(b[:-1], -1))[0] / n


def best_product(rng, H1, H2, sites, bonds, d, cplx, tries=6):
    """lowest mean-field energy per site of product states on the cell, with the states"""
    best = None
    for _ in range(tries):
        v = {s: states.randn(rng, d, cplx) for s in sites}
        v = {s: x / np.linalg.norm(x) for s, x in v.items()}
        e = None
        for it in range(200):
            for s in sites:
                h = np.zeros((d, d), complex) + (H1[s] if H1[s] is not None else 0)
                for b in bonds:
                    t = H2[b].reshape(d, d, d, d)
                    if b[0] == s:
                        h = h + np.einsum("abcd,b,d->ac", t, v[b[1]].conj(), v[b[1]])
                    if b[1] == s:
                        h = h + np.einsum("abcd,a,c->bd", t, v[b[0]].conj(), v[b[0]])
                w, u = np.linalg.eigh(h if cplx else h.real)
                v[s] = u[:, 0]
            e_new = product_energy(v, H1, H2, sites, bonds, d)
            if e is not None and abs(e - e_new) < 1e-13:
                break
            e = e_new
        if best is None or e < best[0]:
            best = (e, v)
    return best


def product_energy(v, H1, H2, sites, bonds, d):
    e = sum((v[s].conj() @ H1[s] @ v[s]).real for s in sites if H1[s] is not None)
    for b in bonds:
        p = np.kron(v[b[0]], v[b[1]])
        e += (p.conj() @ H2[b] @ p).real
    return e / len(sites)


def anderson(H1, H2, nx, ny, d):
    """lower bound per site: every plaquette in its own ground state"""
    tot = 0.0
    for s in states.sites_of(nx, ny):
        c = [s, ((s[0] + 1) % nx, s[1]), (s[0], (s[1] + 1) % ny), ((s[0] + 1) % nx, (s[1] + 1) % ny)]
        h = np.zeros((d ** 4, d ** 4), complex)

        def add(op, where):
            n = len(where)
            rest = [i for i in range(4) if i not in where]
            m = np.kron(op, np.eye(d ** (4 - n))).reshape((d,) * 8)
            order = where + rest
            inv = [order.index(i) for i in range(4)]
            return m.transpose(inv + [4 + i for i in inv]).reshape(d ** 4, d ** 4)
        for i in range(4):
            if H1[c[i]] is not None:
                h += 0.25 * add(H1[c[i]], [i])
        for i, j, k in ((0, 1, 2), (2, 3, 2), (0, 2, 1), (1, 3, 1)):
            h += 0.5 * add(H2[(c[i], c[j], k)], [i, j])
        tot += np.linalg.eigvalsh(h)[0]
    return tot / (nx * ny)


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    kind, update = case["kind"], case["update"]
    cplx = api.is_complex(case["dtype"])
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    d, D, chi = 2, 2, 10
    H1 = {s: None for s in sites}
    H2 = {b: np.zeros((4, 4)) for b in bonds}
    lower = upper = None
    stages = [(0.1, 20), (0.02, 25), (0.005, 20)]
    drop = 1e-3
    start = None
    if kind == "chain":
        h = float(np.array([0.3, 0.5, 1.7, 2.0, 3.0])[int(case["param"] * 5)])
        k = 1 + int(rng.integers(2))
        for s in sites:
            H1[s] = -h * X
        for b in bonds:
            if b[2] == k:
                H2[b] = -ZZ
        e0 = chain_energy(h)
        lower, upper = e0 - 1e-6, e0 + 6e-4
        start = {s: np.array([1.0, 0.6]) for s in sites}
    elif kind == "tfim":
        h, tol = [(0.5, 2e-5), (5.0, 3.5e-3), (8.0, 8e-4)][int(case["param"] * 3)]
        for s in sites:
            H1[s] = -h * X
        for b in bonds:
            H2[b] = -ZZ
        e0 = torus_energy(h)
        lower, upper = e0 - 1e-6 - (1e-5 if h < 1 else 0), e0 + tol
        start = {s: np.array([1.0, 0.6]) for s in sites}
    elif kind == "heisenberg":
        D, chi = 2, 12
        for b in bonds:
            H2[b] = SS
        lower, upper = -0.66944 - 2e-4, -0.6575
        stages = [(0.1, 25), (0.02, 25), (0.005, 20)]
        start = {s: np.array([1.0, 0.0]) if sum(s) % 2 else np.array([0.0, 1.0]) for s in sites}
        drop = 2e-3
    elif kind == "dimer":
        d = int(rng.choice([2, 3]))
        D = d
        from vlib.checks.c10 import matching
        H2 = {b: np.zeros((d * d, d * d)) for b in bonds}
        dim = matching(rng, nx, ny)
        e0 = 0.0
        start = {}
        free = set(sites)
        for b in dim:
            w = np.sort(rng.uniform(-1, 2, d * d))
            w[1:] += max(0, 1.2 - (w[1] - w[0]))
            q = states.unitary(rng, d * d, cplx)
            H2[b] = (q * w) @ q.conj().T
            e0 += w[0]
            free -= {b[0], b[1]}
        for s in free:
            H1[s] = states.hermitian(rng, d, cplx)
            w = np.linalg.eigvalsh(H1[s])
            H1[s] *= 1.2 / (w[1] - w[0])
            e0 += np.linalg.eigvalsh(H1[s])[0]
        e0 /= len(sites)
        lower, upper = e0 - 1e-7, e0 + 1e-4
        stages = [(0.3, 20), (0.3, 10), (0.05, 5)]
        drop = 1e-6
        chi = 8 if D == 2 else 9
    else:
        H1 = {s: states.hermitian(rng, d, cplx) * 0.7 if rng.uniform() < 0.7 else None for s in sites}
        H2 = {b: states.hermitian(rng, d * d, cplx) * 0.5 for b in bonds}
        stages = [(0.05, 10), (0.02, 10)]
        drop = 2e-3
    # a random change of the local bases leaves all energies alone
    U = {s: np.eye(d) for s in sites}
    if case["rotate"] and kind != "covariance":
        U = {s: states.unitary(rng, d, cplx) for s in sites}
        r.count("rotated")
    H1 = {s: None if h is None else U[s] @ h @ U[s].conj().T for s, h in H1.items()}
    H2 = {b: np.kron(U[b[0]], U[b[1]]) @ h @ np.kron(U[b[0]], U[b[1]]).conj().T for b, h in H2.items()}
    if not cplx:
        H1 = {s: None if h is None else np.real(h) for s, h in H1.items()}
        H2 = {b: np.real(h) for b, h in H2.items()}
    if start is not None and start:
        start = {s: U[s] @ v for s, v in start.items()}
    mf, v = best_product(rng, H1, H2, sites, bonds, d, cplx, 3 if kind != "random" else 8)
    if not start:
        start = v

    def simulate(H1, H2, A):
        import torch
        torch.manual_seed(case["seed"])
        ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], 8, ctmrg={"projectors": case["projectors"], "svd_type": "full-rank" if kind == "covariance" else "rsvd"},
                                evolution={"update_type": update}))
        api.set_state(ip, A)
        m = api.probe_model(ip, {}, {}, lambda s: H1[tuple(s)], lambda b: H2[api.key3(b)])
        es = [float(ip.measure(model=m)["Energy"])]
        for dtau, n in stages:
            ip.evolve(dtau, n, model=m)
            es.append(float(ip.measure(model=m)["Energy"]))
        # the energy measured after single large steps is that of the state reached
        jumps = []
        for dtau in (0.4, 0.15):
            ip.evolve(dtau, 1, model=m)
            e = float(ip.measure(model=m)["Energy"])
            for _ in range(3):
                ip.renormalize()
            jumps.append((e, float(ip.measure(model=m)["Energy"])))
        return ip, es, jumps
    noise = {s: np.abs(states.randn(rng, (D, D, D, D, d), False)) * (0.02 if kind != "covariance" else 0.05) for s in sites}
    if kind in ("dimer", "random"):
        noise = {s: x * 0.05 for s, x in noise.items()}
    A = {}
    for s in sites:
        A[s] = np.einsum("lurdp,qp->lurdq", noise[s], U[s]).astype(complex)
        A[s][0, 0, 0, 0] += start[s] / np.linalg.norm(start[s])
        if not cplx:
            A[s] = A[s].real
    A = states.normalized(A)
    if kind in ("chain", "tfim", "heisenberg"):
        e_start = product_energy({s: start[s] / np.linalg.norm(start[s]) for s in sites}, H1, H2, sites, bonds, d)
    tag = f"{kind}, {update}, {nx}x{ny}, D={D}, d={d}, chi={chi}, {case['dtype']}, rotated={case['rotate']}"
    ip, es, jumps = simulate(H1, H2, A)
    r.count("energies", len(es))
    r.count(update)
    r.count("kind_" + kind)
    if kind == "covariance":
        W = {s: states.unitary(rng, d, cplx) for s in sites}
        G1 = {s: None if h is None else W[s] @ h @ W[s].conj().T for s, h in H1.items()}
        G2 = {b: np.kron(W[b[0]], W[b[1]]) @ h @ np.kron(W[b[0]], W[b[1]]).conj().T for b, h in H2.items()}
        B = {s: np.einsum("lurdp,qp->lurdq", A[s], W[s]) for s in sites}
        if not cplx:
            G1 = {s: None if h is None else h.real for s, h in G1.items()}
            G2 = {b: h.real for b, h in G2.items()}
        ip2, es2, jumps2 = simulate(G1, G2, B)
        r.close(es2, es, 2e-5, "covariance", f"energies in another local basis; {tag}")
    else:
        bound = anderson(H1, H2, nx, ny, d)
        for e in es:
            r.le(bound - 1e-8, e, "rigorous-bound", f"energy {e} below the plaquette bound {bound}; {tag}")
            if lower is not None:
                r.le(lower, e, "variational", f"energy {e} below the ground-state energy {lower}; {tag}")
        for e1, e2 in zip(es, es[1:]):
            r.le(e2, e1 + drop, "descent", f"energies {es}; {tag}")
        r.le(es[-1], mf + (1e-9 if kind in ("heisenberg",) else 2e-6 if kind != "random" else 1e-4), "below-mean-field", f"final energy against the best product state; {tag}")
        if upper is not None:
            r.le(es[-1], upper, "accuracy-" + kind, f"final energy {es[-1]}, expected at most {upper}; energies {es}; {tag}")
    for e, again in jumps:
        r.count("single_steps")
        r.close(e, again, 1e-5, "energy-of-state", f"energy measured after a single large step against that after more sweeps; {tag}")
    r.nontrivial = True
    r.fingerprint = str(case)
    r.sample = {"jumps": jumps, "kind": kind, "update": update, "energies": es, "mean_field": mf, "window": [lower, upper]}
    return r
