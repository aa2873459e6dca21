"""C09: evolution gates are the exponentials of the Hamiltonian."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every gate the code builds compared with an independent matrix exponential"
LEVEL_NOTE = "Held on the executed models; every bond's gate is compared elementwise, several gate sets are alive at once."
RULE = ("Random Hermitian site and bond operators (site dependent, absent on some sites, tensors or Pauli operators) and built-in "
        "models on random cells, time steps of both signs and many sizes; non-trivial when one-site terms are present; distinct by seed.")
ASSUMPTIONS = ["bonds are visited as the network lists them; the gate of a bond is an array (out1, out2, in1, in2)"]
MIN_NONTRIVIAL = 40
REQUIRED_EVENTS = ("gates_checked", "absent_site_terms", "sets_alive_together", "operators_checked", "builtin_models", "large_exponents")
BUDGET = {"quick": 200, "thorough": 900}
CELLS = [(2, 2), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (1, 3), (4, 1)]


def cases(rng, tier):
    out = []
    for i in range(600 if tier == "quick" else 5000):
        out.append({"kind": "builtin" if i % 5 == 4 else "random", "cell": list(states.cell(rng, CELLS)), "d": int(rng.choice([2, 2, 3, 4])),
                    "dtype": str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.35, .35, .15, .15])),
                    "absent": float(rng.choice([0, 0.4, 1])), "seed": int(rng.integers(2 ** 31))})
    return out


def expm(h, dtau):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-dtau * w)) @ v.conj().T


def bond_hamiltonian(h1a, h1b, h2, d):
    h = h2.astype(complex)
    if h1a is not None:
        h = h + 0.25 * np.kron(h1a, np.eye(d))
    if h1b is not None:
        h = h + 0.25 * np.kron(np.eye(d), h1b)
    return h


def run_case(case):
    from acetn.evolution.gate import Gate
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    d = case["d"] if case["kind"] == "random" else 2
    eps = api.eps_of(case["dtype"])
    sets = []
    for n in range(2 + int(rng.integers(2))):
        dtau = float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-6, 0.5)) if rng.uniform() < 0.9 else 0.0
        if case["kind"] == "builtin":
            name = ["ising", "heisenberg"][int(rng.integers(2))]
            prm = {"jz": float(rng.normal()), "hx": float(rng.normal())} if name == "ising" else {"J": float(rng.normal())}
            ip = api.new(api.config(nx, ny, 1, 1, 2, case["dtype"], 1, model={"name": name, "params": prm}))
            from acetn.model.model_factory import model_factory
            model = model_factory.create(ip.config.model)
            X, Z, Y = np.array([[0, 1], [1, 0]]), np.diag([1, -1]), np.array([[0, -1j], [1j, 0]])
            if name == "ising":
                H1 = {s: -prm["hx"] * X for s in states.sites_of(nx, ny)}
                H2 = {b: -prm["jz"] * np.kron(Z, Z) for b in states.bonds_of(nx, ny)}
            else:
                H1 = {s: None for s in states.sites_of(nx, ny)}
                H2 = {b: prm["J"] / 4 * (np.kron(X, X) + np.kron(Y, Y) + np.kron(Z, Z)) for b in states.bonds_of(nx, ny)}
            r.count("builtin_models")
        else:
            ip = api.new(api.config(nx, ny, 1, 1, d, case["dtype"], 1))
            scale = 10 ** float(rng.uniform(-2, 0.7))
            if rng.uniform() < 0.2:
                # gates of any size the dtype can hold
                scale = float(rng.uniform(2, 25)) / max(abs(dtau), 1e-6)
                r.count("large_exponents")
            H1 = {s: None if rng.uniform() < case["absent"] else scale * states.hermitian(rng, d, cplx) for s in states.sites_of(nx, ny)}
            H2 = {b: scale * states.hermitian(rng, d * d, cplx) for b in states.bonds_of(nx, ny)}
            wrap = {}

            def wrapped(kind, key, wrap=wrap):
                return wrap.setdefault((kind, str(key)), bool(rng.integers(2)))
            model = api.probe_model(ip, {}, {}, lambda s, H1=H1: H1[tuple(s)], lambda b, H2=H2: H2[api.key3(b)], wrap=wrapped)
            r.count("absent_site_terms", sum(v is None for v in H1.values()))
        gate = Gate(model, dtau, ip.bond_list, ip.site_list)
        sets.append((ip, model, H1, H2, dtau, gate))
    r.count("sets_alive_together", len(sets))
    for again in range(2):
        for n, (ip, model, H1, H2, dtau, gate) in enumerate(sets):
            for bond in ip.bond_list:
                b = api.key3(bond)
                h = bond_hamiltonian(H1[b[0]], H1[b[1]], H2[b], d)
                want = expm(h, dtau)
                got = gate[bond]
                tag = f"set {n} of {len(sets)}, bond {b} of {nx}x{ny}, dtau={dtau:.3g}, d={d}, {case['dtype']}"
                if not r.check(tuple(got.shape) == (d,) * 4 and got.dtype == getattr(torch, case["dtype"]), "shape", f"{tag}: gate is {tuple(got.shape)} {got.dtype}"):
                    continue
                size = np.linalg.norm(want, 2) * (1 + abs(dtau) * np.linalg.norm(h, 2))
                r.close(api.npy(got).reshape(d * d, d * d), want, 200 * eps * size, "gate", f"{tag}: gate is not exp(-dtau h)")
                r.count("gates_checked")
            if hasattr(model, "owned_operators"):
                for (kind, key), op in model.owned_operators.items():
                    h = H1[key] if kind == "sh" else H2[key]
                    r.check(torch.equal(op, api.to_torch(h, op.dtype)), "operator-changed", f"building gates changed the model's operator {kind} {key}")
                    r.count("operators_checked")
    r.nontrivial = any(v is not None for s in sets for v in s[2].values())
    r.fingerprint = f"{case}"
    r.sample = {"cell": [nx, ny], "d": d, "dtau": [s[4] for s in sets], "kind": case["kind"]}
    return r
