"""C02: measure() counts every term once and averages correctly."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: energy and averages against exact sums over sites and bonds, with operator and state snapshots"
LEVEL_NOTE = ("Held on the executed models and states. States are random product and cluster states with exactly known "
              "expectation values; operators are random Hermitian and differ on every site and bond.")
RULE = ("Random site- and bond-dependent models (Pauli or tensor operators, one-site terms absent on some sites, any number "
        "of observables) measured on random product/cluster states on random cells; non-trivial when operators differ "
        "between sites and at least one average was compared; distinct by cell, dims, dtype and seed.")
ASSUMPTIONS = ["numpy contraction of the reference clusters"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("energies", "averages", "snapshots", "after_evolve")
BUDGET = {"quick": 200, "thorough": 900}
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1), (4, 2), (2, 4), (5, 1)]


def cases(rng, tier):
    out = []
    for i in range(180 if tier == "quick" else 1200):
        cell = states.cell(rng, CELLS)
        kind = ["product", "cluster", "evolved"][i % 3]
        if kind == "evolved" and min(cell) < 2:
            cell = [(2, 2), (3, 2), (2, 3)][int(rng.integers(3))]
        out.append({"kind": kind, "cell": list(cell), "d": int(rng.choice([2, 2, 3, 4] if kind == "product" else [2, 2, 3])),
                    "dtype": str(rng.choice(["float64", "complex128"])), "style": str(rng.choice(["pauli", "tensor", "mixed"])),
                    "ns": int(rng.integers(0, 4)), "nb": int(rng.integers(0, 3)), "via": str(rng.choice(["argument", "set_model"])),
                    "ham1": str(rng.choice(["all", "some", "none"])), "update": str(rng.choice(["full", "simple"])),
                    "seed": int(rng.integers(2 ** 31))})
    return out


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    d, cplx = case["d"], api.is_complex(case["dtype"])
    D = 1 if case["kind"] == "product" else 2
    st = states.ClusterState(rng, nx, ny, D, d, cplx, max_size=1 if D == 1 else 2)
    A = states.apply_gauges(st.A, nx, ny, rng, cplx, 0.3) if D > 1 else st.A
    ip = api.new(api.config(nx, ny, D, 8, d, case["dtype"], 8, evolution={"update_type": case["update"]}))
    api.set_state(ip, {s: a * np.exp(rng.normal(0, 0.5)) for s, a in A.items()})
    ip.renormalize()
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    H1 = {s: (states.hermitian(rng, d, cplx) if case["ham1"] == "all" or (case["ham1"] == "some" and rng.uniform() < 0.5) else None)
          for s in sites}

    def bond_op():
        return [(states.hermitian(rng, d, cplx), states.hermitian(rng, d, cplx)) for _ in range(2)]
    H2 = {b: bond_op() for b in bonds}
    O1 = {f"o{i}": {s: states.hermitian(rng, d, cplx) for s in sites} for i in range(case["ns"])}
    O2 = {f"b{i}": {b: bond_op() for b in bonds} for i in range(case["nb"])}

    def mat(t):
        return sum(np.kron(a, b) for a, b in t)
    pick = {"pauli": lambda *a: True, "tensor": lambda *a: False,
            "mixed": lambda kind, key: (hash((kind, str(key))) + case["seed"]) % 2 == 0}[case["style"]]
    log = []
    model = api.probe_model(ip, {k: (lambda s, v=v: v[tuple(s)]) for k, v in O1.items()},
                            {k: (lambda b, v=v: mat(v[api.key3(b)])) for k, v in O2.items()},
                            lambda s: H1[tuple(s)], lambda b: mat(H2[api.key3(b)]), wrap=pick, log=log)
    want = {"Energy": (sum(st.site(s, h) for s, h in H1.items() if h is not None) + sum(st.bond(b, t) for b, t in H2.items())) / (nx * ny)}
    for k, v in O1.items():
        want[k] = np.mean([st.site(s, o) for s, o in v.items()])
    for k, v in O2.items():
        want[k] = np.mean([st.bond(b, t) for b, t in v.items()])

    def measure():
        if case["via"] == "argument":
            return ip.measure(model=model)
        return ip.measure()

    if case["via"] == "set_model":
        inner = model

        from acetn.model.model import Model

        class Wrapped(Model):
            one_site_observables = staticmethod(lambda site: inner.one_site_observables(site))
            two_site_observables = staticmethod(lambda bond: inner.two_site_observables(bond))
            one_site_hamiltonian = staticmethod(lambda site: inner.one_site_hamiltonian(site))

            def two_site_hamiltonian(self, bond):
                return inner.two_site_hamiltonian(bond)
        ip.set_model(Wrapped, {}, name=f"probe{case['seed']}")

    def compare(tag, tol):
        snap = {s: [ip[s]["A"].clone()] + [t.clone() for k in "CE" for t in ip[s][k]] for s in sites}
        del log[:]
        m = measure()
        ops = {k: t.clone() for k, t in model.owned_operators.items()}
        if case["style"] != "x":
            m2 = measure()
        r.check(set(m.keys()) == set(want), "keys", f"{tag}: measure() returned {sorted(m)} instead of {sorted(want)}")
        for k, v in want.items():
            if k in m:
                r.close(float(m[k]), v, tol, "energy" if k == "Energy" else "average", f"{tag}: {k} on {nx}x{ny}")
                r.count("energies" if k == "Energy" else "averages")
                r.check(float(m[k]) == float(m2[k]), "repeatable", f"{tag}: second measurement of {k} differs", first=m[k], second=m2[k])
        same = all(torch.equal(a, b) for s in sites for a, b in zip(snap[s], [ip[s]["A"]] + [t for k in "CE" for t in ip[s][k]]))
        r.check(same, "state-changed", f"{tag}: measure() changed the tensors")
        for k, t in ops.items():
            h = {"sh": lambda: H1[k[1]], "bh": lambda: mat(H2[k[1]]), "so": lambda: O1[k[1][0]][k[1][1]], "bo": lambda: mat(O2[k[1][0]][k[1][1]])}[k[0]]()
            r.check(np.array_equal(model.owned_operators[k].numpy(), api.to_torch(h, ip.dtype).numpy()), "operator-changed",
                    f"{tag}: operator {k} of the model was modified")
        r.count("snapshots")

    compare("fresh", 1e-8)
    if case["kind"] == "evolved":
        zero = api.probe_model(ip)
        ip.evolve(0.0, int(rng.integers(1, 3)), model=zero)
        ip.renormalize()
        compare("after evolve", 1e-5)
        r.count("after_evolve")
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"energy": want["Energy"], "observables": {k: v for k, v in list(want.items())[:4]}, "style": case["style"]}
    return r
