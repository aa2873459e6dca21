"""C01: what measure() reports is the expectation value in the state given by the site tensors."""
import numpy as np
from vlib import api, states
from vlib.core import Result

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: measured values against exact reference oracles on randomized states"
LEVEL_NOTE = ("Held on the executed states only. The oracles (finite clusters, strip transfer operators, Onsager, brute-force "
              "patches) are independent numpy code that shares nothing with CTMRG; state families and settings are random.")
RULE = ("Random states with independently known expectation values (finite-cluster product states, infinite strips "
        "solved by numpy transfer operators, the anisotropic Ising PEPS solved by Onsager, and weakly correlated "
        "generic states contracted by brute force) are hidden behind random bond gauges, put on random unit cells "
        "with random dtype/projector/SVD settings, renormalized and measured. A case is non-trivial when the state "
        "is entangled or varies over the cell and at least 8 values were compared; distinct by family, cell, dims, "
        "settings and state seed.")
ASSUMPTIONS = ["numpy contraction of the reference networks", "site tensors A[l,u,r,d,p], r of (x,y) joined to l of (x+1,y), u to d of (x,y+1)"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("site_values", "bond_values")
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (4, 2), (3, 1), (2, 4)]
BUDGET = {"quick": 200, "thorough": 1500}


def cases(rng, tier):
    out = []
    n = 3 if tier == "quick" else 25
    for rep in range(n):
        for fam in ("product", "cluster", "cluster", "cluster", "strip", "strip", "ladder", "ising", "weak", "weak", "weak"):
            for dt in ("float64", "complex128"):
                for proj in ("half-system", "full-system"):
                    out.append({
                        "kind": fam, "dtype": dt, "projectors": proj,
                        "svd_type": str(rng.choice(["rsvd", "full-rank"])),
                        "cell": list(states.cell(rng, CELLS)),
                        "flip": bool(rng.integers(2)), "D": int(rng.choice([2, 2, 3])), "d": int(rng.choice([2, 2, 3])),
                        "gauge": bool(rng.uniform() < 0.7), "seed": int(rng.integers(2 ** 31)),
                    })
    # single precision is held to a correspondingly looser tolerance
    for rep in range(4 * n):
        out.append({"kind": "cluster", "dtype": str(rng.choice(["float32", "complex64"])), "projectors": "half-system",
                    "svd_type": "rsvd", "cell": list(states.cell(rng, CELLS)), "flip": False,
                    "D": 2, "d": 2, "gauge": True, "seed": int(rng.integers(2 ** 31))})
    order = rng.permutation(len(out))
    return [out[i] for i in order]


def build(case, rng):
    """(oracle, A, nx, ny, d, D, chi, steps, note)"""
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    D, d, fam = case["D"], case["d"], case["kind"]
    if fam == "product":
        D = 1 if case["flip"] else D
        st = states.ClusterState(rng, nx, ny, D, d, cplx, max_size=1)
        return st, st.A, nx, ny, d, D, 4, 8, "product"
    if fam == "cluster":
        st = states.ClusterState(rng, nx, ny, D, d, cplx, max_size=4 if D == 2 else 2)
        return st, st.A, nx, ny, d, D, 16 if D == 2 else 12, 10, f"clusters {st.sizes}"
    if fam in ("strip", "ladder"):
        w = 2 if fam == "ladder" else 1
        if w == 2:
            ny = 2 if ny < 4 else 4
            D, d = 2, 2
        while True:
            st = states.StripState(rng, nx, ny, D, d, cplx, w=w, mix=0.4 if w == 1 else 0.3)
            if st.gap < 0.7:
                # the correlation decays within the sweeps allowed here
                break
        o = states.Reflected(st) if case["flip"] else st
        return o, o.A, o.nx, o.ny, d, D, 20, 20, f"gap {st.gap:.3f}"
    if fam == "ising":
        K1, K2 = rng.uniform(0.1, 0.36, 2)
        st = states.IsingPeps(nx, ny, K1, K2)
        return st, st.A, nx, ny, 2, 2, 24, 25, f"K {K1:.3f} {K2:.3f}"
    D = 2
    A, _ = states.short_state(rng, nx, ny, D, d, cplx, 0.28, 0.2)
    return None, A, nx, ny, d, D, 16, 12, "generic"


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    dt = case["dtype"]
    cplx = api.is_complex(dt)
    single = api.eps_of(dt) > 1e-10
    oracle, A, nx, ny, d, D, chi, steps, note = build(case, rng)
    Agauge = states.apply_gauges(A, nx, ny, rng, cplx, 0.4) if case["gauge"] and D > 1 else A
    Agauge = {s: a * np.exp(rng.normal(0, 0.3)) / np.linalg.norm(a) for s, a in Agauge.items()}
    ip = api.new(api.config(nx, ny, D, chi, d, dt, steps, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]}))
    api.set_state(ip, Agauge)
    site_ops, bond_ops, terms = {}, {}, {}
    Z = np.diag([1.0, -1.0])
    for s in states.sites_of(nx, ny):
        site_ops[s] = [Z, np.array([[0, 1], [1, 0.]])] if case["kind"] == "ising" else [states.hermitian(rng, d, cplx) for _ in range(2)]
    for b in states.bonds_of(nx, ny):
        if case["kind"] == "ising":
            terms[b] = [[(Z, Z)]]
        else:
            terms[b] = []
            for _ in range(2):
                a1, b1, a2, b2 = (states.hermitian(rng, d, cplx) for _ in range(4))
                terms[b].append([(a1, b1), (a2, b2)])
        bond_ops[b] = [sum(np.kron(x, y) for x, y in t) for t in terms[b]]

    def probe():
        vs, vb = api.expectations(ip, site_ops, bond_ops)
        return np.concatenate([vs[s] for s in site_ops] + [vb[b] for b in bond_ops])
    got, res, calls = api.converge(ip, probe, 1e-5 if single else 1e-11, 6)
    r.count("renormalize_calls", calls)
    if case["kind"] == "ising":
        want = np.concatenate([np.array([0.0, np.nan]) for s in site_ops] + [np.array([oracle.zz[b[2]]]) for b in bond_ops])
        tol = 1e-6
    elif oracle is None:
        refs = []
        for W in (5, 6):
            o = states.PatchOracle(A, nx, ny, W)
            refs.append(np.array([o.site(s, O) for s in site_ops for O in site_ops[s]] +
                                 [o.bond(b, t) for b in bond_ops for t in terms[b]]))
        err = float(np.max(np.abs(refs[0] - refs[1])))
        want = refs[1]
        tol = max(1e-6, 8 * err)
        note += f" patch-error {err:.1e}"
        if tol > 1e-3:
            r.count("skipped_patch_not_converged")
            return r
    else:
        want = np.array([oracle.site(s, O) for s in site_ops for O in site_ops[s]] +
                        [oracle.bond(b, t) for b in bond_ops for t in terms[b]])
        tol = 2e-3 if single else 1e-6
    mask = ~np.isnan(want)
    r.count("site_values", 2 * len(site_ops))
    r.count("bond_values", int(mask.sum()) - 2 * len(site_ops) if case["kind"] != "ising" else len(bond_ops))
    r.count(f"family_{case['kind']}")
    ctx = dict(note=note, residual=res)
    ok = r.close(got[mask], want[mask], tol, f"expectation-{case['kind']}", "measured values differ from the exact ones", **ctx)
    r.nontrivial = int(mask.sum()) >= 6
    r.fingerprint = f"{case['kind']}{nx}{ny}{D}{d}{dt}{case['projectors']}{case['svd_type']}{case['seed']}"
    r.sample = {"note": note, "values": [float(v) for v in got[mask][:4]], "exact": [float(v) for v in want[mask][:4]],
                "compared": int(mask.sum()), "ctm_residual": res}
    return r
