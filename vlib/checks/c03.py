"""C03: local density matrices are physical and mutually consistent."""
import numpy as np
from vlib import api, states
from vlib.core import Result

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: tomography of every site and bond, positivity and marginal consistency"
LEVEL_NOTE = ("Held on the executed states. The density matrices are reconstructed from measure() itself; consistency is judged "
              "between sites and bonds, so no outside reference is needed; the tolerance follows the residual of the environment.")
RULE = ("Random generic and cluster states on random cells with random CTMRG settings are renormalized and all site and bond "
        "density matrices reconstructed; non-trivial when the state is entangled; distinct by settings and seed.")
ASSUMPTIONS = ["a short correlation length, so that the environment converges to the tolerance"]
MIN_NONTRIVIAL = 12
REQUIRED_EVENTS = ("site_matrices", "bond_matrices", "marginals")
BUDGET = {"quick": 200, "thorough": 900}
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1)]


def cases(rng, tier):
    out = []
    for i in range(90 if tier == "quick" else 600):
        out.append({"kind": ["weak", "medium", "cluster"][i % 3], "cell": list(states.cell(rng, CELLS)),
                    "d": int(rng.choice([2, 2, 2, 3])), "D": int(rng.choice([2, 2, 3])), "dtype": ["float64", "complex128"][i % 2],
                    "projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"])),
                    "seed": int(rng.integers(2 ** 31))})
        if i % 10 == 9:
            out[-1]["dtype"] = str(rng.choice(["float32", "complex64"]))
    return out


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    d, D, cplx = case["d"], case["D"], api.is_complex(case["dtype"])
    single = api.eps_of(case["dtype"]) > 1e-10
    if case["kind"] == "medium":
        D = 2
    if D == 3 or nx * ny > 6:
        d = 2
    if case["kind"] == "cluster":
        A = states.ClusterState(rng, nx, ny, D, d, cplx, max_size=4 if D == 2 else 2).A
    else:
        A, ratio = states.short_state(rng, nx, ny, D, d, cplx, *((0.25, 0.2) if case["kind"] == "weak" else (0.42, 0.33)))
    A = states.apply_gauges(A, nx, ny, rng, cplx, 0.3)
    chi = {"medium": 28}.get(case["kind"], 20 if D == 2 else 24)
    if case["projectors"] == "full-system":
        chi = 16      # beyond that the weights of the squared spectrum are at the level of rounding errors
    ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], 10, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]}))
    api.set_state(ip, states.normalized(A))

    def probe():
        s, b = api.tomography(ip)
        return np.concatenate([x.ravel() for x in list(s.values()) + list(b.values())])
    _, res, calls = api.converge(ip, probe, 1e-4 if single else 1e-9, 5)
    rs, rb = api.tomography(ip)
    tol = (3e-3 if single else {"cluster": 1e-7, "weak": 1e-6, "medium": 2e-5}[case["kind"]])
    ctx = dict(residual=res)
    from acetn.measurement.rdm import RDM
    rdm = RDM(ip)
    for s, rho in rs.items():
        r.close(np.trace(rho), 1.0, 1e-5 if single else 1e-10, "trace", f"identity at site {s}")
        r.check(np.linalg.eigvalsh(rho)[0] > -tol, "positive-site", f"negative density matrix at {s}", eig=np.linalg.eigvalsh(rho), **ctx)
        raw = api.npy(rdm[s]).astype(complex)
        raw = raw / np.trace(raw)
        r.close(raw, raw.conj().T, tol, "hermitian-site", f"density matrix of site {s} is not Hermitian", **ctx)
        r.count("site_matrices")
    for bond in ip.bond_list:
        b = api.key3(bond)
        rho = rb[b]
        r.close(np.trace(rho), 1.0, 1e-5 if single else 1e-10, "trace", f"identity on bond {b}")
        ev = np.linalg.eigvalsh(rho)
        r.check(ev[0] > -tol, "positive-bond", f"negative density matrix on {b}", eig=ev, **ctx)
        raw = api.npy(rdm[bond]).astype(complex).reshape(d * d, d * d)
        raw = raw / np.trace(raw)
        r.close(raw, raw.conj().T, tol, "hermitian-bond", f"density matrix of bond {b} is not Hermitian", **ctx)
        m1, m2 = api.marginals(rho, d)
        r.close(m1, rs[b[0]], tol, "marginal", f"bond {b} disagrees with its first site", **ctx)
        r.close(m2, rs[b[1]], tol, "marginal", f"bond {b} disagrees with its second site", **ctx)
        r.count("bond_matrices")
        r.count("marginals", 2)
    purity = min(np.trace(x @ x).real for x in rs.values())
    r.nontrivial = purity < 1 - 1e-6
    r.fingerprint = f"{case}"
    r.sample = {"cell": [nx, ny], "lowest_site_purity": purity, "smallest_bond_eigenvalue": float(min(np.linalg.eigvalsh(x)[0] for x in rb.values())), "residual": res}
    return r
