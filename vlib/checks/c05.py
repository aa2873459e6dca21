"""C05: environment tensors stay well formed and chi is respected."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: structural invariants of all tensors checked after every operation of random histories"
LEVEL_NOTE = ("Held on the executed operation sequences. Every invariant is evaluated on the real tensors after every operation; "
              "site tensors are compared bitwise.")
RULE = ("Random histories of renormalize / evolve / set_chi / measure on random (also strongly entangled) states and cells; "
        "non-trivial when at least three operations ran; distinct by history, settings and seed.")
ASSUMPTIONS = ["closed chain of corners and edges around a site: C0 E0 C1 E1 C2 E2 C3 E3, the order used by all contractions"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("op_renormalize", "op_set_chi", "op_measure", "op_evolve", "chi_saturated", "tensors_checked")
BUDGET = {"quick": 200, "thorough": 1200}
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 3), (3, 1), (4, 1)]


def cases(rng, tier):
    out = []
    for i in range(144 if tier == "quick" else 800):
        cell = states.cell(rng, CELLS)
        kind = ["histories", "evolving", "entangled"][i % 3]
        if kind == "evolving":
            cell = [(2, 2), (2, 2), (3, 2), (2, 3)][int(rng.integers(4))]
        out.append({"kind": kind, "cell": list(cell), "D": int(rng.choice([1, 2, 2, 2, 3])) if kind != "entangled" else 2,
                    "d": int(rng.choice([2, 2, 3])),
                    "dtype": str(rng.choice(["float64", "complex128", "float32", "complex64"], p=[.35, .35, .15, .15])),
                    "projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"])),
                    "update": str(rng.choice(["full", "simple"])), "seed": int(rng.integers(2 ** 31))})
        if kind == "entangled":
            out[-1]["dtype"] = str(rng.choice(["float64", "complex128"]))
            out[-1]["projectors"] = "half-system"
    return out


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    D, d, cplx, kind = case["D"], case["d"], api.is_complex(case["dtype"]), case["kind"]
    chi = int(rng.integers(2, 9)) if kind != "entangled" else int(rng.integers(5, 14))
    ip = api.new(api.config(nx, ny, D, chi, d, case["dtype"], int(rng.integers(1, 5)),
                            ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]},
                            evolution={"update_type": case["update"], "als_niter": 20}))
    if kind == "entangled":
        # all entries of the double layer comparable: the boundary needs every state it can get
        A = {s: states.randn(rng, (D,) * 4 + (d,), cplx) + 0.5 for s in states.sites_of(nx, ny)}
    else:
        A = states.weak_state(rng, nx, ny, D, d, cplx, eps=float(rng.uniform(0.2, 0.6)))
    api.set_state(ip, A)
    H1 = {s: states.hermitian(rng, d, cplx) for s in states.sites_of(nx, ny)}
    H2 = {b: states.hermitian(rng, d * d, cplx) for b in states.bonds_of(nx, ny)}
    model = api.probe_model(ip, {"o": lambda s: H1[tuple(s)]}, {}, lambda s: H1[tuple(s)], lambda b: H2[api.key3(b)])
    ops = ["renormalize", "set_chi", "measure"] + (["evolve"] if kind == "evolving" else [])
    current, effective, history = chi, None, []

    def invariants(tag):
        for s in ip.site_list:
            a, C, E = ip[s]["A"], ip[s]["C"], ip[s]["E"]
            r.check(tuple(a.shape) == (D,) * 4 + (d,), "site-shape", f"{tag}: site tensor {s} has shape {tuple(a.shape)}")
            r.check(len(C) == 4 and len(E) == 4, "count", f"{tag}: {len(C)} corners and {len(E)} edges at {s}")
            for name, ts in (("A", [a]), ("C", C), ("E", E)):
                for i, t in enumerate(ts):
                    r.check(t.dtype == getattr(torch, case["dtype"]), "dtype", f"{tag}: {name}{i} of {s} is {t.dtype}")
                    n = float(torch.linalg.vector_norm(t.to(torch.complex128)))
                    r.check(np.isfinite(n) and (name == "A" or 1e-4 < n < 1e4), "norm", f"{tag}: {name}{i} of {s} has norm {n}")
                    r.count("tensors_checked")
            for k in range(4):
                r.check(C[k].ndim == 2 and E[k].ndim == 4 and tuple(E[k].shape[2:]) == (D, D), "ranks", f"{tag}: shapes at {s}: {tuple(C[k].shape)}, {tuple(E[k].shape)}")
                r.check(E[k].shape[0] == C[k].shape[1] and E[k].shape[1] == C[(k + 1) % 4].shape[0], "fit",
                        f"{tag}: corner {k} {tuple(C[k].shape)}, edge {tuple(E[k].shape)}, corner {(k + 1) % 4} {tuple(C[(k + 1) % 4].shape)} of {s} do not fit together")
                if effective is not None:
                    m = max(C[k].shape + E[k].shape[:2])
                    r.check(m <= effective, "chi-exceeded", f"{tag}: boundary dimension {m} exceeds chi={effective} at {s}")
    invariants("initial")
    for step in range(6):
        op = ops[int(rng.integers(len(ops)))] if step else "renormalize"
        before = {s: ip[s]["A"].clone() for s in ip.site_list}
        if op == "set_chi":
            current = int(rng.integers(2, 12)) if kind != "entangled" else int(rng.integers(4, 16))
            ip.set_chi(current)
        elif op == "renormalize":
            ip.renormalize()
            effective = current
        elif op == "measure":
            if effective is None:
                continue
            m = ip.measure(model=model)
            r.check(all(np.isfinite(float(v)) for v in m.values()), "finite-result", f"measure() returned {m}")
        elif op == "evolve":
            ip.evolve(float(rng.choice([0.01, 0.1, 0.0])), int(rng.integers(1, 4)), model=model)
            effective = current
        history.append(op if op != "set_chi" else f"set_chi({current})")
        r.count("op_" + op)
        invariants(f"{history}")
        if op != "evolve":
            r.check(all(torch.equal(before[s], ip[s]["A"]) for s in ip.site_list), "site-changed", f"{op} changed a site tensor")
        if len(r.violations) >= 10:
            break
    if kind == "entangled" and not r.violations:
        # chi up, then down: reached exactly and never exceeded
        for chi in (int(rng.integers(10, 17)), int(rng.integers(3, 8)), int(rng.integers(8, 17))):
            ip.set_chi(chi)
            ip.config.ctmrg.steps = 4
            ip.renormalize()
            effective = chi
            invariants(f"{history} then chi={chi}")
            dims = [x for s in ip.site_list for t in ip[s]["C"] for x in t.shape]
            r.check(max(dims) == chi and min(dims) == chi, "chi-not-used", f"chi={chi} but corners have dimensions {min(dims)}..{max(dims)}")
            r.count("chi_saturated")
    r.nontrivial = len(history) >= 3
    r.fingerprint = f"{case}"
    r.sample = {"history": history, "cell": [nx, ny], "D": D, "last_corner": list(ip[(0, 0)]["C"][0].shape)}
    return r
