"""C23: the unit cell tiles the square lattice."""
import os
import shutil
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result, exception_origin
from vlib.checks.c10 import expm, unit
from vlib.checks.c15 import scratch

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = ("trace monitor on the calls the model receives while constructing, evolving and measuring, checked against the periodic lattice; leg and correlation monitors on states "
             "evolved by single matchings of bonds, so that a bond joining other legs or sites, visited twice or not at all, shows in tensors and density matrices")
LEVEL_NOTE = "Held on the executed cells (all shapes up to 6 x 6 structurally, up to 4 x 4 and 6 x 2 physically); cells one site wide are measured, not evolved."
RULE = ("Structure: every shape up to 6 x 6 with copies, conversions and files. Calls: probe models on cells with both updates, random histories. Physical: bonds of the cell divided into "
        "matchings, every one evolved exactly from a random product state. Non-trivial when bonds were visited; distinct by seed.")
ASSUMPTIONS = ["evolution needs cells of at least 2 x 2"]
MIN_NONTRIVIAL = 50
REQUIRED_EVENTS = ("cells", "bonds_checked", "calls_recorded", "rejected", "histories", "matchings", "legs_checked", "updates_full", "updates_simple", "one_wide", "odd", "loaded", "copied")
BUDGET = {"quick": 200, "thorough": 1500}
CASE_TIMEOUT = 240


def cases(rng, tier):
    quick = tier == "quick"
    out = [{"kind": "structure", "cell": [x, y], "seed": int(rng.integers(2 ** 31))} for x in range(1, 7) for y in range(1, 7)]
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (5, 2), (2, 5), (4, 3), (3, 4)]
    for i in range(30 if quick else 300):
        out.append({"kind": "calls", "cell": list(shapes[i % len(shapes)]), "update": ["full", "simple"][(i // len(shapes)) % 2], "seed": int(rng.integers(2 ** 31))})
    shapes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 3), (3, 4), (5, 2), (2, 5), (6, 2), (4, 4)]
    for i in range(24 if quick else 260):
        out.append({"kind": "matchings", "cell": list(shapes[i % len(shapes)]), "update": ["full", "simple"][(i // len(shapes)) % 2], "dtype": ["float64", "complex128"][int(rng.integers(2))],
                    "seed": int(rng.integers(2 ** 31))})
    return out


def lattice(tn, nx, ny, r, when):
    """sites and bonds of a network against those of the torus"""
    from acetn.model.model import Model
    want = states.sites_of(nx, ny)
    got = [tuple(int(c) for c in s) for s in tn.site_list]
    r.check(sorted(got) == want, "sites", f"sites {sorted(got)[:9]} on {nx}x{ny} ({when})")
    bonds = [api.key3(b) for b in tn.bond_list]
    bonds = [(tuple(int(c) for c in a), tuple(int(c) for c in b), k) for a, b, k in bonds]
    wb = states.bonds_of(nx, ny)
    r.check(len(bonds) == len(wb) and sorted(bonds) == sorted(wb), "bonds",
            f"{len(bonds)} bonds on {nx}x{ny}; missing {sorted(set(wb) - set(bonds))[:3]}, unexpected {sorted(set(bonds) - set(wb))[:3]} ({when})")
    for b in tn.bond_list:
        s1, s2, k = b
        r.check(Model.bond_direction(b) == {1: "+y", 2: "+x"}.get(int(k)), "label", f"bond {b} is called {Model.bond_direction(b)} ({when})")
        r.check(tuple(b.s1) == tuple(s1) and tuple(b.s2) == tuple(s2) and b.k == k, "label", f"fields of {b} differ from its parts ({when})")
        r.count("bonds_checked")
    for s in want:
        try:
            tn[s]["A"]
        except Exception as e:
            r.violate("sites", f"no tensor at {s} of {nx}x{ny}: {type(e).__name__} ({when})")
    for s in ((nx, 0), (0, ny), (-1, 0), (0, -1), (nx - 1, ny), (nx, ny - 1), (nx + 3, ny + 5)):
        try:
            tn[s]["A"]
            r.violate("outside", f"coordinate {s} of a {nx}x{ny} cell has a tensor ({when})")
        except Exception as e:
            r.check(exception_origin(e) is not None, "outside", "")
            r.count("rejected")


def structure(case, r):
    nx, ny = case["cell"]
    ip = api.new(api.config(nx, ny, 2, 4, 2, "float64", 1))
    lattice(ip, nx, ny, r, "construction")
    tensors = {s: ip[s]["A"] for s in ip.site_list}
    # every coordinate has a tensor of its own
    owners = {id(ip[s]) for s in ip.site_list} if nx * ny > 1 else {0}
    r.check(len(owners) == nx * ny, "sites", f"{len(owners)} tensors for {nx * ny} sites of {nx}x{ny}")
    for i, s in enumerate(ip.site_list):
        ip[s]["A"] = torch.full_like(tensors[s], i + 1.0)
    r.check(all(bool((ip[s]["A"] == i + 1.0).all()) for i, s in enumerate(ip.site_list)), "sites", f"sites of {nx}x{ny} share a tensor")
    lattice(ip.copy(), nx, ny, r, "copy")
    lattice(ip.to(dtype=torch.complex128), nx, ny, r, "to")
    lattice(api.new(api.config(nx, ny, 2, 4, 2, "float64", 1), ipeps=ip), nx, ny, r, "Ipeps(ipeps=)")
    r.count("copied")
    folder = scratch()
    try:
        f = os.path.join(folder, "x.pt")
        ip.save(f)
        other = api.new(api.config(nx, ny, 2, 4, 2, "float64", 1))
        other.load(f)
        lattice(other, nx, ny, r, "load")
        r.check(all(bool((other[s]["A"] == ip[s]["A"]).all()) for s in ip.site_list), "sites", f"loading exchanged sites of {nx}x{ny}")
        r.count("loaded")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    r.count("cells")
    r.count("one_wide", min(nx, ny) == 1)
    r.count("odd", nx % 2 or ny % 2)
    r.nontrivial = True
    r.fingerprint = f"structure {nx} {ny}"
    r.sample = {"cell": [nx, ny], "bonds": 2 * nx * ny}


def asked(log, nx, ny, questions, r, when):
    """the questions a model received are about exactly the sites and bonds of the cell"""
    sites, bonds = set(states.sites_of(nx, ny)), set(states.bonds_of(nx, ny))
    for q in questions:
        got = {k for what, k in log if what == q}
        want = bonds if q.startswith("two") else sites
        r.check(got == want, q, f"{q} asked of {len(got)} of {len(want)} on {nx}x{ny}; missing {sorted(want - got)[:3]}, unexpected {sorted(got - want)[:3]} ({when})")
    for what, k in log:
        if what.startswith("two"):
            r.check(k in bonds, "unknown bond", f"{what}({k}) on {nx}x{ny} ({when})")
        else:
            r.check(k in sites, "unknown site", f"{what}({k}) on {nx}x{ny} ({when})")
    r.count("calls_recorded", len(log))


def calls(case, r):
    nx, ny = case["cell"]
    rng = np.random.default_rng(case["seed"])
    wide = min(nx, ny) > 1
    ip = api.new(api.config(nx, ny, 2, 4, 2, "float64", 1, evolution={"update_type": case["update"]}))
    X = np.array([[0, 1], [1, 0.]])
    hs = {s: states.hermitian(rng, 2, False) for s in states.sites_of(nx, ny)}
    hb = {b: states.hermitian(rng, 4, False) for b in states.bonds_of(nx, ny)}
    trail = []
    for step in range(4):
        k = str(rng.choice(["evolve", "evolve", "measure", "copy"])) if wide and step else ("evolve" if wide else "measure")
        trail.append(k)
        when = f"{case['update']} {' > '.join(trail)}"
        log = []
        fresh = wide and step == 0
        model = api.probe_model(ip, {"x": lambda s: X}, {"xx": lambda b: np.kron(X, X)}, lambda s: hs[tuple(s)], lambda b: hb[api.key3(b)], log=log,
                                initial=lambda s: [1.0, 0.1 * (1 + s[0] + nx * s[1])])
        if k == "evolve":
            n = int(rng.integers(0, 4)) if not fresh else 1
            ip.evolve(0.02, n, model=model)
            trail[-1] += f" {n}"
            asked(log, nx, ny, ("two_site_hamiltonian", "one_site_hamiltonian") + (("initial_site_state",) if fresh else ()), r, when)
        elif k == "measure":
            m = ip.measure(model=model)
            asked(log, nx, ny, ("two_site_hamiltonian", "one_site_hamiltonian", "one_site_observables", "two_site_observables"), r, when)
            r.check(set(m) == {"Energy", "x", "xx"}, "measured", f"measure() returned {sorted(m)} ({when})")
        else:
            other = ip.copy()
            lattice(other, nx, ny, r, when + " in the copy")
            lattice(api.new(api.config(nx, ny, 2, 4, 2, "float64", 1), ipeps=ip), nx, ny, r, when + " in Ipeps(ipeps=)")
        lattice(ip, nx, ny, r, when)
    r.count("histories")
    r.count("updates_" + case["update"])
    r.count("one_wide", not wide)
    r.nontrivial = True
    r.fingerprint = f"calls {case['seed']}"
    r.sample = {"cell": [nx, ny], "history": trail}


def matchings_of(nx, ny, rng):
    """all bonds of the cell, divided into sets of disjoint bonds"""
    todo = [b for b in states.bonds_of(nx, ny) if b[0] != b[1]]
    todo = [todo[i] for i in rng.permutation(len(todo))]
    while todo:
        used, part, rest = set(), [], []
        for b in todo:
            (rest if used & {b[0], b[1]} else part).append(b)
            if part and part[-1] is b:
                used |= {b[0], b[1]}
        yield part
        todo = rest


def leg_ranks(a):
    """second over first singular value of a site tensor seen along each of its legs"""
    out = []
    for leg in range(4):
        s = np.linalg.svd(np.moveaxis(a, leg, 0).reshape(a.shape[leg], -1), compute_uv=False)
        out.append(s[1] / s[0])
    return out


def matchings(case, r):
    nx, ny = case["cell"]
    rng = np.random.default_rng(case["seed"])
    cplx = api.is_complex(case["dtype"])
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    upd = case["update"]
    seen = 0
    for part in matchings_of(nx, ny, rng):
        n, dtau = int(rng.integers(1, 4)), float(rng.uniform(0.05, 0.2))
        ip = api.new(api.config(nx, ny, 2, 6, 2, case["dtype"], 4, evolution={"update_type": upd}))
        psi = {s: unit(states.randn(rng, 2, cplx)) for s in sites}
        A = {}
        for s in sites:
            A[s] = np.zeros((2,) * 4 + (2,), complex if cplx else float)
            A[s][0, 0, 0, 0] = psi[s]
        # entries of any size: LAPACK breaks down on the denormal numbers that exact zeros turn into
        api.set_state(ip, states.normalized(states.apply_gauges(A, nx, ny, rng, cplx, 0.3)))
        H = {b: 1.5 * states.hermitian(rng, 4, cplx) for b in part}
        covered = {s for b in part for s in b[:2]}
        h = {s: states.hermitian(rng, 2, cplx) for s in sites if s not in covered}
        log = []
        ip.evolve(dtau, n, model=api.probe_model(ip, None, None, lambda s: h.get(tuple(s)), lambda b: H.get(api.key3(b), np.zeros((4, 4))), log=log))
        asked(log, nx, ny, ("two_site_hamiltonian", "one_site_hamiltonian"), r, upd)
        tag = f"{upd}, {n} steps of {dtau:.2f} on {nx}x{ny}"
        # tensors: the legs named by the bonds carry entanglement, no other leg does
        entangled = set()
        S, B = {}, {}
        for b in part:
            s1, s2, k = b
            f = unit(expm(H[b], n * dtau) @ np.kron(psi[s1], psi[s2]))
            B[b] = np.outer(f, f.conj())
            S[s1], S[s2] = api.marginals(B[b], 2)
            if np.linalg.svd(f.reshape(2, 2), compute_uv=False)[1] > 1e-2:
                entangled |= {(s1, int(k)), (s2, (int(k) + 2) % 4)}
        for s in h:
            f = unit(expm(h[s], n * dtau) @ psi[s])
            S[s] = np.outer(f, f.conj())
        named = {(s1, int(k)) for s1, s2, k in part} | {(s2, (int(k) + 2) % 4) for s1, s2, k in part}
        state = api.get_state(ip)
        for s in sites:
            for leg, x in enumerate(leg_ranks(state[s])):
                if (s, leg) in entangled:
                    r.check(x > 1e-4, "legs", f"leg {leg} of {s} carries no entanglement (ratio {x:.1e}) although its bond does, {tag}")
                elif (s, leg) not in named:
                    r.check(x < 1e-4, "legs", f"leg {leg} of {s} carries entanglement (ratio {x:.1e}) although no term acts on it, {tag}")
                r.count("legs_checked")
        # and the density matrices
        gs, gb = api.tomography(ip)
        for s in sites:
            r.close(gs[s], S[s], 1e-6, "site state", f"site {s}, {tag}")
        for b in bonds:
            r.close(gb[b], B[b] if b in B else np.kron(S[b[0]], S[b[1]]), 1e-6, "bond state", f"bond {b} (one of {sorted(part)[:4]}...: {b in B}), {tag}")
        lattice(ip, nx, ny, r, tag)
        seen += len(part)
        r.count("matchings")
    r.check(seen == 2 * nx * ny, "harness", f"{seen} of {2 * nx * ny} bonds visited")
    r.count("updates_" + upd)
    r.nontrivial = True
    r.fingerprint = f"matchings {case['seed']}"
    r.sample = {"cell": [nx, ny], "update": upd, "bonds evolved one matching at a time": seen}


def run_case(case):
    r = Result()
    {"structure": structure, "calls": calls, "matchings": matchings}[case["kind"]](case, r)
    return r
