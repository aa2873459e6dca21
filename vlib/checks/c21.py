"""C21: documented options and defaults are honoured."""
import copy
import io
import os
import sys
import numpy as np
import torch
from vlib import api, forked, ops, states
from vlib.core import Result

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = ("paired executions of the real code under configurations that should be equivalent (option omitted or given with its documented default, "
             "n sweeps or n times one sweep, unavailable device or CPU), compared bit by bit, and effect monitors for every documented option")
LEVEL_NOTE = ("Held on the executed configurations. A wrong default shows only if the paired runs reach the code that reads it, which the workload mixes aim at; "
              "'has its effect' is judged by consequences the documentation promises, not by the exact algorithm.")
RULE = ("Random configurations in which every documented option is given or omitted independently, sections empty or missing, run through renormalize, measure, evolve "
        "from generic, nearly product and initial states; one monitor per option over cells, dtypes and states; invalid values of the enumerated options; "
        "SLURM environments; non-trivial when the paired runs differ from a run with another value, or the effect was observed; distinct by configuration.")
ASSUMPTIONS = ["defaults as printed in docs/source/input_settings.rst at the pinned commit", "no CUDA device and no compiled extension in the sandbox (fallback cases are skipped otherwise)"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("omitted_options", "paired_runs", "effect_steps", "effect_projectors", "effect_svd_type", "effect_svd_cutoff", "effect_rsvd", "effect_update_type",
                   "effect_gauge_fix", "effect_positive", "effect_als", "effect_bars", "effect_dims", "fallbacks", "invalid_values", "minimal_configs")
BUDGET = {"quick": 250, "thorough": 1800}
CASE_TIMEOUT = 200

DEFAULTS = {
    ("dtype",): "float64", ("device",): "cpu",
    ("TN", "nx"): 2, ("TN", "ny"): 2, ("TN", "dims", "phys"): 2, ("TN", "dims", "bond"): 2, ("TN", "dims", "chi"): 20,
    ("ctmrg", "steps"): 40, ("ctmrg", "projectors"): "half-system", ("ctmrg", "svd_type"): "rsvd", ("ctmrg", "svd_cutoff"): 1e-12,
    ("ctmrg", "rsvd_niter"): 2, ("ctmrg", "rsvd_oversampling"): 2, ("ctmrg", "disable_progressbar"): False,
    ("evolution", "backend"): "torch", ("evolution", "update_type"): "full", ("evolution", "use_gauge_fix"): True, ("evolution", "gauge_fix_atol"): 1e-12,
    ("evolution", "positive_approx_cutoff"): 1e-12, ("evolution", "als_niter"): 100, ("evolution", "als_tol"): 1e-15, ("evolution", "als_method"): "cholesky",
    ("evolution", "als_epsilon"): 1e-12, ("evolution", "disable_progressbar"): False,
    ("model", "params", "J"): 1.0,
}


def other(rng, key, cheap):
    """a value that differs from the default"""
    k = key[-1]
    if k == "nx" or k == "ny":
        return int(rng.choice([2, 3], p=[.6, .4]))
    return {
        "dtype": lambda: str(rng.choice(["float64", "complex128", "float32"], p=[.4, .4, .2])), "device": lambda: "cpu", "phys": lambda: 2,
        "bond": lambda: 2 if cheap else int(rng.choice([2, 3])), "chi": lambda: int(rng.integers(4, 9)), "steps": lambda: int(rng.integers(1, 4)),
        "projectors": lambda: "full-system", "svd_type": lambda: "full-rank", "svd_cutoff": lambda: float(10.0 ** rng.uniform(-10, -2)),
        "rsvd_niter": lambda: int(rng.integers(0, 4)), "rsvd_oversampling": lambda: int(rng.integers(0, 6)), "disable_progressbar": lambda: True, "backend": lambda: "torch",
        "update_type": lambda: "simple", "use_gauge_fix": lambda: False, "gauge_fix_atol": lambda: float(10.0 ** rng.uniform(-13, -8)),
        "positive_approx_cutoff": lambda: float(10.0 ** rng.uniform(-13, -8)), "als_niter": lambda: int(rng.integers(1, 30)), "als_tol": lambda: float(10.0 ** rng.uniform(-14, -3)),
        "als_method": lambda: "pinv", "als_epsilon": lambda: float(10.0 ** rng.uniform(-13, -6)), "J": lambda: float(rng.uniform(0.3, 2)),
    }[k]()


EFFECTS = ["steps", "projectors", "svd_type", "svd_cutoff", "rsvd", "update_type", "gauge_fix", "positive", "als", "bars", "dims", "fallback", "invalid"]


def cases(rng, tier):
    big = 1 if tier == "quick" else 10
    out = []
    for i in range(108 * big):
        cheap = i % 6 != 0
        given = {}
        drop = float(rng.uniform(0.1, 0.9))
        for key in DEFAULTS:
            # the expensive defaults are used by every sixth case only
            need = cheap and key[-1] in ("steps", "chi")
            if need or rng.uniform() > drop:
                given["/".join(key)] = other(rng, key, not cheap or given.get("TN/dims/chi") is None)
        if not cheap and rng.uniform() < 0.5:
            given["evolution/update_type"] = "simple"
        out.append({"kind": "omitted", "given": given, "state": str(rng.choice(["generic", "graded", "initial"])), "empty": bool(rng.integers(2)), "evolve": int(rng.integers(1, 3)), "seed": int(rng.integers(2 ** 31))})
    for i in range(8 * big):
        for e in EFFECTS:
            out.append({"kind": e, "dtype": str(rng.choice(["float64", "complex128"])), "cell": [[2, 2], [3, 2], [2, 3]][int(rng.integers(3))], "seed": int(rng.integers(2 ** 31))})
    out.append({"kind": "minimal", "seed": int(rng.integers(2 ** 31))})
    return out


def nested(flat, empty):
    c = {"TN": {}}
    if empty:
        c.update({"ctmrg": {}, "evolution": {}})
    c["model"] = {"name": "heisenberg"}
    for key, v in flat.items():
        parts = key.split("/") if isinstance(key, str) else key
        d = c
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = v
    return c


def quiet(fn, *args):
    """result and what was written to stderr"""
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        return fn(*args), sys.stderr.getvalue()
    finally:
        sys.stderr = old


def make_state(rng, kind, nx, ny, D, d, cplx):
    if kind == "generic":
        A, _ = states.short_state(rng, nx, ny, D, d, cplx, 0.3)
        return states.normalized(A)
    # bond indices beyond the first are suppressed more and more
    A = {}
    for x in range(nx):
        for y in range(ny):
            t = rng.standard_normal((D,) * 4 + (d,)) + (1j * rng.standard_normal((D,) * 4 + (d,)) if cplx else 0)
            w = 10.0 ** (-1.2 * np.arange(D))
            A[(x, y)] = np.einsum("lurdp,l,u,r,d->lurdp", t, w, w, w, w)
    return states.normalized(A)


def observe(ip):
    m = ip.measure()
    vals = {k: np.asarray(float(v)) for k, v in m.items()}
    return vals


def flat(ip):
    s = ops.snapshot(ip)
    out = {}
    for site, t in s["tensors"].items():
        out[f"A{site}"] = t["A"]
        for k in "CE":
            for i, x in enumerate(t[k]):
                out[f"{k}{i}{site}"] = x
    out["bonds"] = np.array([list(a) + list(b) + [k] for a, b, k in s["bonds"]])
    return out


def trajectory(cfg, A, seed, steps):
    """everything observable along a run; the error of a run that fails is an observation as well"""
    torch.manual_seed(seed)
    log = {}
    try:
        ip, bar = quiet(api.new, copy.deepcopy(cfg))
        log["dims"] = np.array([ip.nx, ip.ny] + [ip.dims[k] for k in ("phys", "bond", "chi")])
        log["kind"] = np.array([str(ip.dtype), str(ip.device)])
        for key in DEFAULTS:
            sec = getattr(getattr(ip, "config", None), key[0], None)
            if len(key) == 2 and sec is not None and hasattr(sec, key[1]):
                log["config " + "/".join(key)] = np.array(getattr(sec, key[1]))
        if A is not None:
            api.set_state(ip, A)
        _, bar = quiet(ip.renormalize)
        log["bar of renormalize"] = np.array(bool(bar.strip()))
        log.update({f"renormalized {k}": v for k, v in flat(ip).items()})
        log.update({f"measured {k}": v for k, v in observe(ip).items()})
        _, bar = quiet(ip.evolve, 0.05, steps)
        log["bar of evolve"] = np.array("Updating" in bar)
        log.update({f"evolved {k}": v for k, v in flat(ip).items()})
        log.update({f"measured later {k}": v for k, v in observe(ip).items()})
    except Exception as e:
        from vlib.core import exception_origin
        if exception_origin(e) != "code":
            raise
        log["error"] = np.array(type(e).__name__)
    return log


def alike(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return ops.same(x, y) if x.dtype.kind in "fc" else x.shape == y.shape and bool(np.all(x == y))


def unequal(a, b):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not alike(a[k], b[k])]


def omitted(case, r):
    rng = np.random.default_rng(case["seed"])
    given = case["given"]
    full = {**{"/".join(k): v for k, v in DEFAULTS.items()}, **given}
    left_out = [k for k in full if k not in given]
    A = None
    if case["state"] != "initial":
        A = make_state(rng, case["state"], full["TN/nx"], full["TN/ny"], full["TN/dims/bond"], 2, full["dtype"].startswith("complex"))
    one = trajectory(nested(given, case["empty"]), A, case["seed"], case["evolve"])
    two = trajectory(nested(full, True), A, case["seed"], case["evolve"])
    bad = unequal(one, two)
    r.check(not bad, "defaults", f"a run without {left_out} differs from one with the documented defaults in {bad[:4]} (given: {given}; errors {one.get('error')}, {two.get('error')})")
    r.count("omitted_options", len(left_out))
    r.count("paired_runs")
    r.nontrivial = len(one) > 20 and "error" not in one
    r.fingerprint = str(sorted(given.items())) + case["state"]
    r.sample = {"omitted": left_out, "given": given, "state": case["state"], "compared": len(one)}


def basic(case, rng, ctmrg=None, evolution=None, D=2, chi=6, dtype=None, steps=2, model=None):
    nx, ny = case["cell"]
    return api.config(nx, ny, D, chi, 2, dtype or case["dtype"], steps, ctmrg=ctmrg, evolution=evolution, model=model or {"name": "heisenberg", "params": {"J": 1.0}})


def energies(ip):
    """measured values that do not depend on gauges: single sites and bonds"""
    d = 2
    X, Z = np.array([[0, 1], [1, 0.]]), np.diag([1., -1])
    vs, vb = api.expectations(ip, {tuple(s): [X, Z] for s in ip.site_list}, {api.key3(b): [np.kron(Z, Z), np.kron(X, X)] for b in ip.bond_list})
    return np.concatenate([vs[k] for k in sorted(vs)] + [vb[k] for k in sorted(vb)])


def start(cfg, A, seed=0):
    torch.manual_seed(seed)
    ip, _ = quiet(api.new, copy.deepcopy(cfg))
    if A is not None:
        api.set_state(ip, A)
    return ip


def go(cfg, A, call, seed=0):
    ip = start(cfg, A, seed)
    torch.manual_seed(seed)
    quiet(call, ip)
    return ip


def renorm(ip):
    ip.renormalize()


def evolve(ip):
    ip.evolve(0.05, 1)


def sites(ip):
    return np.concatenate([api.npy(ip[s]["A"]).ravel() for s in ip.site_list])


def env_values(ip):
    """size of the environment tensors, whatever their signs"""
    return np.concatenate([np.abs(api.npy(t)).ravel() for s in ip.site_list for k in "CE" for t in ip[s][k]])


def env_dims(ip):
    return np.array([n for s in ip.site_list for c in ip[s]["C"] for n in c.shape])


def effect(case, r):
    kind = case["kind"]
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    cplx = case["dtype"].startswith("complex")
    A = make_state(rng, "generic", nx, ny, 2, 2, cplx)
    tag = f"{case['dtype']} {nx}x{ny}"
    svd = {"svd_type": "full-rank"}
    seen = True
    if kind == "steps":
        n = int(rng.integers(2, 5))
        proj = str(rng.choice(["half-system", "full-system"]))
        c = {**svd, "projectors": proj}
        many = energies(go(basic(case, rng, ctmrg=c, steps=n), A, renorm))
        ones = energies(go(basic(case, rng, ctmrg=c, steps=1), A, lambda ip: [ip.renormalize() for _ in range(n)]))
        fewer = energies(go(basic(case, rng, ctmrg=c, steps=n - 1), A, renorm))
        r.close(many, ones, 1e-7, "steps", f"{n} sweeps in one or {n} calls, {tag}")
        ip = start(basic(case, rng, ctmrg=c, steps=0), A)
        before = ops.snapshot(ip)
        quiet(ip.renormalize)
        r.check(not ops.differences(before, ops.snapshot(ip)), "steps", f"renormalize with no sweeps changed the network, {tag}")
        seen = np.abs(many - fewer).max() > 1e-5
        r.count("effect_steps", seen)
    elif kind == "projectors":
        got = [energies(go(basic(case, rng, ctmrg={**svd, "projectors": p}, chi=3, steps=1), A, renorm)) for p in ("half-system", "full-system", "half-system")]
        r.check(np.abs(got[0] - got[1]).max() > 1e-10, "projectors", f"half- and full-system projectors give the same environment, {tag}")
        r.close(got[2], got[0], 1e-9, "projectors", f"repeated run with half-system projectors, {tag}")
        # the moves after every bond of an evolution use them, too
        got = [env_values(go(basic(case, rng, ctmrg={**svd, "projectors": p}, chi=3, steps=0), A, evolve)) for p in ("half-system", "full-system")]
        r.check(not np.allclose(*got, atol=1e-10, rtol=0), "projectors", f"half- and full-system projectors give the same evolution, {tag}")
        r.count("effect_projectors")
    elif kind == "svd_type":
        for proj in ("half-system", "full-system"):
            got = {(t, s): energies(go(basic(case, rng, ctmrg={"svd_type": t, "projectors": proj, "rsvd_niter": 0, "rsvd_oversampling": 0}, chi=3), A, renorm, s)) for t in ("rsvd", "full-rank") for s in (1, 2)}
            r.close(got["full-rank", 2], got["full-rank", 1], 1e-9, "svd_type", f"a full-rank SVD depends on the random seed ({proj}), {tag}")
            r.check(np.abs(got["rsvd", 2] - got["rsvd", 1]).max() > 1e-9, "svd_type", f"a randomized SVD without iterations does not depend on the seed ({proj}), {tag}")
            c = {t: [env_values(go(basic(case, rng, ctmrg={"svd_type": t, "projectors": proj, "rsvd_niter": 0, "rsvd_oversampling": 0}, chi=3, steps=0), A, evolve, s)) for s in (1, 2)] for t in ("rsvd", "full-rank")}
            r.close(c["full-rank"][0], c["full-rank"][1], 1e-9, "svd_type", f"an evolution with full-rank SVDs depends on the random seed ({proj}), {tag}")
            r.check(not np.allclose(*c["rsvd"], atol=1e-9, rtol=0), "svd_type", f"an evolution with randomized SVDs without iterations does not depend on the seed ({proj}), {tag}")
        r.count("effect_svd_type")
    elif kind == "svd_cutoff":
        for proj in ("half-system", "full-system"):
            for t in ("rsvd", "full-rank"):
                c = {"svd_type": t, "projectors": proj}
                none = env_dims(go(basic(case, rng, ctmrg={**c, "svd_cutoff": 0.0}, chi=6, steps=4), A, renorm))
                all_ = env_dims(go(basic(case, rng, ctmrg={**c, "svd_cutoff": 0.9999}, chi=6, steps=4), A, renorm))
                mid = float(10.0 ** rng.uniform(-3, -1))
                some = env_dims(go(basic(case, rng, ctmrg={**c, "svd_cutoff": mid}, chi=6, steps=4), A, renorm))
                r.check(none.max() == 6 and none.min() == 6, "svd_cutoff", f"environment dimensions {sorted(set(none.tolist()))} without a cutoff at chi=6 ({proj}, {t}), {tag}")
                r.check(all_.max() == 1, "svd_cutoff", f"environment dimensions {sorted(set(all_.tolist()))} with svd_cutoff=0.9999 ({proj}, {t}), {tag}")
                r.check(some.sum() <= none.sum() and some.sum() >= all_.sum(), "svd_cutoff", f"environment dimensions grow with svd_cutoff={mid} ({proj}, {t}), {tag}")
        r.count("effect_svd_cutoff")
    elif kind == "rsvd":
        proj = str(rng.choice(["half-system", "full-system"]))
        ref = energies(go(basic(case, rng, ctmrg={**svd, "projectors": proj}, chi=3, steps=1), A, renorm))

        def error(niter, over):
            c = {"svd_type": "rsvd", "projectors": proj, "rsvd_niter": niter, "rsvd_oversampling": over}
            return max(np.abs(energies(go(basic(case, rng, ctmrg=c, chi=3, steps=1), A, renorm, s)) - ref).max() for s in (1, 2, 3))
        low = error(0, 0)
        r.le(error(30, 0), max(low / 3, 1e-9), "rsvd_niter", f"error with 30 power iterations, {low:.1e} with none ({proj}), {tag}")
        r.le(error(0, 60), max(low / 3, 1e-9), "rsvd_oversampling", f"error with oversampling 60, {low:.1e} with none ({proj}), {tag}")
        seen = low > 1e-6
        r.count("effect_rsvd", seen)
    elif kind == "update_type":
        res = {}
        for u in ("simple", "full"):
            for g in (0, 1):
                ip = start(basic(case, rng, ctmrg=svd, evolution={"update_type": u}, steps=0), A)
                quiet_steps(ip, 3 * (1 - g))
                torch.manual_seed(1)
                quiet(evolve, ip)
                res[u, g] = sites(ip)
        r.close(res["simple", 1], res["simple", 0], 1e-10, "update_type", f"the simple update depends on the environment, {tag}")
        r.check(not np.allclose(res["full", 1], res["full", 0], atol=1e-7, rtol=0), "update_type", f"the full update does not depend on the environment, {tag}")
        r.check(not np.allclose(res["full", 0], res["simple", 0], atol=1e-7, rtol=0), "update_type", f"full and simple update give the same tensors, {tag}")
        r.count("effect_update_type")
    elif kind in ("gauge_fix", "positive", "als"):
        def run(**ev):
            ip = go(basic(case, rng, ctmrg=svd, evolution={"als_niter": 30, **ev}, steps=3), A, evolve)
            return ip, sites(ip)

        def differ(a, b):
            return not (a.shape == b.shape and np.array_equal(a, b))
        def extreme(**ev):
            # values no one would use may end in an error
            try:
                return run(**ev)[1]
            except Exception:
                return np.zeros(0)
        base, a0 = run()
        e0 = energies(base)
        if kind == "gauge_fix":
            off, a1 = run(use_gauge_fix=False)
            r.check(differ(a0, a1), "use_gauge_fix", f"use_gauge_fix=False changes nothing, {tag}")
            r.close(energies(off), e0, 1e-2, "use_gauge_fix", f"values with and without gauge fix, {tag}")
            got = [extreme(gauge_fix_atol=t) for t in (1e-3, 1e-2, 1e-1, 1.0)]
            r.check(any(differ(a0, g) for g in got), "gauge_fix_atol", f"gauge_fix_atol has no effect, {tag}")
            got = [run(use_gauge_fix=False, gauge_fix_atol=t)[1] for t in (1e-2, 1.0)]
            r.check(not any(differ(a1, g) for g in got), "gauge_fix_atol", f"gauge_fix_atol has an effect without gauge fix, {tag}")
            # both ends of a bond are fixed with the same tolerance
            for t in (1e-2, 1e-1, 1.0):
                left, right = gauge_dimensions(rng, case["dtype"], t)
                r.close(right, left, 1e-8, "gauge_fix_atol", f"gauge fix of mirrored bonds with a tolerance of {t}, {tag}")
            r.count("effect_gauge_fix")
        elif kind == "positive":
            got = [extreme(positive_approx_cutoff=t) for t in (1e-3, 1e-2, 1e-1, 1.0, 10.0)]
            r.check(any(differ(a0, g) for g in got), "positive_approx_cutoff", f"positive_approx_cutoff has no effect, {tag}")
            r.count("effect_positive")
        else:
            few = {n: run(als_niter=n, als_tol=1e-300)[1] for n in (0, 1, 2, 3, 4, 5)}
            for n in range(3):
                r.check(differ(few[n], few[n + 1]), "als_niter", f"als_niter={n} and {n + 1} give the same result, {tag}")
            loose = run(als_niter=60, als_tol=1e6)[1]
            at = [n for n in few if not differ(few[n], loose)]
            r.check(bool(at) and at[-1] >= 1, "als_tol", f"a huge als_tol does not stop the iterations early (equals als_niter in {at}), {tag}")
            p, a2 = run(als_method="pinv")
            r.check(differ(a0, a2), "als_method", f"als_method='pinv' changes nothing, {tag}")
            r.close(energies(p), e0, 1e-2, "als_method", f"values with both solvers, {tag}")
            # whatever the number of iterations
            for n in (1, 2, 3):
                other = run(als_niter=n, als_tol=1e-300, als_method="pinv")[1]
                r.check(differ(few[n], other), "als_method", f"als_method='pinv' changes nothing with als_niter={n}, {tag}")
                r.check(differ(few[n], run(als_niter=n, als_tol=1e-300, als_epsilon=1e-2)[1]), "als_epsilon", f"als_epsilon changes nothing with als_niter={n}, {tag}")
                r.check(any(differ(other, extreme(als_niter=n, als_tol=1e-300, als_epsilon=e, als_method="pinv")) for e in (1e-2, 1e-1, 0.9)),
                        "als_epsilon", f"als_epsilon changes nothing with als_niter={n} and the pseudo inverse, {tag}")
            r.check(differ(a0, run(als_epsilon=1e-2)[1]), "als_epsilon", f"als_epsilon changes nothing (cholesky), {tag}")
            r.check(any(differ(a2, extreme(als_epsilon=e, als_method="pinv")) for e in (1e-2, 1e-1, 0.9)), "als_epsilon", f"als_epsilon changes nothing (pinv), {tag}")
            r.count("effect_als")
    elif kind == "dims":
        D, d, chi = int(rng.integers(2, 4)), int(rng.integers(2, 4)), int(rng.integers(4, 11))
        dtype = str(rng.choice(["float64", "float32", "complex128", "complex64"]))
        nx, ny = int(rng.integers(2, 4)), int(rng.integers(2, 4))
        cfg = api.config(nx, ny, D, chi, d, dtype, 4)
        ip = start(cfg, make_state(rng, "generic", nx, ny, D, d, dtype.startswith("complex")))
        r.check(sorted(map(tuple, ip.site_list)) == [(x, y) for x in range(nx) for y in range(ny)], "dims", f"sites {ip.site_list} of a {nx}x{ny} cell")
        quiet(ip.renormalize)
        shapes = {tuple(ip[s]["A"].shape) for s in ip.site_list}
        r.check(shapes == {(D,) * 4 + (d,)}, "dims", f"site tensors {shapes} for bond={D}, phys={d}")
        dims = env_dims(ip)
        r.check(set(dims.tolist()) == {chi} or dtype in ("float32", "complex64") and dims.max() <= chi, "dims", f"environment dimensions {sorted(set(dims.tolist()))} for chi={chi}, {dtype} D={D}")
        types = {str(t.dtype) for s in ip.site_list for t in [ip[s]["A"], *ip[s]["C"], *ip[s]["E"]]}
        r.check(types == {f"torch.{dtype}"}, "dims", f"tensors of type {types} for dtype={dtype}")
        r.count("effect_dims")
    elif kind == "bars":
        bars(case, rng, A, r, tag)
    elif kind == "fallback":
        fallback(case, rng, A, r, tag)
    elif kind == "invalid":
        invalid(case, rng, A, r, tag)
    r.nontrivial = bool(seen)
    r.fingerprint = f"{kind} {tag} {case['seed']}"
    r.sample = {"effect": kind, "dtype": case["dtype"], "cell": case["cell"]}


def gauge_dimensions(rng, dtype, atol):
    """how the gauge fix changes both ends of a bond, and both ends of the mirrored bond"""
    from acetn.evolution.full_update import gauge_fix
    cplx = dtype.startswith("complex")
    n = 5
    nz = states.randn(rng, (n, n, n * n), cplx)
    # weights around the tolerance on both ends
    nz *= (atol * 10.0 ** rng.uniform(-1.5, 1.5, n))[:, None, None] * (10.0 ** rng.uniform(-1.5, 1.5, n))[None, :, None]
    t = states.randn(rng, (n, n, 2, 2), cplx)
    dt = api.tdtype("complex128" if cplx else "float64")
    _, _, x1, y1 = gauge_fix(api.to_torch(nz, dt), api.to_torch(t, dt), atol=atol)
    _, _, x2, y2 = gauge_fix(api.to_torch(nz.transpose(1, 0, 2), dt), api.to_torch(t.transpose(1, 0, 3, 2), dt), atol=atol)
    sv = [np.linalg.svd(api.npy(m), compute_uv=False) * atol for m in (x1, y1, x2, y2)]
    return np.concatenate([sv[0], sv[1]]), np.concatenate([sv[3], sv[2]])


def quiet_steps(ip, n):
    """n sweeps with a configuration that asks for none in evolve()"""
    other = start_like(ip, n)
    quiet(other.renormalize)
    for s in ip.site_list:
        ip[s]["C"] = other[s]["C"]
        ip[s]["E"] = other[s]["E"]


def start_like(ip, n):
    cfg = api.config(ip.nx, ip.ny, ip.dims["bond"], ip.dims["chi"], ip.dims["phys"], str(ip.dtype)[6:], n, ctmrg={"svd_type": "full-rank"})
    return start(cfg, api.get_state(ip))


def bar_run(c_off, e_off, environ, A, case):
    """which progress bars appear; runs in a process of its own because of the environment"""
    for k in list(os.environ):
        if k.startswith("SLURM"):
            del os.environ[k]
    os.environ.update(environ)
    nx, ny = case["cell"]
    cfg = api.config(nx, ny, 2, 4, 2, case["dtype"], 1, model={"name": "heisenberg", "params": {"J": 1.0}})
    for sec, off in (("ctmrg", c_off), ("evolution", e_off)):
        del cfg[sec]["disable_progressbar"]
        if off is not None:
            cfg[sec]["disable_progressbar"] = off
    ip = start(cfg, A)
    _, one = quiet(ip.renormalize)
    # one sweep bar for each renormalization inside evolve
    _, two = quiet(evolve, ip)
    return bool(one.strip()), "sweeps" in two or "Renormalizing" in two, "Updating" in two, bool(two.strip())


def bars(case, rng, A, r, tag):
    envs = [({}, None), ({"SLURM_JOB_ID": "5"}, True), ({"SLURM_JOB_ID": "5", "SLURM_JOB_NAME": "interactive-7"}, False), ({"SLURM_JOB_ID": "5", "SLURM_JOB_PARTITION": "interactive"}, False),
            ({"SLURM_JOB_ID": "5", "SLURM_JOB_NAME": "batch", "SLURM_JOB_PARTITION": "gpu"}, True)]
    for environ, off in [envs[0], envs[0], envs[int(rng.integers(1, 5))]]:
        c_off, e_off = [[None, True, False][int(rng.integers(3))] for _ in range(2)]
        got = forked.run(bar_run, c_off, e_off, environ, A, case)
        if got[0] != "ok":
            r.violate("exception", f"{got[1]} with disable_progressbar={c_off}, {e_off} in {environ}", trace=got[2])
            continue
        sweep, inside, update, anything = got[1]
        show_c, show_e = not c_off and not off, not e_off and not off
        what = f"disable_progressbar={c_off} (ctmrg), {e_off} (evolution) in {environ or 'no SLURM job'}"
        r.check(sweep == show_c, "progress bar", f"renormalize {'shows' if sweep else 'does not show'} a progress bar, {what}")
        r.check(inside == show_c, "progress bar", f"renormalize inside evolve {'shows' if inside else 'does not show'} a progress bar, {what}")
        r.check(update == show_e, "progress bar", f"evolve {'shows' if update else 'does not show'} a progress bar, {what}")
        r.check(anything or not (show_c or show_e), "progress bar", f"nothing shown, {what}")
        r.check(not anything or show_c or show_e, "progress bar", f"something written to stderr although disabled, {what}")
        r.count("effect_bars")


def fallback(case, rng, A, r, tag):
    if torch.cuda.is_available():
        r.count("fallbacks")
        return
    cfg = basic(case, rng)
    ref = flat(go(cfg, A, evolve, 3))
    trials = [("device", d) for d in ("cuda", torch.device("cuda"), "cuda:0", torch.device("cpu"), None)]
    try:
        from acetn.evolution._extensions import CUTENSOR_AVAILABLE as native
    except ImportError:
        native = None
    if native is False:
        trials.append(("backend", "cutensor"))
    for what, v in trials:
        c = copy.deepcopy(cfg)
        if what == "device":
            c["device"] = v
        else:
            c["evolution"]["backend"] = v
        try:
            got = flat(go(c, A, evolve, 3))
        except Exception as e:
            r.violate("fallback", f"{what}={v}: {type(e).__name__}: {str(e)[:200]}, {tag}")
            continue
        bad = unequal(ref, got)
        r.check(not bad, "fallback", f"{what}={v} does not give the result of the fallback: {bad[:3]}, {tag}")
        r.count("fallbacks")


def invalid(case, rng, A, r, tag):
    for sec, opt, vals in (("ctmrg", "projectors", ["quarter-system", "half", "none", ""]), ("ctmrg", "svd_type", ["svd", "full", "lanczos", ""]), ("evolution", "update_type", ["cluster", "fast", ""]),
                           ("evolution", "als_method", ["lu", "qr", "conjugate-gradient", ""]), ("evolution", "backend", ["numpy", "cuda", "jax", ""])):
        v = str(rng.choice(vals))
        cfg = basic(case, rng, chi=4, steps=1)
        cfg[sec][opt] = v
        if opt == "svd_type":
            cfg[sec]["projectors"] = str(rng.choice(["half-system", "full-system"]))
        try:
            go(cfg, A, evolve, 3)
            r.violate("invalid", f"{opt}={v!r} was accepted, {tag}")
        except Exception:
            pass
        r.count("invalid_values")
        r.count("oracle_evaluations")
    for bad in ("float99", "quad"):
        try:
            start({**basic(case, rng), "dtype": bad}, None)
            r.violate("invalid", f"dtype={bad!r} was accepted")
        except Exception:
            pass
        r.count("invalid_values")


def minimal(case, r):
    """only the tensor network section, everything else as documented"""
    torch.manual_seed(case["seed"])
    ip, _ = quiet(api.new, {"TN": {}})
    from acetn.model.model import Model
    cls = ops.model_class(1)
    assert issubclass(cls, Model)
    ip.set_model(cls, {"a": 1.0, "b": 0.7})
    quiet(ip.evolve, 0.05, 1)
    m = ip.measure()
    r.check(all(np.isfinite(float(v)) for v in m.values()) and len(m) > 0, "minimal", f"measured {m}")
    r.check((ip.nx, ip.ny, ip.dims["phys"], ip.dims["bond"], ip.dims["chi"]) == (2, 2, 2, 2, 20) and str(ip.dtype) == "torch.float64" and str(ip.device) == "cpu", "minimal",
            f"cell {ip.nx}x{ip.ny}, {ip.dims}, {ip.dtype}, {ip.device}")
    try:
        api.new({"dtype": "float64"})
        r.violate("minimal", "a configuration without [TN] was accepted")
    except Exception:
        pass
    r.count("minimal_configs")
    r.nontrivial = True
    r.fingerprint = "minimal"


def run_case(case):
    r = Result()
    if case["kind"] == "omitted":
        omitted(case, r)
    elif case["kind"] == "minimal":
        minimal(case, r)
    else:
        effect(case, r)
    return r
