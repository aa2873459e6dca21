"""C25: calls that fail or are interrupted leave the network usable."""
import contextlib
import os
import tempfile
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from vlib import api, ops, states
from vlib.core import Result

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = ("fault injection with runtime monitors: renormalize(), evolve(), measure(), save() and load() are ended by an exception at a random numerical operation or call of the model; monitors "
             "check what reaches the caller, that boundary tensors fit together, that nothing else changed, and that the object goes on like a fresh one with the same tensors")
LEVEL_NOTE = "Held for the executed calls and points of failure."
RULE = ("Random states, cells, dtypes, chi (also growing and shrinking), both updates; failures at a random numerical tensor operation (interrupt, lack of memory, another exception), at a random call "
        "of a model method, or from a file that is missing, truncated, foreign, or of another unit cell. Distinct by seed.")
ASSUMPTIONS = ["one process", "failures come from numerical operations (contractions, factorizations, random numbers, norms), model methods or files, not from plain copies of a tensor"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("interrupted_renormalize", "interrupted_evolve_full", "interrupted_evolve_simple", "interrupted_measure", "interrupted_save", "interrupted_load", "failing_model", "failing_initial_state",
                   "bad_files", "other_cells", "growing", "recovered", "continued", "KeyboardInterrupt", "OutOfMemoryError", "Failure")
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 200
CELLS = [(2, 2), (2, 2), (3, 2), (2, 3), (3, 3)]
# operations that compute something; others (views, copies, conversions) are not made to fail
COMPUTES = {"einsum", "matmul", "__matmul__", "mm", "tensordot", "svd", "svdvals", "linalg_svd", "linalg_svdvals", "qr", "linalg_qr", "eigh", "linalg_eigh", "cholesky", "linalg_cholesky", "pinv",
            "linalg_pinv", "solve", "linalg_solve", "solve_triangular", "linalg_solve_triangular", "randn", "rand", "norm", "linalg_norm", "inv", "linalg_inv", "eigvalsh", "linalg_eigvalsh", "kron",
            "matrix_exp", "linalg_matrix_exp"}


class Failure(Exception):
    pass


class FailAt(TorchFunctionMode):
    """raises at the n-th numerical operation; n=0 only counts"""

    def __init__(self, n, error, every=False, watch=None):
        super().__init__()
        self.n, self.error, self.calls, self.raised, self.every = n, error, 0, False, every
        # operations right after a tensor of the watched network was replaced
        self.watch, self.last, self.after = watch, {}, {"A": [], "C": [], "E": []}

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if self.every or getattr(func, "__name__", "") in COMPUTES:
            self.calls += 1
            if self.watch is not None:
                self.look()
            if self.calls == self.n:
                self.raised = True
                raise self.error("injected")
        return func(*args, **(kwargs or {}))

    def look(self):
        for k in "ACE":
            now = [id(t) for s in self.watch.site_list for t in ([self.watch[s]["A"]] if k == "A" else self.watch[s][k])]
            if self.last.get(k, now) != now:
                self.after[k].append(self.calls)
            self.last[k] = now


def cases(rng, tier):
    big = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("renormalize", 50), ("evolve", 70), ("model", 40), ("initial", 20), ("measure", 20), ("save", 20), ("load", 40), ("files", 30)):
        for i in range(n * big):
            out.append({"kind": kind, "cell": list(CELLS[int(rng.integers(len(CELLS)))]), "dtype": str(rng.choice(["float64", "complex128"])), "update": ["full", "simple"][i % 2],
                        "projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"])), "seed": int(rng.integers(2 ** 31))})
    order = rng.permutation(len(out))
    return [out[i] for i in order]


def setup(case, rng, steps=6):
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    A, _ = states.short_state(rng, nx, ny, 2, 2, cplx, 0.4, 0.35)
    A = states.normalized(states.apply_gauges(A, nx, ny, rng, cplx, 0.5))
    chi = int(rng.integers(6, 17))
    cfg = api.config(nx, ny, 2, chi, 2, case["dtype"], steps, ctmrg={"projectors": case["projectors"], "svd_type": case["svd_type"]}, evolution={"update_type": case["update"]})
    ip = api.new(cfg)
    api.set_state(ip, A)
    h1 = {s: states.hermitian(rng, 2, cplx) for s in states.sites_of(nx, ny)}
    h2 = {b: states.hermitian(rng, 4, cplx) for b in states.bonds_of(nx, ny)}
    return ip, cfg, h1, h2


def make_model(ip, h1, h2, log=None):
    return api.probe_model(ip, {"o": lambda s: h1[tuple(s)]}, {"w": lambda b: h2[api.key3(b)]}, lambda s: h1[tuple(s)], lambda b: h2[api.key3(b)], log=log)


def twin_of(ip, cfg):
    """a new object with the tensors, bonds and chi of ip"""
    twin = api.new(cfg, ipeps=ip)
    twin.set_chi(ip.dims["chi"])
    twin.bond_list = list(ip.bond_list)
    return twin


def settings(ip):
    return {"config": str(ip.config), "dims": dict(ip.dims), "sites": [tuple(s) for s in ip.site_list], "bonds": sorted(api.key3(b) for b in ip.bond_list), "dtype": str(ip.dtype)}


def fits(r, ip, case, tag):
    """legs of the boundary tensors of every site and between neighbouring sites"""
    nx, ny = case["cell"]
    t = getattr(torch, case["dtype"])
    for s in ip.site_list:
        C, E, a = ip[s]["C"], ip[s]["E"], ip[s]["A"]
        r.check(all(x.dtype == t and bool(torch.isfinite(torch.view_as_real(x) if x.is_complex() else x).all()) for x in [a] + list(C) + list(E)), "finite", f"{tag}: not finite, or not {t}, at {s}")
        r.check(tuple(a.shape) == (2, 2, 2, 2, 2), "site-shape", f"{tag}: site tensor {s} has shape {tuple(a.shape)}")
        for k in range(4):
            r.check(E[k].shape[0] == C[k].shape[1] and E[k].shape[1] == C[(k + 1) % 4].shape[0], "fit",
                    f"{tag}: corner {k} {tuple(C[k].shape)}, edge {tuple(E[k].shape)}, corner {(k + 1) % 4} {tuple(C[(k + 1) % 4].shape)} of {s} do not fit together")


def fresh_values(ip, cfg):
    """expectation values of the site tensors, with an environment from scratch"""
    new = api.new(cfg)
    api.set_state(new, {tuple(s): api.npy(ip[s]["A"]) for s in ip.site_list})
    new.set_chi(max(16, ip.dims["chi"]))
    new.renormalize()
    new.renormalize()
    return api.tomography(new)


def distance(a, b):
    return max([float(np.max(np.abs(a[i][k] - b[i][k]))) for i in (0, 1) for k in a[i]])


def goes_on(r, ip, cfg, h1, h2, case, rng, tag, evolve=True):
    """the object continues like a new one with the same tensors, and reaches the environment of its tensors"""
    try:
        api.tomography(ip)
        twin = twin_of(ip, cfg)
        results = []
        seed = int(rng.integers(2 ** 31))
        for x in (ip, twin):
            torch.manual_seed(seed)
            x.renormalize()
            v = [api.tomography(x)]
            if evolve:
                x.evolve(0.01, 1, model=make_model(x, h1, h2))
                v.append(api.tomography(x))
            x.renormalize()
            v.append(api.tomography(x))
            results.append(v)
    except Exception as e:
        r.violate("unusable", f"{tag}: using the object afterwards fails with {type(e).__name__}: {str(e)[:200]}")
        return
    for v, w in zip(*results):
        r.le(distance(v, w), 1e-8, "continues", f"{tag}: continuing differs from a new object with the same tensors")
    r.count("continued")
    ip.set_chi(16)
    ip.renormalize()
    ip.renormalize()
    r.le(distance(api.tomography(ip), fresh_values(ip, cfg)), 2e-4, "environment", f"{tag}: renormalizing afterwards does not reach the values of a fresh environment")
    r.count("recovered")


def attempt(r, fn, n, error, tag, every=False):
    """fn is made to fail at operation n; True when the failure ended it"""
    mode = FailAt(n, error, every)
    try:
        with mode:
            fn()
    except BaseException as e:
        if not r.check(mode.raised and isinstance(e, error), "other-error", f"{tag}: {error.__name__} was raised inside, the caller got {type(e).__name__}: {str(e)[:200]}"):
            return False
        r.count(error.__name__)
        return True
    # an error of a numerical routine may be answered by another way to compute the same, an interrupt may not
    r.check(not mode.raised or issubclass(error, RuntimeError), "swallowed", f"{tag}: {error.__name__} raised at operation {n} did not reach the caller")
    return None if mode.raised else False


def count_of(fn, every=False):
    with FailAt(0, None, every) as mode:
        fn()
    return mode.calls


def points(fn, watch):
    """number of operations, and those that follow the replacement of a tensor, by kind"""
    with FailAt(0, None, watch=watch) as mode:
        fn()
    return mode.calls, {k: v for k, v in mode.after.items() if v}


def same_but(r, ip, before, marks, tag, tensors="ACE"):
    """nothing changed, except the tensors not listed"""
    now = ops.snapshot(ip)
    d = ops.differences(before, now, ("tensors",))
    r.check(not [x for x in d if x[0] in tensors or x.startswith("set")], "tensors-changed", f"{tag}: {d[:6]} changed")
    r.check(settings(ip) == marks, "settings-changed", f"{tag}: {[k for k, v in settings(ip).items() if v != marks[k]]} changed")


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    error = [KeyboardInterrupt, torch.OutOfMemoryError, Failure][int(rng.integers(3))]
    tag0 = f"{case['update']} {case['dtype']} {case['cell'][0]}x{case['cell'][1]} {case['projectors']} {case['svd_type']}"
    {"renormalize": renormalize, "evolve": evolve, "model": model, "initial": initial, "measure": measure, "save": save, "load": load, "files": files}[kind](case, r, rng, error, tag0)
    r.nontrivial = True
    r.fingerprint = f"{kind} {case['seed']}"
    return r


def prepare(ip, rng, r):
    """a history: fresh, converged, and chi about to grow or shrink"""
    how = str(rng.choice(["fresh", "converged", "grow", "shrink"]))
    if how != "fresh":
        ip.renormalize()
    if how in ("grow", "shrink"):
        ip.set_chi(int(rng.integers(17, 21)) if how == "grow" else int(rng.integers(4, 6)))
    r.count("growing", how in ("fresh", "grow"))
    return how


def renormalize(case, r, rng, error, tag):
    ip, cfg, h1, h2 = setup(case, rng)
    how = prepare(ip, rng, r)
    twin = twin_of(ip, cfg)
    total, after = points(twin.renormalize, twin)
    # the environment changes most in the first sweep, and inconsistently while tensors are replaced
    u = rng.uniform()
    n = int(rng.integers(1, total + 1)) if u < 0.3 else int(rng.integers(1, total // 6 + 2)) if u < 0.6 else int(rng.choice(after[str(rng.choice(sorted(after)))])) + int(rng.integers(0, 2))
    before, marks = ops.snapshot(ip), settings(ip)
    tag = f"{tag}: {how} environment, {error.__name__} at operation {n} of {total} of renormalize()"
    if attempt(r, ip.renormalize, n, error, tag):
        same_but(r, ip, before, marks, tag, "A")
        r.check([api.key3(b) for b in ip.bond_list] == before["bonds"], "bond-order", f"{tag}: order of the bonds changed")
        fits(r, ip, case, tag)
        goes_on(r, ip, cfg, h1, h2, case, rng, tag)
        r.count("interrupted_renormalize")
    r.sample = {"point": f"{n} of {total}", "history": how}


def small(h, scale):
    return {k: v * scale for k, v in h.items()}


def evolve(case, r, rng, error, tag):
    ip, cfg, h1, h2 = setup(case, rng, steps=4)
    how = prepare(ip, rng, r) if rng.uniform() < 0.5 else ip.renormalize() or "converged"
    dtau, steps = 1e-4, int(rng.integers(1, 3))

    def go(x):
        return lambda: x.evolve(dtau, steps, model=make_model(x, h1, h2))
    values = fresh_values(ip, cfg)
    twin = twin_of(ip, cfg)
    seed = int(rng.integers(2 ** 31))
    torch.manual_seed(seed)
    total, after = points(go(twin), twin)
    ctm = count_of(twin_of(ip, cfg).renormalize)
    u = rng.uniform()
    n = int(rng.choice(after["A"])) if u < 0.45 and "A" in after else int(rng.integers(ctm + 1, total - ctm + 1)) if u < 0.85 and total > 2 * ctm + 1 else int(rng.integers(1, total + 1))
    torch.manual_seed(seed)
    before, marks = ops.snapshot(ip), settings(ip)
    tag = f"{tag}: {how} environment, {error.__name__} at operation {n} of {total} of evolve({dtau}, {steps})"
    ended = attempt(r, go(ip), n, error, tag)
    if ended is None:
        r.le(distance(fresh_values(twin, cfg), fresh_values(ip, cfg)), 3e-6, "other-result", f"{tag}: the call completed, with another result")
        r.count("answered")
    if ended:
        same_but(r, ip, before, marks, tag, "")
        fits(r, ip, case, tag)
        # the time step is so short that every state on the way has nearly the initial values
        r.le(distance(values, fresh_values(ip, cfg)), 0.02, "between", f"{tag}: the state left behind is not one on the way from the initial to the final state")
        goes_on(r, ip, cfg, h1, h2, case, rng, tag)
        r.count("interrupted_evolve_" + case["update"])
    r.sample = {"point": f"{n} of {total}, {ctm} in a renormalization", "history": how}


class Raiser(list):
    """log of the questions asked to a model that fails at the n-th"""

    def __init__(self, n, error):
        super().__init__()
        self.n, self.error = n, error

    def append(self, x):
        super().append(x)
        if len(self) == self.n:
            raise self.error("the model cannot answer")


def model(case, r, rng, error, tag):
    """errors of the user's model"""
    error = [KeyError, ValueError, Failure, ZeroDivisionError, RuntimeError][int(rng.integers(5))]
    ip, cfg, h1, h2 = setup(case, rng)
    ip.renormalize()
    what = str(rng.choice(["evolve", "measure"]))
    log = Raiser(0, None)
    twin = twin_of(ip, cfg)

    def go(x, log):
        return x.evolve(1e-4, 1, model=make_model(x, h1, h2, log)) if what == "evolve" else x.measure(model=make_model(x, h1, h2, log))
    values = fresh_values(ip, cfg)
    go(twin, log)
    n = int(rng.integers(1, len(log) + 1))
    before, marks = ops.snapshot(ip), settings(ip)
    tag = f"{tag}: model raises {error.__name__} on question {n} of {len(log)} of {what}()"
    got = None
    log = Raiser(n, error)
    try:
        go(ip, log)
    except Exception as e:
        got = e
    r.check(len(log) < n or type(got) is error and "the model cannot answer" in str(got), "swallowed", f"{tag}: the caller got {type(got).__name__} {str(got)[:200]}")
    same_but(r, ip, before, marks, tag, "ACE" if what == "measure" else "")
    fits(r, ip, case, tag)
    if what == "evolve":
        r.le(distance(values, fresh_values(ip, cfg)), 0.02, "between", f"{tag}: the state left behind is not one on the way")
    goes_on(r, ip, cfg, h1, h2, case, rng, tag)
    r.count("failing_model")
    r.sample = {"what": what, "question": f"{n} of {len(log)}"}


def initial(case, r, rng, error, tag):
    """a first evolution that fails before it has a state does not leave half of one"""
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    cfg = api.config(nx, ny, 2, 6, 2, case["dtype"], 2, evolution={"update_type": case["update"]})
    h1 = {s: states.hermitian(rng, 2, cplx) for s in states.sites_of(nx, ny)}
    h2 = {b: states.hermitian(rng, 4, cplx) for b in states.bonds_of(nx, ny)}
    start = {s: [float(v) for v in rng.normal(size=2)] for s in states.sites_of(nx, ny)}
    n = int(rng.integers(1, nx * ny + 1))
    asked = []

    def failing(s):
        asked.append(s)
        if len(asked) == n:
            raise error("no initial state")
        return [1.0, 0.0]

    def m(x, init):
        return api.probe_model(x, {}, {}, lambda s: h1[tuple(s)], lambda b: h2[api.key3(b)], initial=init)
    ip = api.new(cfg)
    got = None
    try:
        ip.evolve(0.01, 1, model=m(ip, failing))
    except BaseException as e:
        got = e
    tag = f"{tag}: initial_site_state raises {error.__name__} at site {n} of {nx * ny}"
    r.check(isinstance(got, error), "swallowed", f"{tag}: the caller got {type(got).__name__} {got}")
    twin = api.new(cfg)
    seed = int(rng.integers(2 ** 31))
    vals = []
    try:
        for x in (ip, twin):
            torch.manual_seed(seed)
            x.evolve(0.01, 1, model=m(x, lambda s: start[tuple(s)]))
            vals.append(api.tomography(x))
        r.le(distance(*vals), 1e-8, "half-initialized", f"{tag}: the next evolution does not start from the initial state of its model")
    except Exception as e:
        r.violate("unusable", f"{tag}: evolving afterwards fails with {type(e).__name__}: {str(e)[:200]}")
    r.count("failing_initial_state")
    r.count(error.__name__)


def measure(case, r, rng, error, tag):
    ip, cfg, h1, h2 = setup(case, rng)
    ip.renormalize()
    m = make_model(ip, h1, h2)
    want = ip.measure(model=m)
    total = count_of(lambda: ip.measure(model=m))
    n = int(rng.integers(1, total + 1))
    before, marks = ops.snapshot(ip), settings(ip)
    tag = f"{tag}: {error.__name__} at operation {n} of {total} of measure()"
    if attempt(r, lambda: ip.measure(model=m), n, error, tag):
        same_but(r, ip, before, marks, tag)
        r.check([api.key3(b) for b in ip.bond_list] == before["bonds"], "bond-order", f"{tag}: order of the bonds changed")
        again = ip.measure(model=m)
        r.check(set(again) == set(want) and all(abs(float(again[k]) - float(want[k])) < 1e-12 for k in want), "measured-again", f"{tag}: measuring again gives {again} instead of {want}")
        goes_on(r, ip, cfg, h1, h2, case, rng, tag)
        r.count("interrupted_measure")


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory(prefix="c25_") as d:
        yield d


def save(case, r, rng, error, tag):
    ip, cfg, h1, h2 = setup(case, rng)
    ip.renormalize()
    with folder() as d:
        good, path = os.path.join(d, "good.pt"), os.path.join(d, "state.pt")
        total = count_of(lambda: ip.save(good), every=True)
        how = str(rng.choice(["operation", "missing folder", "folder"]))
        before, marks = ops.snapshot(ip), settings(ip)
        tag = f"{tag}: save() fails ({how})"
        if how == "operation":
            failed = attempt(r, lambda: ip.save(path), int(rng.integers(1, total + 1)), error, tag, every=True)
        else:
            failed = False
            try:
                ip.save(os.path.join(d, "no", "such.pt") if how == "missing folder" else d)
            except Exception:
                failed = True
            r.check(failed, "swallowed", f"{tag}: no error")
        same_but(r, ip, before, marks, tag)
        ip.save(path)
        other = api.new(cfg)
        other.load(path)
        r.check(not ops.differences(ops.snapshot(ip), ops.snapshot(other), ("tensors", "bonds")), "saved-again", f"{tag}: saving afterwards does not give the state")
        other.load(good)
        r.check(not ops.differences(ops.snapshot(ip), ops.snapshot(other), ("tensors", "bonds")), "saved-before", f"{tag}: a file saved before was changed")
        r.count("interrupted_save", failed)


def source(case, rng, d, cell=None):
    c = dict(case, cell=list(cell or case["cell"]))
    ip, cfg, _, _ = setup(c, rng)
    ip.renormalize()
    path = os.path.join(d, "source.pt")
    ip.save(path)
    return ip, path


def load(case, r, rng, error, tag):
    """interrupted loads"""
    ip, cfg, h1, h2 = setup(case, rng)
    ip.renormalize()
    with folder() as d:
        src, path = source(case, rng, d)
        twin = twin_of(ip, cfg)
        total = count_of(lambda: twin.load(path), every=True)
        n = int(rng.integers(1, total + 1))
        before, marks = ops.snapshot(ip), settings(ip)
        tag = f"{tag}: {error.__name__} at operation {n} of {total} of load()"
        if attempt(r, lambda: ip.load(path), n, error, tag, every=True):
            same_but(r, ip, before, marks, tag)
            r.check([api.key3(b) for b in ip.bond_list] == before["bonds"], "bond-order", f"{tag}: order of the bonds changed")
            goes_on(r, ip, cfg, h1, h2, case, rng, tag, evolve=bool(rng.integers(2)))
            r.count("interrupted_load")
        ip.load(path)
        d2 = ops.differences(ops.snapshot(ip), ops.snapshot(src), ("tensors",))
        r.check(not d2, "loaded-again", f"{tag}: loading afterwards does not give the saved state: {d2[:4]}")


def files(case, r, rng, error, tag):
    """files that cannot be loaded"""
    ip, cfg, h1, h2 = setup(case, rng)
    ip.renormalize()
    nx, ny = case["cell"]
    with folder() as d:
        how = str(rng.choice(["missing", "truncated", "garbage", "empty", "foreign", "cell", "cell", "cell"]))
        path = os.path.join(d, "source.pt")
        if how == "cell":
            cell = [c for c in ((2, 2), (3, 2), (2, 3), (3, 3), (1, 1), (1, 2), (4, 2), (2, 1)) if c != (nx, ny)][int(rng.integers(7))]
            source(case, rng, d, cell)
            tag = f"{tag}: file of a {cell[0]}x{cell[1]} cell"
            r.count("other_cells")
        elif how == "truncated":
            source(case, rng, d)
            size = os.path.getsize(path)
            os.truncate(path, int(size * rng.uniform(0.05, 0.98)))
        elif how == "garbage":
            with open(path, "wb") as f:
                f.write(rng.bytes(2000))
        elif how == "empty":
            open(path, "wb").close()
        elif how == "foreign":
            torch.save([{"weights": torch.zeros(3)}, torch.zeros(3), {}, {"tensors": {}}][int(rng.integers(4))], path)
        tag = f"{tag}: {how} file"
        before, marks = ops.snapshot(ip), settings(ip)
        got = None
        try:
            ip.load(path)
        except Exception as e:
            got = e
        r.check(got is not None, "accepted", f"{tag}: load() raised no error")
        same_but(r, ip, before, marks, tag)
        r.check([api.key3(b) for b in ip.bond_list] == before["bonds"], "bond-order", f"{tag}: order of the bonds changed")
        goes_on(r, ip, cfg, h1, h2, case, rng, tag, evolve=bool(rng.integers(2)))
        r.count("bad_files")
        r.sample = {"file": how, "error": f"{type(got).__name__}: {str(got)[:80]}"}
