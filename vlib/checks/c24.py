"""C24: models, their parameters and initial states mean what they say."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result, exception_origin

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = ("reference-model monitor: a numpy account of the current model and its parameters is kept along random histories of set_model, set_model_params, evolve and measure, and every "
             "measurement and evolution is compared with one made from that account; initial tensors, built-in matrices and error cases are checked directly")
LEVEL_NOTE = "Held on the executed histories, parameters and states."
RULE = ("Histories: random orders of set_model (built-in and custom classes, with and without names), set_model_params, failing calls, evolve and measure on both updates. Product states: closed "
        "forms of built-in models. Initial states: built-in and random ones, up to four physical states. Distinct by seed.")
ASSUMPTIONS = ["names in the configuration are spelled as listed in the documentation"]
MIN_NONTRIVIAL = 60
REQUIRED_EVENTS = ("measurements", "evolutions", "set_model", "set_model_params", "failed_calls", "product_states", "initial_states", "noise_seen", "matrices", "unknown_models", "ising", "heisenberg",
                   "custom", "registered_names", "defaults", "params_only_config", "complex", "left_to_default", "updates_full", "updates_simple", "restarts")
BUDGET = {"quick": 200, "thorough": 1500}
CASE_TIMEOUT = 200
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]], complex)
Z = np.diag([1, -1]).astype(complex)
I2 = np.eye(2)


class Spec:
    """numpy account of a model"""
    params = ()
    optional = ()

    def one(self, site, p):
        return None

    def two(self, bond, p):
        raise NotImplementedError

    def obs1(self, site):
        return {}

    def obs2(self, bond):
        return {}

    def initial(self, site, nx):
        return np.array([1.0, 0.0])


class Ising(Spec):
    name, params = "ising", ("jz", "hx")

    def one(self, site, p):
        return -p["hx"] * X

    def two(self, bond, p):
        return -p["jz"] * np.kron(Z, Z)

    def obs1(self, site):
        return {"sx": X, "sz": Z}


class Heisenberg(Spec):
    name, params = "heisenberg", ("J",)
    optional = ("J",)

    def two(self, bond, p):
        return p.get("J", 1.0) * sum(np.kron(s / 2, s / 2) for s in (X, Y, Z))

    def obs1(self, site):
        sign = -1 if sum(site) % 2 else 1
        return {"sx": sign * X, "sz": sign * Z}

    def initial(self, site, nx):
        return np.array([0.0, 1.0] if sum(site) % 2 else [1.0, 0.0])


class Custom(Spec):
    """terms depending on the site, the direction, and three parameters, one of them optional"""
    params = ("a", "b", "c")
    optional = ("c",)

    def __init__(self, i):
        self.i = i
        self.name = f"custom{i}"

    def one(self, site, p):
        return None if self.i == 2 else -p["a"] * X + (0.3 * site[0] - 0.2 * site[1] + p.get("c", 0.25)) * Z

    def two(self, bond, p):
        if bond[2] == 2:
            return p["b"] * np.kron(X, X) - (0.3 + 0.1 * self.i) * np.kron(X, Z)
        return (p["a"] - p.get("c", 0.25)) * np.kron(Z, Z) + 0.2 * np.kron(Z, X)

    def obs1(self, site):
        return {"m": X * (1 + site[1]), f"n{self.i}": Z} if self.i != 1 else {}

    def obs2(self, bond):
        return {"c": np.kron(Z, X) * (1 if bond[2] == 2 else 2)} if self.i else {}

    def initial(self, site, nx):
        return np.array([1.0, 0.4 * (self.i + 1) - 0.3 * (site[0] - site[1])])

    def cls(self):
        """the same model, written the way a user would"""
        from acetn.model.model import Model
        from acetn.model.pauli_matrix import pauli_matrices
        i = self.i
        spec = self

        class UserModel(Model):
            def one_site_hamiltonian(self, site):
                if i == 2:
                    return None
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                c = self.params.get("c", 0.25)
                return -self.params.get("a") * X + (0.3 * site[0] - 0.2 * site[1] + c) * Z

            def two_site_hamiltonian(self, bond):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                a, b, c = self.params.get("a"), self.params.get("b"), self.params.get("c", 0.25)
                if self.bond_direction(bond) in ("+x", "-x"):
                    return b * X * X - (0.3 + 0.1 * i) * X * Z
                return (a - c) * Z * Z + 0.2 * Z * X

            def one_site_observables(self, site):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return {"m": X * (1 + site[1]), f"n{i}": Z} if i != 1 else {}

            def two_site_observables(self, bond):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return {"c": Z * X * (1 if self.bond_direction(bond) == "+x" else 2)} if i else {}

            def initial_site_state(self, site):
                return [float(v) for v in spec.initial(site, None)]
        UserModel.__name__ = f"UserModel{i}"
        return UserModel


def builtin_class(spec):
    from acetn.model.models import IsingModel, HeisenbergModel
    return {"ising": IsingModel, "heisenberg": HeisenbergModel}[spec.name]


def cases(rng, tier):
    big = 3 if tier == "quick" else 10
    out = []
    kinds = (("history", 36), ("product", 40), ("initial", 40), ("unknown", 10), ("matrices", 20))
    for kind, n in kinds:
        for i in range(n * big):
            out.append({"kind": kind, "dtype": str(rng.choice(["float64", "complex128", "float64", "complex128", "float32", "complex64"])), "update": ["full", "simple"][i % 2],
                        "cell": [[2, 2], [3, 2], [2, 3], [3, 3]][int(rng.integers(4))], "seed": int(rng.integers(2 ** 31))})
    return out


def tolerance(dtype):
    return 2e-4 if dtype in ("float32", "complex64") else 1e-9


def random_params(rng, spec, partial=False):
    names = [n for n in spec.params if rng.uniform() < (0.6 if partial or n in spec.optional else 1.1)]
    return {n: [float(rng.uniform(-2, 2)), int(rng.integers(-2, 3)), 0.0][int(rng.choice([0, 0, 0, 1, 2]))] for n in names}


def probe(ip, spec, p):
    """the account as a model instance"""
    keys1, keys2 = spec.obs1((0, 0)).keys(), spec.obs2(((0, 0), (1, 0), 2)).keys()
    return api.probe_model(ip, {k: (lambda s, k=k: spec.obs1(tuple(s))[k]) for k in keys1}, {k: (lambda b, k=k: spec.obs2(api.key3(b))[k]) for k in keys2},
                           lambda s: spec.one(tuple(s), p), lambda b: spec.two(api.key3(b), p), initial=lambda s: [float(v) for v in spec.initial(tuple(s), ip.nx)])


def same_values(got, want, tol, r, mech, when):
    if r.check(set(got) == set(want), mech, f"measured {sorted(got)} instead of {sorted(want)}, {when}"):
        for k in want:
            r.close(float(got[k]), float(want[k]), tol, mech, f"{k}, {when}")


def history(case, r):
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    dtype = case["dtype"] if case["dtype"] in ("float64", "complex128") else "float64"
    specs = [Ising(), Heisenberg(), Custom(0), Custom(1), Custom(2)]
    cfg = api.config(nx, ny, 2, 6, 2, dtype, 2, evolution={"update_type": case["update"]})
    start = int(rng.integers(4))
    spec, p = None, None
    trail = []
    if start < 2:
        spec, p = specs[start], random_params(rng, specs[start])
        if start == 1 and rng.uniform() < 0.5:
            p = {}
            r.count("defaults")
        cfg["model"] = {"name": spec.name, "params": dict(p)}
        if start == 1 and not p and rng.uniform() < 0.5:
            del cfg["model"]["params"]
    elif start == 2:
        # parameters without a name, the class follows
        p = random_params(rng, specs[2])
        cfg["model"] = {"params": dict(p)}
        r.count("params_only_config")
    trail.append(f"config {cfg.get('model')}")
    ip = api.new(cfg)
    evolved = False

    def set_model(s, params):
        name = [None, "mine", "Mine2", s.name.upper()][int(rng.integers(4))]
        cls = builtin_class(s) if s.name in ("ising", "heisenberg") else s.cls()
        kw = {} if name is None else {"name": name}
        given = dict(params)
        ip.set_model(cls, given, **kw)
        r.check(given == params, "arguments", "set_model() changed the dictionary it was given")
        given.clear()
        trail.append(f"set_model({cls.__name__}, {params}, {kw})")
        r.count("set_model")
        r.count("left_to_default", any(n not in params for n in s.optional))
    if spec is None:
        spec = specs[int(rng.integers(5))]
        p = random_params(rng, spec)
        set_model(spec, p)
    done = 0
    for step in range(9):
        k = str(rng.choice(["set_model", "params", "params", "measure", "measure", "evolve", "evolve", "fail", "other"]))
        if step == 8:
            k = "measure"
        if k == "set_model":
            spec = specs[int(rng.integers(5))]
            p = random_params(rng, spec)
            set_model(spec, p)
        elif k == "params":
            new = random_params(rng, spec, True)
            ip.set_model_params(**new)
            p = {**p, **new}
            trail.append(f"set_model_params({new})")
            r.count("set_model_params")
        elif k == "fail":
            bad = [int, dict, object, type("Impostor", (), {"two_site_hamiltonian": lambda self, bond: None})][int(rng.integers(4))]
            try:
                ip.set_model(bad, {"a": 9.0, "jz": 9.0, "J": 9.0})
                r.violate("not a model", f"set_model accepted {bad.__name__}")
                return
            except Exception as e:
                r.check(exception_origin(e) is not None, "not a model", "")
            trail.append(f"set_model({bad.__name__}) rejected")
            r.count("failed_calls")
        when = f"{case['update']} {dtype} after " + " > ".join(trail)
        if k == "measure":
            same_values(ip.measure(), ip.measure(model=probe(ip, spec, p)), 1e-9 * (1 + sum(abs(v) for v in p.values())), r, "measure", when)
            trail.append("measure")
            r.count("measurements")
            done += 1
        elif k == "other":
            # a model given to one call only
            s = specs[2 + int(rng.integers(3))]
            if evolved:
                ip.measure(model=probe(ip, s, random_params(rng, s)))
                trail.append("measure(model=other)")
        elif k == "evolve":
            if evolved:
                twin = api.new(cfg, ipeps=ip)
                twin.bond_list = list(ip.bond_list)
            else:
                twin = api.new(cfg)
            n, seed = int(rng.integers(1, 3)), int(rng.integers(2 ** 31))
            torch.manual_seed(seed)
            ip.evolve(0.02, n)
            torch.manual_seed(seed)
            twin.evolve(0.02, n, model=probe(twin, spec, p))
            a, b = api.tomography(ip), api.tomography(twin)
            for s in a[0]:
                r.close(a[0][s], b[0][s], 1e-6, "evolve", f"site {s}, {when} > evolve")
            for s in a[1]:
                r.close(a[1][s], b[1][s], 1e-6, "evolve", f"bond {s}, {when} > evolve")
            evolved = True
            trail.append(f"evolve {n}")
            r.count("evolutions")
            done += 1
        r.count({"ising": "ising", "heisenberg": "heisenberg"}.get(spec.name, "custom"))
    r.count("updates_" + case["update"])
    r.nontrivial = done > 1
    r.fingerprint = f"history {case['seed']}"
    r.sample = {"history": trail}


def product(case, r):
    """closed forms on product states"""
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    dtype = case["dtype"]
    cplx = api.is_complex(dtype)
    sites, bonds = states.sites_of(nx, ny), states.bonds_of(nx, ny)
    spec = [Ising(), Heisenberg(), Custom(int(rng.integers(3)))][int(rng.integers(3))]
    p = random_params(rng, spec)
    builtin = spec.name in ("ising", "heisenberg")
    D = int(rng.integers(1, 3))
    psi = {}
    for s in sites:
        v = states.randn(rng, 2, cplx)
        psi[s] = v / np.linalg.norm(v)
    A = {}
    for s in sites:
        A[s] = np.zeros((D,) * 4 + (2,), complex if cplx else float)
        A[s][0, 0, 0, 0] = psi[s]
    ip = api.new(api.config(nx, ny, D, 4, 2, dtype, 2, model={"name": spec.name, "params": dict(p)} if builtin else None))
    if not builtin:
        ip.set_model(spec.cls(), p)
    api.set_state(ip, states.normalized(states.apply_gauges(A, nx, ny, rng, cplx, 0.2)))
    ip.renormalize()

    def expect(op, *vs):
        v = vs[0] if len(vs) == 1 else np.kron(vs[0], vs[1])
        return float(np.real(v.conj() @ op @ v))
    for attempt in range(3):
        e = 0.0
        for s in sites:
            h = spec.one(s, p)
            e += 0.0 if h is None else expect(h, psi[s])
        for b in bonds:
            e += expect(spec.two(b, p), psi[b[0]], psi[b[1]])
        want = {"Energy": e / len(sites)}
        for k in spec.obs1((0, 0)):
            want[k] = np.mean([expect(spec.obs1(s)[k], psi[s]) for s in sites])
        for k in spec.obs2(bonds[0]):
            want[k] = np.mean([expect(spec.obs2(b)[k], psi[b[0]], psi[b[1]]) for b in bonds])
        same_values(ip.measure(), want, tolerance(dtype) * (5 + sum(abs(v) for v in p.values())), r, "product state", f"{spec.name} {p} in {dtype} on {nx}x{ny}")
        new = random_params(rng, spec, True)
        ip.set_model_params(**new)
        p = {**p, **new}
        r.count("product_states")
    r.count("complex", cplx)
    r.nontrivial = True
    r.fingerprint = f"product {case['seed']}"
    r.sample = {"model": spec.name, "params": p, "energy": want["Energy"]}


def initial(case, r):
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    dtype = case["dtype"]
    cplx = api.is_complex(dtype)
    sites = states.sites_of(nx, ny)
    d = int(rng.integers(2, 5))
    kind = str(rng.choice(["ising", "heisenberg", "default", "custom", "custom", "class"]))
    if kind in ("ising", "heisenberg", "class"):
        d = 2
    D = int(rng.integers(1, 4))
    H2 = {b: 0.5 * states.hermitian(rng, d * d, cplx) for b in states.bonds_of(nx, ny)}
    cfg = api.config(nx, ny, D, 4, d, dtype, 1, evolution={"update_type": case["update"]})
    psi = {}
    for s in sites:
        v = states.randn(rng, d, cplx)
        psi[s] = v / np.linalg.norm(v)
    unit = np.zeros(d)
    unit[0] = 1
    if kind in ("ising", "heisenberg"):
        spec = Ising() if kind == "ising" else Heisenberg()
        cfg["model"] = {"name": kind, "params": {"jz": 1.0, "hx": 1.0, "J": 1.0}}
        psi = {s: spec.initial(s, nx) for s in sites}
    elif kind == "class":
        spec = Custom(int(rng.integers(2)))
        psi = {s: spec.initial(s, nx) / np.linalg.norm(spec.initial(s, nx)) for s in sites}
    elif kind == "default":
        psi = {s: unit for s in sites}

    def check(ip, want, when):
        """every site tensor is the product state up to noise, normalized"""
        worst = 0.0
        state = api.get_state(ip)
        for s in sites:
            a = state[s]
            r.close(np.linalg.norm(a), 1.0, 1e-5 if dtype in ("float32", "complex64") else 1e-9, "normalized", f"norm of the initial tensor of {s}, {when}")
            ref = np.zeros(a.shape, complex)
            ref[0, 0, 0, 0] = want[s]
            ov = np.vdot(ref, a)
            dist = np.linalg.norm(a - ref * ov / abs(ov)) if abs(ov) > 0.1 else 1.0
            worst = max(worst, dist / np.sqrt(a.size))
            # all noise entries are small, wherever they are
            r.le(np.abs(a - ref * ov / max(abs(ov), 0.1)).max(), 0.06, "initial state", f"site {s} starts from {a[0, 0, 0, 0]} instead of {want[s]} (or with large noise), {when}")
        return worst

    def model(ip):
        if kind in ("default", "custom"):
            ini = None if kind == "default" else (lambda s: (lambda v: [complex(c) if cplx else float(c) for c in v])(psi[tuple(s)] * scale))
            return api.probe_model(ip, None, None, None, lambda b: H2[api.key3(b)], initial=ini)
        return None
    scale = 1.0
    when = f"{kind}, d={d}, D={D}, {dtype} on {nx}x{ny}"
    ip = api.new(cfg)
    if kind == "class":
        ip.set_model(spec.cls(), {"a": 0.5, "b": 0.5, "c": 0.1})
    check(ip, {s: unit for s in sites}, "before evolving, " + when)
    m = model(ip)
    torch.manual_seed(case["seed"])
    ip.evolve(0.01, 0, **({"model": m} if m is not None else {}))
    noise = check(ip, psi, when)
    first = api.get_state(ip)
    # other seeds, other noise; the same seed, the same state
    twins = []
    for seed in (case["seed"], case["seed"] + 1):
        twin = api.new(cfg)
        if kind == "class":
            twin.set_model(spec.cls(), {"a": 0.5, "b": 0.5, "c": 0.1})
        torch.manual_seed(seed)
        twin.evolve(0.01, 0, **({"model": m} if m is not None else {}))
        twins.append(api.get_state(twin))
    r.check(all(np.array_equal(first[s], twins[0][s]) for s in sites), "noise", f"the same seed gave another initial state, {when}")
    if D > 1:
        r.check(any(not np.array_equal(first[s], twins[1][s]) for s in sites) and noise > 0, "noise", f"no noise in the initial state, {when}")
        r.count("noise_seen")
    # the state starts over for no other reason
    ip.evolve(0.01, 1, **({"model": m} if m is not None else {}))
    before = api.get_state(ip)
    other = api.probe_model(ip, None, None, None, lambda b: 0 * H2[api.key3(b)], initial=lambda s: [0.0] * (d - 1) + [1.0])
    for again in (ip, api.new(cfg, ipeps=ip)):
        again.evolve(0.01, 0, model=other)
        now = api.get_state(again)
        r.check(all(np.array_equal(before[s], now[s]) for s in sites), "restart", f"evolving an evolved state restarted or changed it, {when}")
        r.count("restarts")
    r.count("initial_states")
    r.count("complex", cplx)
    r.nontrivial = True
    r.fingerprint = f"initial {case['seed']}"
    r.sample = {"kind": kind, "d": d, "D": D, "noise per entry": noise}


def unknown(case, r):
    rng = np.random.default_rng(case["seed"])
    name = str(rng.choice(["isin", "xy", "", "ising ", "no such model", "heisenberg2", "None"]))
    for model in ({"name": name, "params": {"jz": 1.0, "hx": 1.0}}, None, {"params": {"jz": 1.0}}):
        for call in ("measure", "evolve"):
            try:
                ip = api.new(api.config(2, 2, 2, 4, 2, "float64", 1, model=model))
                before = api.get_state(ip)
                ip.measure() if call == "measure" else ip.evolve(0.01, 1)
                r.violate("unknown model", f"{call}() with the model {model} did not fail")
            except Exception as e:
                r.check(exception_origin(e) is not None, "unknown model", "")
                r.check(not isinstance(e, (AttributeError, TypeError)), "unknown model", f"{call}() with the model {model}: {type(e).__name__}: {e}")
                r.check(all(np.array_equal(before[s], a) for s, a in api.get_state(ip).items()), "unknown model", f"failing {call}() changed the state")
            r.count("unknown_models")
    # a class without the Hamiltonian is not a model
    from acetn.model.model import Model
    ip = api.new(api.config(2, 2, 2, 4, 2, "float64", 1))
    try:
        ip.set_model(type("Empty", (Model,), {}), {})
        ip.measure()
        r.violate("unknown model", "a model class without two_site_hamiltonian was accepted")
    except Exception as e:
        r.check(exception_origin(e) is not None, "unknown model", "")
    # names given once are known to later configurations
    spec = Custom(int(rng.integers(3)))
    name = f"Model_{case['seed']}"
    p, q = random_params(rng, spec), random_params(rng, spec)
    ip.set_model(spec.cls(), p, name=name)
    later = api.new(api.config(2, 2, 2, 4, 2, "float64", 1, model={"name": name.lower(), "params": dict(q)}))
    for net, par in ((ip, p), (later, q), (ip, p)):
        same_values(net.measure(), net.measure(model=probe(net, spec, par)), 1e-9, r, "registered name", f"{name} with {par}")
    r.count("registered_names")
    r.nontrivial = True
    r.fingerprint = f"unknown {case['seed']}"
    r.sample = {"name": name}


def matrices(case, r):
    """operators of the built-in models as they are handed out"""
    rng = np.random.default_rng(case["seed"])
    from acetn.model.model_factory import model_factory
    from acetn.model.models import IsingModel, HeisenbergModel
    nx, ny = case["cell"]
    dtype = case["dtype"]
    tol = tolerance(dtype)

    def mat(op, n):
        t = op.mat if hasattr(op, "mat") else op
        r.check(t.dtype == api.tdtype(dtype), "matrix dtype", f"{t.dtype} in {dtype}")
        return api.npy(t).reshape(n, n)
    for spec, cls in ((Ising(), IsingModel), (Heisenberg(), HeisenbergModel)):
        p = random_params(rng, spec)
        ip = api.new(api.config(nx, ny, 1, 1, 2, dtype, 1, model={"name": spec.name, "params": dict(p)}))
        m = model_factory.create(ip.config.model)
        r.check(type(m) is cls, "class", f"{spec.name} is {type(m).__name__}")
        for s in states.sites_of(nx, ny) + [(int(rng.integers(50)), int(rng.integers(50)))]:
            want, got = spec.one(s, p), m.one_site_hamiltonian(s)
            if want is None:
                r.check(got is None or np.abs(mat(got, 2)).max() == 0, "matrix", f"{spec.name} has a one-site term")
            else:
                r.close(mat(got, 2), want, tol, "matrix", f"one-site term of {spec.name} {p}")
            obs = m.one_site_observables(s)
            r.check(set(obs) == set(spec.obs1(s)), "matrix", f"observables {sorted(obs)}")
            for k, o in spec.obs1(s).items():
                r.close(mat(obs[k], 2), o, tol, "matrix", f"{k} of {spec.name} at {s}")
            r.count("matrices")
        for b in states.bonds_of(nx, ny):
            from acetn.ipeps.bond import Bond
            r.close(mat(m.two_site_hamiltonian(Bond(*b)), 4), spec.two(b, p), tol, "matrix", f"two-site term of {spec.name} {p} on {b}")
            r.count("matrices")
        r.check({"ising", "heisenberg"} <= set(model_factory.list_registered()), "registry", f"{model_factory.list_registered()}")
    r.count("complex", api.is_complex(dtype))
    r.nontrivial = True
    r.fingerprint = f"matrices {case['seed']}"
    r.sample = {"dtype": dtype}


def run_case(case):
    r = Result()
    {"history": history, "product": product, "initial": initial, "unknown": unknown, "matrices": matrices}[case["kind"]](case, r)
    return r
