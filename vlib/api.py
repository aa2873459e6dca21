"""Thin adapter between the oracles (numpy) and the public interface of acetn."""
import numpy as np
import torch


def config(nx=2, ny=2, D=2, chi=8, d=2, dtype="float64", steps=20, ctmrg=None, evolution=None, model=None):
    c = {
        "dtype": dtype, "device": "cpu",
        "TN": {"nx": nx, "ny": ny, "dims": {"phys": d, "bond": D, "chi": chi}},
        "ctmrg": {"steps": steps, "disable_progressbar": True, **(ctmrg or {})},
        "evolution": {"disable_progressbar": True, **(evolution or {})},
    }
    if model is not None:
        c["model"] = model
    return c


def new(cfg, **kw):
    from acetn.ipeps import Ipeps
    return Ipeps(cfg, **kw)


def tdtype(name):
    return getattr(torch, name)


def is_complex(name):
    return name.startswith("complex")


def eps_of(name):
    return 1.2e-7 if name in ("float32", "complex64") else 2.3e-16


def set_state(ipeps, A, reset_env=True):
    """install site tensors; the environment restarts from the site tensors where that is offered"""
    for s, a in A.items():
        ipeps[s]["A"] = torch.from_numpy(np.ascontiguousarray(a)).to(ipeps.dtype)
    if reset_env:
        for s in A:
            st = ipeps[s]
            if hasattr(st, "initialize_corner_tensors") and hasattr(st, "initialize_edge_tensors"):
                st.initialize_corner_tensors()
                st.initialize_edge_tensors()
    ipeps.site_states_initialized = True


def get_state(ipeps):
    return {s: npy(ipeps[s]["A"].clone()) for s in ipeps.site_list}


def clone_env(ipeps):
    return {s: {k: [t.detach().clone() for t in ipeps[s][k]] for k in "CE"} for s in ipeps.site_list}


def to_torch(m, dtype):
    m = np.asarray(m)
    if not dtype.is_complex and np.iscomplexobj(m):
        assert np.max(np.abs(m.imag), initial=0) < 1e-12
        m = m.real
    return torch.from_numpy(np.ascontiguousarray(m)).to(dtype)


_PROBE = []


def probe_class():
    """one class for all probes: nothing but the instance tells them apart"""
    if _PROBE:
        return _PROBE[0]
    from acetn.model.model import Model

    class Probe(Model):
        def prepare(self, site_ops, bond_ops, site_ham, bond_ham, wrapped, note, initial, dt, d):
            self.site_ops, self.bond_ops, self.site_ham, self.bond_ham = site_ops or {}, bond_ops or {}, site_ham, bond_ham
            self.wrapped, self.note, self.initial, self.real_dtype, self.phys = wrapped, note, initial, dt, d
            self.owned_operators = {}

        def own(self, kind, key, m):
            """the model owns one tensor per operator and hands out that very object"""
            if (kind, key) not in self.owned_operators:
                self.owned_operators[(kind, key)] = to_torch(m, self.real_dtype)
            t = self.owned_operators[(kind, key)]
            return Mat(t) if self.wrapped(kind, key) else t

        def one_site_observables(self, site):
            self.note("one_site_observables", tuple(site))
            return {k: self.own("so", (k, tuple(site)), f(site)) for k, f in self.site_ops.items()}

        def two_site_observables(self, bond):
            self.note("two_site_observables", key3(bond))
            return {k: self.own("bo", (k, key3(bond)), f(bond)) for k, f in self.bond_ops.items()}

        def one_site_hamiltonian(self, site):
            self.note("one_site_hamiltonian", tuple(site))
            h = self.site_ham(site) if self.site_ham else None
            return None if h is None else self.own("sh", tuple(site), h)

        def two_site_hamiltonian(self, bond):
            self.note("two_site_hamiltonian", key3(bond))
            h = self.bond_ham(bond) if self.bond_ham else np.zeros((self.phys * self.phys,) * 2)
            return self.own("bh", key3(bond), h)

        def initial_site_state(self, site):
            self.note("initial_site_state", tuple(site))
            return self.initial(site) if self.initial else super().initial_site_state(site)
    _PROBE.append(Probe)
    return Probe


def probe_model(ipeps, site_ops=None, bond_ops=None, site_ham=None, bond_ham=None, dim=None, wrap=None, log=None, initial=None):
    """A Model instance answering from dictionaries/functions; used with evolve(model=) and measure(model=).

    site_ops: {name: f(site) -> matrix}, bond_ops: {name: f(bond) -> matrix},
    site_ham: f(site) -> matrix or None, bond_ham: f(bond) -> matrix
    wrap(kind, key) -> True to hand the operator out as a Pauli operator, else as a tensor
    log: list receiving (method, key) for every question asked
    """
    def note(what, key):
        if log is not None:
            log.append((what, key))
    dt = ipeps.dtype
    d = dim or ipeps.dims["phys"]

    class Cfg:
        pass
    cfg = Cfg()
    cfg.name, cfg.params, cfg.dtype, cfg.device, cfg.dim = "probe", {}, dt, ipeps.device, d
    model = probe_class()(cfg)
    model.prepare(site_ops, bond_ops, site_ham, bond_ham, wrap or (lambda kind, key: True), note, initial, dt, d)
    return model


def Mat(m):
    """wrap a matrix the way the built-in models hand out operators"""
    from acetn.model.pauli_matrix import PauliMatrix
    return PauliMatrix("I", m.dtype, m.device, mat=m)


def key3(bond):
    s1, s2, k = bond
    return (tuple(s1), tuple(s2), int(k))


def expectations(ipeps, site_ops, bond_ops):
    """Per-site and per-bond expectation values through measure().

    site_ops: {site: [O,...]}, bond_ops: {(s1,s2,k): [O (d^2 x d^2), ...]}.
    measure() reports averages over sites/bonds, so every value is isolated by an
    observable that vanishes on all other sites/bonds.
    """
    d = ipeps.dims["phys"]
    ns, nb = len(ipeps.site_list), len(ipeps.bond_list)
    zs, zb = np.zeros((d, d)), np.zeros((d * d, d * d))
    so, bo = {}, {}
    for s, ops in site_ops.items():
        for i, O in enumerate(ops):
            so[f"s|{s}|{i}"] = (lambda site, s=s, O=O: O if tuple(site) == s else zs)
    for b, ops in bond_ops.items():
        for i, O in enumerate(ops):
            bo[f"b|{b}|{i}"] = (lambda bond, b=b, O=O: O if key3(bond) == b else zb)
    m = ipeps.measure(model=probe_model(ipeps, so, bo))
    vs = {s: np.array([float(m[f"s|{s}|{i}"]) * ns for i in range(len(ops))]) for s, ops in site_ops.items()}
    vb = {b: np.array([float(m[f"b|{b}|{i}"]) * nb for i in range(len(ops))]) for b, ops in bond_ops.items()}
    return vs, vb


def converge(ipeps, probe, tol, max_calls=8):
    """renormalize until probe() moves by less than tol; returns (last probe, residual, calls)"""
    ipeps.renormalize()
    last = probe()
    res = float("inf")
    for n in range(2, max_calls + 1):
        ipeps.renormalize()
        cur = probe()
        res = float(np.max(np.abs(cur - last))) if np.all(np.isfinite(cur)) else float("inf")
        last = cur
        if res < tol:
            return last, res, n
    return last, res, max_calls


def hermitian_basis(n, cplx):
    """operators whose expectation values determine the Hermitian (real: symmetric) part of a density matrix"""
    ops, where = [], []
    for i in range(n):
        for j in range(i, n):
            m = np.zeros((n, n), complex)
            m[i, j] = m[j, i] = 1.0
            ops.append(m), where.append((i, j, "re"))
            if cplx and j > i:
                m = np.zeros((n, n), complex)
                m[i, j], m[j, i] = -1j, 1j
                ops.append(m), where.append((i, j, "im"))
    return [o if cplx else o.real for o in ops], where


def assemble(vals, where, n):
    """density matrix rho with tr(rho O_k) = vals[k]"""
    rho = np.zeros((n, n), complex)
    for v, (i, j, part) in zip(vals, where):
        if part == "re":
            if i == j:
                rho[i, i] += v
            else:
                rho[i, j] += v / 2
                rho[j, i] += v / 2
        else:
            # tr(rho O) = -1j rho[j,i] + 1j rho[i,j] = -2 Im rho[i,j]
            rho[i, j] += -0.5j * v
            rho[j, i] += 0.5j * v
    return rho


def tomography(ipeps):
    """density matrices of all sites and bonds as seen through measure()"""
    d = ipeps.dims["phys"]
    cplx = ipeps.dtype.is_complex
    o1, w1 = hermitian_basis(d, cplx)
    o2, w2 = hermitian_basis(d * d, cplx)
    bonds = [key3(b) for b in ipeps.bond_list]
    vs, vb = expectations(ipeps, {tuple(s): o1 for s in ipeps.site_list}, {b: o2 for b in bonds})
    return ({s: assemble(v, w1, d) for s, v in vs.items()}, {b: assemble(v, w2, d * d) for b, v in vb.items()})


def marginals(rho, d):
    t = rho.reshape(d, d, d, d)
    return np.einsum("abcb->ac", t), np.einsum("abac->bc", t)


def npy(t):
    """numpy array of a tensor, however it is stored"""
    return t.detach().cpu().resolve_conj().resolve_neg().numpy()
