"""Random histories of operations on Ipeps objects, replayable with their own random numbers."""
import numpy as np
import torch
from vlib import api, states


def snapshot(tn):
    """everything a network holds, as detached numpy copies"""
    return {
        "tensors": {tuple(s): {"A": api.npy(tn[s]["A"]).copy(), "C": [api.npy(t).copy() for t in tn[s]["C"]], "E": [api.npy(t).copy() for t in tn[s]["E"]]}
                    for s in tn.site_list},
        "sites": [tuple(s) for s in tn.site_list],
        "bonds": [api.key3(b) for b in tn.bond_list],
        "dims": dict(tn.dims),
        "cell": (tn.nx, tn.ny),
        "dtype": str(tn.dtype),
    }


def differences(a, b, what=("tensors", "sites", "bonds", "dims", "cell", "dtype")):
    """names of the parts in which two snapshots differ (bitwise)"""
    out = []
    for key in what:
        if key != "tensors":
            if a[key] != b[key]:
                out.append(f"{key}: {a[key]} / {b[key]}")
            continue
        if set(a["tensors"]) != set(b["tensors"]):
            out.append("set of sites")
            continue
        for s in a["tensors"]:
            x, y = a["tensors"][s], b["tensors"][s]
            if not same(x["A"], y["A"]):
                out.append(f"A of {s}")
            for k in "CE":
                for i, (p, q) in enumerate(zip(x[k], y[k])):
                    if not same(p, q):
                        out.append(f"{k}[{i}] of {s}")
                if len(x[k]) != len(y[k]):
                    out.append(f"number of {k} of {s}")
    return out


def same(x, y):
    return x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True)


def model_class(i):
    """custom model classes whose answers depend on their parameters"""
    from acetn.model.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    class Custom(Model):
        def one_site_observables(self, site):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return {"m": Z * (1.0 + 0.25 * i) + X * 0.5}

        def two_site_observables(self, bond):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return {"zz": Z * Z}

        def one_site_hamiltonian(self, site):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return X * (-self.params.get("a")) - Z * (0.1 * i + 0.05 * site[0])

        def two_site_hamiltonian(self, bond):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return Z * Z * (-self.params.get("b")) + X * X * (0.2 * i)

        def initial_site_state(self, site):
            return [1.0, 0.3 * (i + 1) + 0.1 * (site[0] - site[1])]
    Custom.__name__ = f"Custom{i}"
    return Custom


_CLASSES = {}


def weighted_class():
    """one model class whose instances differ in an attribute only"""
    if not _CLASSES:
        from acetn.model.pauli_matrix import pauli_matrices

        class Weighted(model_class(1)):
            weight = 1.0

            def one_site_observables(self, site):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return {"m": Z * self.weight + X * 0.5}

            def one_site_hamiltonian(self, site):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return X * (-self.weight)

            def two_site_hamiltonian(self, bond):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return Z * Z * (-1.0) + X * X * (0.3 * self.weight)
        _CLASSES["weighted"] = Weighted
    return _CLASSES["weighted"]


def random_config(rng, update=None, dtype=None, cell=None, D=None, chi=None):
    nx, ny = cell or [(2, 2), (2, 2), (3, 2), (2, 3)][int(rng.integers(4))]
    kind = int(rng.integers(3))
    model = [{"name": "ising", "params": {"jz": 1.0, "hx": float(rng.uniform(0.5, 3))}},
             {"name": "heisenberg", "params": {"J": float(rng.uniform(0.5, 1.5))}},
             {"name": "ising", "params": {"jz": float(rng.uniform(0.5, 2)), "hx": 0.7}}][kind]
    return api.config(nx, ny, int(rng.integers(1, 3)) if D is None else D, int(rng.integers(4, 9)) if chi is None else chi, 2,
                      dtype or str(rng.choice(["float64", "complex128"])), int(rng.integers(1, 4)),
                      ctmrg={"projectors": str(rng.choice(["half-system", "full-system"])), "svd_type": str(rng.choice(["rsvd", "full-rank"]))},
                      evolution={"update_type": update or str(rng.choice(["full", "simple"])), "use_gauge_fix": bool(rng.integers(2)),
                                 "als_niter": 20}, model=model)


def random_op(rng, kinds=("renormalize", "evolve", "evolve", "measure", "set_chi", "set_model", "set_model_params", "perturb")):
    k = str(rng.choice(list(kinds)))
    op = {"op": k, "seed": int(rng.integers(2 ** 31))}
    if k == "evolve":
        op.update(dtau=float(rng.uniform(0.01, 0.1)), steps=int(rng.integers(1, 4)))
    elif k == "set_chi":
        op.update(chi=int(rng.integers(4, 10)))
    elif k == "set_model":
        op.update(cls=int(rng.integers(3)), params={"a": float(rng.uniform(0.2, 2)), "b": float(rng.uniform(0.2, 2))},
                  name=[None, "mine", "Other"][int(rng.integers(3))])
    elif k == "set_model_params":
        op.update(params={str(rng.choice(["a", "b", "hx", "jz", "J"])): float(rng.uniform(0.2, 2))})
    return op


def apply(ip, op):
    """run one operation with its own random numbers; returns what it answered"""
    torch.manual_seed(op["seed"])
    k = op["op"]
    if k == "renormalize":
        ip.renormalize()
    elif k == "evolve":
        ip.evolve(op["dtau"], op["steps"])
    elif k == "measure":
        return {n: float(v) for n, v in ip.measure().items()}
    elif k == "set_chi":
        ip.set_chi(op["chi"])
    elif k == "set_model":
        ip.set_model(model_class(op["cls"]), dict(op["params"]), *([op["name"]] if op["name"] else []))
    elif k == "set_model_params":
        ip.set_model_params(**op["params"])
    elif k == "perturb":
        rng = np.random.default_rng(op["seed"])
        cplx = ip.dtype.is_complex
        for s in ip.site_list:
            a = api.npy(ip[s]["A"])
            ip[s]["A"] = api.to_torch(a + 0.02 * np.abs(a).max() * states.randn(rng, a.shape, cplx), ip.dtype)
    return None


def probe(ip):
    """numbers that characterize state, boundary and model"""
    return {n: float(v) for n, v in ip.measure().items()}


def close(a, b, tol=1e-8):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol * (1 + abs(a[k])) for k in a)
