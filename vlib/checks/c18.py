"""C18: Pauli operator algebra represents the true operators."""
import numpy as np
import torch
from vlib import api
from vlib.core import Result

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: random operator expressions evaluated step by step next to an exact complex matrix evaluation, with every operand compared before and after each step"
LEVEL_NOTE = "Held on the executed expressions; integer and dyadic coefficients must agree exactly, others to rounding."
RULE = ("Random expression trees over X, Y, Z, I of up to four factors with tensor products, sums, differences, negation, scaling by int, float, "
        "complex and numpy numbers from both sides, division and augmented assignment, in four dtypes; in real dtypes the number of Y factors "
        "is even or odd throughout each sum, and operators with an even number are compared; non-trivial with at least three operations; "
        "distinct by the expression.")
ASSUMPTIONS = ["in real dtypes only operators that are real can be represented; sums mixing even and odd numbers of Y factors are not formed"]
MIN_NONTRIVIAL = 100
REQUIRED_EVENTS = ("kron", "add", "sub", "neg", "left_scale", "right_scale", "div", "imul", "iadd", "real_even_products", "real_odd_pairs", "complex_dtype", "real_dtype",
                   "exact", "basis_relations")
BUDGET = {"quick": 200, "thorough": 900}
P = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex), "I": np.eye(2, dtype=complex)}


def cases(rng, tier):
    dts = ["float64", "complex128", "float32", "complex64"]
    return [{"kind": "expressions", "dtype": dts[i % 4], "exact": bool(rng.uniform() < 0.5), "number": 40, "seed": int(rng.integers(2 ** 31))}
            for i in range(480 if tier == "quick" else 4000)]


class Node:
    """an operator of the code with the true matrix, its magnitude and the parity of its Y factors"""
    def __init__(self, op, mat, parity, text, ops, big):
        self.op, self.mat, self.parity, self.text, self.ops, self.big = op, mat, parity, text, ops, big

    def real(self):
        return np.abs(self.mat.imag).max() == 0


class World:
    def __init__(self, r, rng, dtype, exact):
        from acetn.model.pauli_matrix import pauli_matrices
        self.r, self.rng, self.exact = r, rng, exact
        self.dtype, self.cplx = api.tdtype(dtype), dtype.startswith("complex")
        self.eps = api.eps_of(dtype)
        self.base = dict(zip("XYZI", pauli_matrices(self.dtype, torch.device("cpu"))))
        self.watched = []

    def watch(self, op):
        self.watched.append((op, mat(op).copy(), op.key if hasattr(op, "key") else None))

    def intact(self, text):
        for op, m, key in self.watched:
            now = mat(op)
            self.r.check(now.shape == m.shape and np.array_equal(now, m) and now.dtype == m.dtype, "operand",
                         f"an operand changed from {m.tolist()} to {now.tolist()} by {text}")

    def compare(self, node, what):
        m = mat(node.op)
        tag = f"{what}: {node.text}, {self.dtype}"
        self.r.check(m.shape == node.mat.shape, "shape", f"shape {m.shape} instead of {node.mat.shape}; {tag}")
        t = node.op.mat if hasattr(node.op, "mat") else node.op
        self.r.check(t.dtype == self.dtype, "dtype", f"dtype {t.dtype}; {tag}")
        if not self.cplx and node.parity:
            return
        want = node.mat
        if not self.cplx:
            if not self.r.check(node.real(), "oracle", f"even operator not real; {tag}"):
                return
            want = want.real
        if self.exact:
            self.r.count("exact")
            self.r.check(np.array_equal(m, want.astype(m.dtype)), "value", f"{m.tolist()} instead of {want.tolist()}; {tag}")
        else:
            self.r.close(m, want, 20 * (node.ops + 1) * self.eps * max(node.big, 1e-30), "value", f"entries; {tag}")

    def number(self):
        rng = self.rng
        if self.exact:
            v = float(rng.choice([2, -1, 3, 0.5, -0.25, 4, 1.5]))
            k = int(rng.integers(4))
            if k == 0 and v == int(v):
                return int(v)
            if k == 1:
                return np.float64(v)
            if k == 2 and self.cplx:
                return complex(v, float(rng.choice([0, 1, -0.5])))
            return v
        v = float(rng.standard_normal() * 10.0 ** rng.integers(-3, 4))
        if self.cplx and rng.uniform() < 0.4:
            return complex(v, float(rng.standard_normal()))
        return v if rng.uniform() < 0.7 else np.float64(v)

    def leaf(self):
        k = "XYZI"[int(self.rng.integers(4))]
        return Node(self.base[k], P[k], k == "Y", k, 0, 1.0)

    def build(self, factors, depth, parity=None):
        """a random operator on the given number of factors (and, in real dtypes, parity)"""
        rng, r = self.rng, self.r
        for _ in range(200):
            node = self.grow(factors, depth, parity)
            if node is not None and (parity is None or self.cplx or node.parity == parity):
                return node
        return None

    def grow(self, factors, depth, parity):
        rng, r = self.rng, self.r
        choice = rng.uniform()
        if factors == 1 and (depth == 0 or choice < 0.3):
            return self.leaf()
        if factors > 1 and (depth == 0 or choice < 0.4):
            k = int(rng.integers(1, factors))
            a = self.build(k, max(depth - 1, 0))
            b = self.build(factors - k, max(depth - 1, 0))
            return self.kron(a, b)
        a = self.build(factors, depth - 1, parity)
        if a is None:
            return None
        what = str(rng.choice(["add", "add", "sub", "neg", "left_scale", "right_scale", "div", "iadd", "isub", "imul", "idiv"]))
        if what in ("add", "sub", "iadd", "isub"):
            b = self.build(factors, depth - 1, None if self.cplx else a.parity)
            if b is None:
                return None
            return self.step(what, a, b)
        return self.step(what, a, None)

    def kron(self, a, b):
        if a is None or b is None:
            return None
        if not self.cplx:
            if a.parity and b.parity:
                self.r.count("real_odd_pairs")
            if a.parity == b.parity:
                self.r.count("real_even_products")
        op = a.op * b.op
        self.r.count("kron")
        return self.result(op, np.kron(a.mat, b.mat), a.parity != b.parity, f"({a.text}*{b.text})", a.ops + b.ops + 1, a.big * b.big, (a, b))

    def step(self, what, a, b):
        self.r.count(what)
        if what in ("add", "iadd"):
            op = a.op
            if what == "iadd":
                op += b.op
            else:
                op = a.op + b.op
            return self.result(op, a.mat + b.mat, a.parity or b.parity, f"({a.text} {'+=' if what == 'iadd' else '+'} {b.text})", a.ops + b.ops + 1, a.big + b.big, (a, b))
        if what in ("sub", "isub"):
            op = a.op
            if what == "isub":
                op -= b.op
            else:
                op = a.op - b.op
            return self.result(op, a.mat - b.mat, a.parity or b.parity, f"({a.text} {'-=' if what == 'isub' else '-'} {b.text})", a.ops + b.ops + 1, a.big + b.big, (a, b))
        if what == "neg":
            return self.result(-a.op, -a.mat, a.parity, f"(-{a.text})", a.ops + 1, a.big, (a,))
        c = self.number()
        if what in ("div", "idiv"):
            if self.exact:
                c = type(c)(2.0) if not isinstance(c, complex) else 2.0
            op = a.op
            if what == "idiv":
                op /= c
            else:
                op = a.op / c
            return self.result(op, a.mat / c, a.parity, f"({a.text}/{c})", a.ops + 1, a.big / abs(c), (a,))
        op = a.op
        if what == "imul":
            op *= c
        elif what == "left_scale":
            op = c * a.op
        else:
            op = a.op * c
        return self.result(op, c * a.mat, a.parity, f"({c}*{a.text})" if what == "left_scale" else f"({a.text}*{c})", a.ops + 1, a.big * abs(c), (a,))

    def result(self, op, m, parity, text, ops, big, operands):
        node = Node(op, m, bool(parity), text, ops, big)
        from acetn.model.pauli_matrix import PauliMatrix
        self.r.check(isinstance(op, PauliMatrix), "type", f"{type(op).__name__} from {text}")
        for o in operands:
            if hasattr(op, "mat"):
                self.r.check(op is not o.op and op.mat.untyped_storage().data_ptr() != o.op.mat.untyped_storage().data_ptr(), "operand",
                             f"the result of {text} shares its matrix with an operand")
        self.compare(node, "expression")
        self.watch(op)
        return node


def mat(op):
    return api.npy(op.mat if hasattr(op, "mat") else op)


def run_case(case):
    from acetn.model.pauli_matrix import pauli_matrices, PauliMatrix
    r = Result()
    rng = np.random.default_rng(case["seed"])
    deep, texts = 0, []
    for _ in range(case["number"]):
        w = World(r, rng, case["dtype"], case["exact"])
        for k, op in w.base.items():
            w.watch(op)
        node = w.build(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        if node is None:
            continue
        texts.append(node.text)
        deep += node.ops >= 3
        w.intact(node.text)
        # augmented product with another operator
        b = w.build(1, 1)
        if b is not None and node.mat.shape[0] <= 8:
            op = node.op
            op *= b.op
            r.count("imul")
            good = Node(op, np.kron(node.mat, b.mat), node.parity != b.parity, f"({node.text} *= {b.text})", node.ops + b.ops + 1, node.big * b.big)
            w.compare(good, "augmented product")
            w.intact(good.text)
        # each operator keeps its own matrix: changing the result leaves the base operators alone
        if node.ops:
            node.op.mat.mul_(3)
            fresh = dict(zip("XYZI", pauli_matrices(w.dtype, torch.device("cpu"))))
            for k in "XYZI":
                r.check(np.array_equal(mat(w.base[k]), mat(fresh[k])), "operand", f"{k} changed with the result of {node.text}")
    # the base operators themselves and their relations
    dt = api.tdtype(case["dtype"])
    base = dict(zip("XYZI", pauli_matrices(dt, torch.device("cpu"))))
    for k, op in base.items():
        m = mat(op).astype(complex)
        want = P[k] if dt.is_complex or k != "Y" else None
        if want is None:
            # Y is stored without its factor of i; only even products have a meaning
            m2 = mat(op * op)
            r.check(np.array_equal(m2, np.kron(P["Y"], P["Y"]).real), "basis", f"Y*Y is {m2.tolist()} in {dt}")
        else:
            r.check(np.array_equal(m, want), "basis", f"{k} is {m.tolist()} in {dt}")
        own = PauliMatrix(k, dt, torch.device("cpu"))
        r.check(np.array_equal(mat(own), mat(op)), "basis", f"PauliMatrix('{k}') differs from pauli_matrices()")
    r.count("basis_relations")
    other = dict(zip("XYZI", pauli_matrices(dt, torch.device("cpu"))))
    other["Z"].mat.mul_(5)
    r.check(np.array_equal(mat(base["Z"]).astype(complex), P["Z"]), "operand", "two calls of pauli_matrices() share a matrix")
    # the exchange interaction has a sign that real dtypes can get wrong
    X, Y, Z, I = (base[k] for k in "XYZI")
    ev = np.linalg.eigvalsh(mat(X * X + Y * Y + Z * Z))
    r.close(ev, [-3, 1, 1, 1], 50 * api.eps_of(case["dtype"]), "exchange", "spectrum of XX+YY+ZZ")
    ev = np.linalg.eigvalsh(mat((X * I) * (I * X) + (Y * I) * (I * Y) + (I * Z) * (Z * I)))
    w = np.linalg.eigvalsh(sum(np.kron(np.kron(P[a], P["I"]), np.kron(P["I"], P[a])) if a != "Z" else np.kron(np.kron(P["I"], P["Z"]), np.kron(P["Z"], P["I"])) for a in "XYZ"))
    r.close(ev, w, 100 * api.eps_of(case["dtype"]), "exchange", "spectrum of a four-site expression")
    r.count("complex_dtype" if dt.is_complex else "real_dtype")
    r.nontrivial = deep > 0
    r.fingerprint = str(case["seed"])
    r.sample = {"dtype": case["dtype"], "expressions": texts[:4]}
    return r
