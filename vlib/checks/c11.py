"""C11: a truncating bond update is near-optimal and local."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: each executed bond update scored against an independent optimizer (full) or an independent numpy update (simple), all other tensors and weights watched for changes"
LEVEL_NOTE = ("Held on the executed bond updates. The full update is scored by its overlap with the gate-applied pair in the boundary "
              "tensors present at the time; the simple update is compared element by element (up to scale and bond gauge).")
RULE = ("Random short-correlated states with random bond gauges on random cells, random two-site gates strong enough to force a "
        "truncation (or weak enough not to), every bond and direction, D=2,3, d=2,3; sequences of simple updates with weights carried "
        "along; non-trivial when the gate truncates; distinct by seed.")
ASSUMPTIONS = ["boundary tensors are converged, so that the bond environment is positive up to rounding"]
MIN_NONTRIVIAL = 20
REQUIRED_EVENTS = ("full_updates", "simple_updates", "right_bonds", "up_bonds", "truncating", "other_tensors_watched", "weights_watched")
BUDGET = {"quick": 200, "thorough": 1500}
CELLS = [(2, 2), (2, 2), (3, 2), (2, 3), (3, 3)]


def cases(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 900):
        d, D = [(2, 2), (2, 2), (2, 3), (3, 2)][int(rng.integers(4))]
        out.append({"kind": ["full", "simple"][i % 2], "cell": list(states.cell(rng, CELLS)), "D": D, "d": d,
                    "dtype": ["float64", "complex128"][int(rng.integers(2))], "gauge_fix": bool(rng.uniform() < 0.5),
                    "als_method": str(rng.choice(["cholesky", "pinv"])), "tau": float(10 ** rng.uniform(-2.5, 0)) * float(rng.choice([1, 1, -1])),
                    "local": bool(rng.uniform() < 0.5), "seed": int(rng.integers(2 ** 31))})
    return out


def frame(a, k):
    """legs permuted so that the bond is the left leg of the first and the right leg of the second tensor"""
    return a.transpose([(i + k) % 4 for i in range(4)] + [4])


def pair(a1, a2, k):
    """amplitude of two neighbours as a matrix (outer legs, physical legs)"""
    D, d = a1.shape[0], a1.shape[4]
    t = np.einsum("aurdp,LUaDq->urdLUDpq", frame(a1, k), frame(a2, k), optimize=True)
    return t.reshape(-1, d * d)


def metric(ip, b):
    """environment of the bond as a matrix between the outer legs of ket and bra"""
    s1, s2, k = api.key3(b)
    C = lambda s, i: api.npy(ip[s]["C"][(k + i) % 4])
    E = lambda s, i: api.npy(ip[s]["E"][(k + i) % 4])
    right = np.einsum("abuU,bc,cdrR,de,efgG->auUrRgGf", E(s1, 0), C(s1, 1), E(s1, 1), C(s1, 2), E(s1, 2), optimize=True)
    left = np.einsum("abgG,bc,cdlL,de,efuU->agGlLuUf", E(s2, 2), C(s2, 3), E(s2, 3), C(s2, 0), E(s2, 0), optimize=True)
    G = np.einsum("auUrRgGf,fxXlLyYa->urglyxURGLYX", right, left, optimize=True)
    n = int(round(np.sqrt(G.size)))
    G = G.reshape(n, n)
    t = np.trace(G)
    return G * (t.conjugate() / abs(t))     # boundary tensors are determined up to a phase only


def overlap(X, Y, G):
    """<X|Y>: ket legs are the first index of G"""
    return np.einsum("ip,jp,ij->", Y, X.conj(), G, optimize=True)


def infidelity(X, Y, G):
    xx, yy, xy = overlap(X, X, G).real, overlap(Y, Y, G).real, overlap(X, Y, G)
    return 1 - abs(xy) ** 2 / (xx * yy)


class Reduced:
    """the same problem restricted to the tensors the bond update may reach, with an own optimizer"""

    def __init__(self, a1, a2, b, G, gate):
        k = b.k
        D, d = a1.shape[0], a1.shape[4]
        self.k, self.D, self.d = k, D, d
        f1 = frame(a1, k).transpose(1, 2, 3, 0, 4).reshape(D ** 3, D * d)
        f2 = frame(a2, k).transpose(0, 1, 3, 2, 4).reshape(D ** 3, D * d)
        self.q1, r1 = np.linalg.qr(f1)
        self.q2, r2 = np.linalg.qr(f2)
        self.n = self.q1.shape[1]
        g = G.reshape((D ** 3,) * 4)
        N = np.einsum("abAB,ay,bx,AY,BX->yxYX", g, self.q1, self.q2, self.q1.conj(), self.q2.conj(), optimize=True)
        n = self.n
        M = N.reshape(n * n, n * n)
        self.asym = np.abs(M - M.conj().T).max() / np.abs(M).max()
        w, v = np.linalg.eigh((M + M.conj().T) / 2)
        self.neg = -w[0] / w[-1]
        self.M = (v * np.clip(w, 0, None)) @ v.conj().T
        self.N = self.M.reshape(n, n, n, n)
        t = np.einsum("yap,xaq->yxpq", r1.reshape(n, D, d), r2.reshape(n, D, d))
        self.t = np.einsum("yxpq,rspq->yxrs", t, gate)

    def pieces(self, a1, a2):
        """reduced tensors of a candidate pair, and how much of it lies outside the reachable space"""
        D, d, k = self.D, self.d, self.k
        f1 = frame(a1, k).transpose(1, 2, 3, 0, 4).reshape(D ** 3, D * d)
        f2 = frame(a2, k).transpose(0, 1, 3, 2, 4).reshape(D ** 3, D * d)
        r1, r2 = self.q1.conj().T @ f1, self.q2.conj().T @ f2
        out = max(np.linalg.norm(f1 - self.q1 @ r1) / np.linalg.norm(f1), np.linalg.norm(f2 - self.q2 @ r2) / np.linalg.norm(f2))
        return r1.reshape(-1, D, d), r2.reshape(-1, D, d), out

    def inf(self, x):
        n, d = self.n, self.d
        X, Y = x.reshape(n * n, d * d), self.t.reshape(n * n, d * d)
        xx = np.einsum("ip,jp,ij->", X, X.conj(), self.M).real
        yy = np.einsum("ip,jp,ij->", Y, Y.conj(), self.M).real
        xy = np.einsum("ip,jp,ij->", Y, X.conj(), self.M)
        return 1 - abs(xy) ** 2 / (xx * yy)

    def svd(self):
        n, d, D = self.n, self.d, self.D
        U, s, V = np.linalg.svd(self.t.transpose(0, 2, 1, 3).reshape(n * d, n * d))
        a = (U[:, :D] * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
        b = (V[:D].T * np.sqrt(s[:D])).reshape(n, d, D).transpose(0, 2, 1)
        return a, b, s

    def sweep(self, a, b):
        n, d, D = self.n, self.d, self.D
        T = np.einsum("yxYX,yxpq->YXpq", self.N, self.t)
        R = np.einsum("yxYX,xuq,XUq->YUyu", self.N, b, b.conj(), optimize=True).reshape(n * D, n * D)
        a = np.linalg.lstsq(R, np.einsum("YXpq,XUq->YUp", T, b.conj()).reshape(n * D, d), rcond=1e-13)[0].reshape(n, D, d)
        R = np.einsum("yxYX,yup,YUp->XUxu", self.N, a, a.conj(), optimize=True).reshape(n * D, n * D)
        b = np.linalg.lstsq(R, np.einsum("YXpq,YUp->XUq", T, a.conj()).reshape(n * D, d), rcond=1e-13)[0].reshape(n, D, d)
        return a, b

    def join(self, a, b):
        return np.einsum("yup,xuq->yxpq", a, b)


def unit(x):
    return x / np.linalg.norm(x)


def same_ray(x, y):
    """distance of two arrays up to a complex factor"""
    x, y = unit(x.ravel()), unit(y.ravel())
    z = np.vdot(y, x)
    return np.linalg.norm(x - (z / max(abs(z), 1e-30)) * y)


def run_case(case):
    from acetn.evolution.gate import Gate
    from acetn.evolution.evolve import create_tensor_updater
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    D, d = case["D"], case["d"]
    cplx = api.is_complex(case["dtype"])
    full = case["kind"] == "full"
    ip = api.new(api.config(nx, ny, D, 12 if D == 2 else 14, d, case["dtype"], 14, ctmrg={"svd_type": "full-rank"},
                            evolution={"update_type": case["kind"], "use_gauge_fix": case["gauge_fix"], "als_method": case["als_method"]}))
    A, ratio = states.short_state(rng, nx, ny, D, d, cplx, 0.35 if D == 2 else 0.25, 0.3)
    A = states.normalized(states.apply_gauges(A, nx, ny, rng, cplx, 0.3))
    api.set_state(ip, A)
    bonds = [b for b in ip.bond_list]
    H2 = {api.key3(b): states.hermitian(rng, d * d, cplx) for b in bonds}
    H1 = {tuple(s): states.hermitian(rng, d, cplx) if case["local"] else None for s in ip.site_list}
    model = api.probe_model(ip, {}, {}, lambda s: H1[tuple(s)], lambda b: H2[api.key3(b)])
    gate = Gate(model, case["tau"], ip.bond_list, ip.site_list)
    upd = create_tensor_updater(ip, gate, ip.config.evolution)
    with torch.inference_mode():
        (run_full if full else run_simple)(r, case, rng, ip, bonds, gate, upd)
    r.fingerprint = str(case)
    return r


def watch(r, ip, b, before, tag):
    """only the two tensors of the bond may have been replaced"""
    for s in ip.site_list:
        if tuple(s) in (tuple(b.s1), tuple(b.s2)):
            continue
        same = torch.equal(ip[s]["A"], before[tuple(s)])
        r.count("other_tensors_watched")
        r.check(same, "locality", f"tensor of site {s} changed by the update of bond {tuple(b)}; {tag}")


def run_full(r, case, rng, ip, bonds, gate, upd):
    k0 = int(rng.integers(len(bonds)))
    order = [bonds[k0], bonds[(k0 + 1 + int(rng.integers(len(bonds) - 1))) % len(bonds)]]
    for b in order[:1] + [x for x in order[1:] if x.k != order[0].k]:
        ip.renormalize()
        s1, s2, k = api.key3(b)
        tag = f"bond {s1}-{s2} (k={k}), D={case['D']}, d={case['d']}, {case['dtype']}, tau={case['tau']:.3g}, gauge_fix={case['gauge_fix']}, {case['als_method']}"
        before = {tuple(s): ip[s]["A"].clone() for s in ip.site_list}
        a1, a2 = api.npy(before[s1]), api.npy(before[s2])
        g = api.npy(gate[b])
        G = metric(ip, b)
        red = Reduced(a1, a2, b, G, g)
        held = {s: ip[s]["A"] for s in ip.site_list}
        upd.bond_update(b)
        r.count("full_updates")
        r.count("right_bonds" if k == 2 else "up_bonds")
        watch(r, ip, b, before, tag)
        for s in ip.site_list:
            r.check(torch.equal(held[s], before[tuple(s)]), "in-place", f"the old tensor of site {s} was overwritten in place; {tag}")
        n1, n2 = api.npy(ip[s1]["A"]), api.npy(ip[s2]["A"])
        r.close([np.linalg.norm(n1), np.linalg.norm(n2)], [1, 1], 1e-9, "normalized", f"norm of the updated tensors; {tag}")
        x, y, out = red.pieces(n1, n2)
        r.le(out, 1e-7, "span", f"updated tensors leave the space spanned by the old ones and the bond legs; {tag}")
        got = red.inf(red.join(x, y))
        # the overlap computed without any reduction agrees with the reduced one
        Y = np.einsum("ipq,rspq->irs", pair(a1, a2, k).reshape(-1, case["d"], case["d"]), g).reshape(-1, case["d"] ** 2)
        direct = infidelity(pair(n1, n2, k), Y, G)
        noise = 10 * (red.asym + max(red.neg, 0)) + 1e-10
        r.close(direct, got, 2 * noise + 1e-9, "oracle-consistency", f"full and reduced overlap differ; {tag}")
        u, v, s = red.svd()
        plain = red.inf(red.join(u, v))
        r.le(got, plain * (1 + 1e-6) + noise, "not-worse-than-svd", f"infidelity {got:.3e} of the full update against plain truncation {plain:.3e}; {tag}")
        # re-optimizing either tensor gains next to nothing
        p, q = x, y
        best = got
        for i in range(3):
            p, q = red.sweep(p, q)
        after = red.inf(red.join(p, q))
        r.le(got - after, 0.02 * after + noise, "stationary", f"three sweeps of an independent optimizer lower the infidelity from {got:.3e} to {after:.3e}; {tag}")
        for i in range(200):
            u, v = red.sweep(u, v)
        opt = red.inf(red.join(u, v))
        r.le(got, 1.3 * opt + noise, "near-optimal", f"infidelity {got:.3e}, an independent optimizer from the same start reaches {opt:.3e}; {tag}")
        trunc = s[case["D"]:].max(initial=0) / s[0]
        r.count("truncating", trunc > 1e-4)
        r.nontrivial |= bool(trunc > 1e-4)
        r.sample = {"bond": [s1, s2, k], "plain": plain, "got": got, "optimum": opt, "discarded": trunc}


def run_simple(r, case, rng, ip, bonds, gate, upd):
    D, d = case["D"], case["d"]
    bonds = [b for b in bonds]
    ref = {api.key3(b): np.ones(D) for b in bonds}
    legs = {}
    for b in bonds:
        s1, s2, k = api.key3(b)
        legs[(s1, k)] = legs[(s2, (k + 2) % 4)] = (s1, s2, k)
    seen = set()
    seq = [bonds[int(i)] for i in rng.integers(0, len(bonds), 6)] + [bonds[i] for i in rng.permutation(len(bonds))[:6]]
    env = api.clone_env(ip)
    for b in seq:
        s1, s2, k = api.key3(b)
        tag = f"bond {s1}-{s2} (k={k}), D={D}, d={d}, {case['dtype']}, tau={case['tau']:.3g}, after {sorted(seen)[:3]}"
        before = {tuple(s): ip[s]["A"].clone() for s in ip.site_list}
        a1, a2, g = api.npy(before[s1]), api.npy(before[s2]), api.npy(gate[b])
        weights = {x: api.npy(upd.lambda_tensors[bb]).copy() for bb in bonds for x in [api.key3(bb)]}

        def scaled(a, s, skip, power):
            for leg in range(4):
                if leg != skip:
                    w = ref[legs[(s, leg)]] ** power
                    a = a * w.reshape([-1 if i == leg else 1 for i in range(5)])
            return a
        w1, w2 = scaled(a1, s1, k, 1), scaled(a2, s2, (k + 2) % 4, 1)
        th = np.einsum("aurdp,LUaDq->urdpLUDq", frame(w1, k), frame(w2, k), optimize=True)
        th = np.einsum("urdpLUDq,stpq->urdsLUDt", th, g, optimize=True)
        m = th.reshape(D ** 3 * d, D ** 3 * d)
        U, S, V = np.linalg.svd(m, full_matrices=False)
        lam = np.sqrt(S[:D] / np.linalg.norm(S[:D]))
        best = ((U[:, :D] * S[:D]) @ V[:D]).reshape(th.shape)
        upd.bond_update(b)
        r.count("simple_updates")
        r.count("right_bonds" if k == 2 else "up_bonds")
        watch(r, ip, b, before, tag)
        n1, n2 = api.npy(ip[s1]["A"]), api.npy(ip[s2]["A"])
        v1, v2 = scaled(n1, s1, k, 1), scaled(n2, s2, (k + 2) % 4, 1)
        got = np.einsum("aurdp,LUaDq->urdpLUDq", frame(v1, k), frame(v2, k), optimize=True)
        gap = (S[D - 1] - S[D]) / S[0] if len(S) > D else 1
        if gap > 1e-6:
            r.le(same_ray(got, best), 1e-9 / min(1, gap), "simple-truncation", f"weighted pair differs from the best rank-{D} approximation; {tag}")
            r.close(np.sort(api.npy(upd.lambda_tensors[b]).real)[::-1], lam, 1e-9, "simple-weights", f"new bond weights; {tag}")
        # both tensors carry the square root of the weights on the bond leg
        f1 = frame(v1, k).transpose(1, 2, 3, 4, 0).reshape(-1, D)
        f2 = frame(v2, k).transpose(0, 1, 3, 4, 2).reshape(-1, D)
        for f, which in ((f1, "first"), (f2, "second")):
            gram = f.conj().T @ f
            r.close(gram / np.trace(gram).real, np.diag(lam ** 2) / np.sum(lam ** 2), 1e-8, "simple-canonical", f"{which} tensor: weights on the bond leg; {tag}")
        ref[(s1, s2, k)] = np.abs(api.npy(upd.lambda_tensors[b]).real)
        for bb in bonds:
            if api.key3(bb) != (s1, s2, k):
                r.count("weights_watched")
                r.check(np.array_equal(api.npy(upd.lambda_tensors[bb]), weights[api.key3(bb)]), "weights-locality",
                        f"weights of bond {tuple(bb)} changed; {tag}")
        seen.add((s1, s2, k))
        trunc = S[D] / S[0] if len(S) > D else 0
        r.count("truncating", trunc > 1e-4)
        r.nontrivial |= bool(trunc > 1e-4)
        r.sample = {"bond": [s1, s2, k], "weights": lam, "discarded": trunc}
    now = api.clone_env(ip)
    for s in ip.site_list:
        same = all(torch.equal(x, y) for key in "CE" for x, y in zip(env[s][key], now[s][key]))
        r.check(same, "boundary-untouched", f"the simple update changed boundary tensors of site {s}")
