"""iPEPS states with independently known expectation values (numpy only).

A state is a dict  site -> A[l,u,r,d,p]  on an nx x ny unit cell;
r of (x,y) is contracted with l of (x+1,y), u of (x,y) with d of (x,y+1).
Every oracle answers  site(site, O)  and  bond(bond, terms)  with
terms = [(O1, O2), ...] acting on (s1, s2), and bond = (s1, s2, k),
k = 2 (s2 = s1 + x) or k = 1 (s2 = s1 + y).
"""
import numpy as np

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def randn(rng, shape, cplx):
    x = rng.standard_normal(shape)
    if cplx:
        x = (x + 1j * rng.standard_normal(shape)) / np.sqrt(2)
    return x


def hermitian(rng, d, cplx):
    m = randn(rng, (d, d), cplx)
    m = (m + m.conj().T) / 2
    return m / np.linalg.norm(m, 2)


def unitary(rng, d, cplx):
    q, r = np.linalg.qr(randn(rng, (d, d), cplx))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def well_conditioned(rng, d, cplx, spread=0.6):
    """invertible matrix with condition number about exp(2*spread)"""
    s = np.exp(rng.uniform(-spread, spread, d))
    return unitary(rng, d, cplx) @ np.diag(s) @ unitary(rng, d, cplx)


def sites_of(nx, ny):
    return [(x, y) for x in range(nx) for y in range(ny)]


def bonds_of(nx, ny):
    out = []
    for x in range(nx):
        for y in range(ny):
            out.append(((x, y), ((x + 1) % nx, y), 2))
            out.append(((x, y), (x, (y + 1) % ny), 1))
    return out


LARGE = [(5, 1), (1, 5), (6, 1), (1, 6), (7, 1), (1, 7), (5, 2), (2, 5), (2, 6), (6, 2), (4, 3), (3, 4), (4, 4), (5, 3), (3, 5)]


def cell(rng, cells, large=0.12):
    """a shape from the list, sometimes a larger one (with sides of one only if the list has such)"""
    if rng.uniform() < large:
        cells = [c for c in LARGE if min(c) >= min(map(min, cells))]
    return tuple(int(v) for v in cells[int(rng.integers(len(cells)))])


def apply_gauges(A, nx, ny, rng, cplx, spread=0.5):
    """insert G G^-1 on every bond of the unit cell: the state does not change"""
    A = {s: a.copy() for s, a in A.items()}
    for s1, s2, k in bonds_of(nx, ny):
        if k == 2:
            D = A[s1].shape[2]
            G = well_conditioned(rng, D, cplx, spread)
            Gi = np.linalg.inv(G)
            A[s1] = np.einsum("lurdp,rx->luxdp", A[s1], G)
            A[s2] = np.einsum("xl,lurdp->xurdp", Gi, A[s2])
        else:
            D = A[s1].shape[1]
            G = well_conditioned(rng, D, cplx, spread)
            Gi = np.linalg.inv(G)
            A[s1] = np.einsum("lurdp,ux->lxrdp", A[s1], G)
            A[s2] = np.einsum("xd,lurdp->lurxp", Gi, A[s2])
    return A


def normalized(A):
    return {s: a / np.linalg.norm(a) for s, a in A.items()}


def reflect_diagonal(A):
    """mirror x <-> y: site (x,y) -> (y,x), left<->down, right<->up"""
    return {(y, x): a.transpose(3, 2, 1, 0, 4) for (x, y), a in A.items()}


class RdmOracle:
    """oracle from exact density matrices rho[ket, bra]"""

    def site(self, site, O):
        return np.trace(self.site_rho(site) @ O).real

    def bond(self, bond, terms):
        rho = self.bond_rho(bond)
        O = sum(np.kron(a, b) for a, b in terms)
        return np.trace(rho @ O).real


# ------------------------------------------------------------------ finite clusters

class ClusterState(RdmOracle):
    """Product over finite clusters; random tensors inside a cluster, rank-1 bonds between clusters.

    active: set of (x, y, k) bonds (k=2: to the right, k=1: up) carrying entanglement.
    """

    def __init__(self, rng, nx, ny, D, d, cplx, max_size=4, density=1.0, rank=None):
        self.nx, self.ny, self.D, self.d = nx, ny, D, d
        self.active = set()
        todo = [(x, y, k) for x in range(nx) for y in range(ny) for k in (1, 2)]
        order = rng.permutation(len(todo))
        if max_size > 1:
            for i in order:
                if rng.uniform() > density:
                    continue
                self.active.add(todo[i])
                if any(self._cluster(s, max_size) is None for s in sites_of(nx, ny)):
                    self.active.discard(todo[i])
        self.core = {}
        self.A = {}
        for (x, y) in sites_of(nx, ny):
            legs = self._legs(x, y)
            r = rank or D
            shape = [r if on else 1 for on in legs] + [d]
            B = randn(rng, shape, cplx)
            self.core[(x, y)] = B
            a = B
            for leg, on in enumerate(legs):
                if on:
                    pad = np.zeros((D, r))
                    pad[:r, :r] = np.eye(r)
                else:
                    # the vectors on both sides of a bond have overlap bounded away from zero
                    v = np.ones(D) + 0.4 * randn(rng, D, cplx)
                    pad = (v / np.linalg.norm(v)).reshape(D, 1)
                a = np.moveaxis(np.tensordot(pad, a, (1, leg)), 0, leg)
            self.A[(x, y)] = a
        self.sizes = sorted(len(self._cluster(s, 10 ** 6)) for s in sites_of(nx, ny))

    def _on(self, x, y, k):
        return (x % self.nx, y % self.ny, k) in self.active

    def _legs(self, x, y):
        return [self._on(x - 1, y, 2), self._on(x, y, 1), self._on(x, y, 2), self._on(x, y - 1, 1)]

    def _cluster(self, site, limit):
        """sites of the infinite lattice connected to site by active bonds, None if more than limit"""
        seen = {site}
        stack = [site]
        while stack:
            x, y = stack.pop()
            on = self._legs(x, y)
            for leg, (dx, dy) in enumerate(((-1, 0), (0, 1), (1, 0), (0, -1))):
                if on[leg]:
                    t = (x + dx, y + dy)
                    if t not in seen:
                        seen.add(t)
                        stack.append(t)
                        if len(seen) > limit:
                            return None
        return seen

    def _psi(self, site):
        """normalized amplitudes of the cluster containing site, and its site order"""
        cl = sorted(self._cluster(site, 64))
        idx = {}
        n = [0]

        def label(key):
            if key not in idx:
                idx[key] = n[0]
                n[0] += 1
            return idx[key]
        args = []
        phys = []
        for (x, y) in cl:
            B = self.core[(x % self.nx, y % self.ny)]
            labs = [label(("h", x - 1, y)), label(("v", x, y)), label(("h", x, y)), label(("v", x, y - 1))]
            p = label(("p", x, y))
            phys.append(p)
            args += [B, labs + [p]]
        psi = np.einsum(*args, phys, optimize="greedy")
        return psi / np.linalg.norm(psi), cl

    def _reduce(self, psi, keep):
        n = psi.ndim
        rest = [i for i in range(n) if i not in keep]
        m = psi.transpose(keep + rest).reshape(self.d ** len(keep), -1)
        return m @ m.conj().T

    def site_rho(self, site):
        psi, cl = self._psi(site)
        return self._reduce(psi, [cl.index(site)])

    def bond_rho(self, bond):
        s1, _, k = bond
        s2 = (s1[0] + 1, s1[1]) if k == 2 else (s1[0], s1[1] + 1)
        psi, cl = self._psi(s1)
        if s2 in cl:
            return self._reduce(psi, [cl.index(s1), cl.index(s2)])
        return np.kron(self.site_rho(s1), self.site_rho((s2[0] % self.nx, s2[1] % self.ny)))


# ------------------------------------------------------------------ infinite strips

class StripState(RdmOracle):
    """Horizontal strips of width w (ny a multiple of w), entangled inside, decoupled from each other.

    A strip is an MPS with unit cell nx whose sites are the columns of the strip; its density matrices
    follow from the dominant eigenvectors of the transfer operator.
    """

    def __init__(self, rng, nx, ny, D, d, cplx, w=1, mix=0.6):
        assert ny % w == 0
        self.nx, self.ny, self.D, self.d, self.w = nx, ny, D, d, w
        self.A, self.core = {}, {}
        for x, y in sites_of(nx, ny):
            up = (y % w) < w - 1
            dn = (y % w) > 0
            shape = [D, D if up else 1, D, D if dn else 1, d]
            # dominant product part plus random part: finite correlation length
            B = mix * randn(rng, shape, cplx)
            B[0, 0, 0, 0, :] += randn(rng, d, cplx) / 1.0
            B[0, 0, 0, 0, int(rng.integers(d))] += 1.0
            self.core[(x, y)] = B
            a = B
            for leg in (1, 3):
                if a.shape[leg] == 1 and D > 1:
                    v = np.ones(D) + 0.4 * randn(rng, D, cplx)
                    a = np.repeat(a, D, axis=leg) * (v / np.linalg.norm(v)).reshape([D if i == leg else 1 for i in range(5)])
            self.A[(x, y)] = a
        self.M = {}
        for b in range(ny // w):
            for x in range(nx):
                self.M[(x, b)] = self._column(x, b)
        self.L, self.R, self.gap = {}, {}, 0.0
        for b in range(ny // w):
            self._environment(b)

    def _column(self, x, b):
        """M[a, r, P]: a, r composite horizontal legs, P composite physical (lowest row first)"""
        w, D, d = self.w, self.D, self.d
        args = []
        v = list(range(w + 1))
        n = w + 1
        ls, rs, ps = [], [], []
        for i in range(w):
            l, r, p = n, n + 1, n + 2
            n += 3
            ls.append(l), rs.append(r), ps.append(p)
            args += [self.core[(x, b * w + i)], [l, v[i + 1], r, v[i], p]]
        M = np.einsum(*args, ls + rs + ps, optimize="greedy")
        return M.reshape(D ** w, D ** w, d ** w)

    def _environment(self, b):
        nx = self.nx
        Ms = [self.M[(x, b)] for x in range(nx)]
        chi = Ms[0].shape[0]
        T = np.eye(chi * chi)
        for M in Ms:
            t = np.einsum("arp,ASp->aArS", M, M.conj()).reshape(chi * chi, chi * chi)
            T = T @ t
        w, V = np.linalg.eig(T)
        order = np.argsort(-abs(w))
        self.gap = max(self.gap, abs(w[order[1]] / w[order[0]]) if len(w) > 1 else 0.0)
        R = V[:, order[0]].reshape(chi, chi)
        wl, VL = np.linalg.eig(T.T)
        L = VL[:, np.argmax(abs(wl))].reshape(chi, chi)
        # L[x]: everything left of column x; R[x]: everything right of column x
        cur = L
        for x in range(nx):
            self.L[(x, b)] = cur
            cur = np.einsum("aA,arp,ASp->rS", cur, Ms[x], Ms[x].conj())
            cur = cur / np.linalg.norm(cur)
        cur = R
        for x in reversed(range(nx)):
            self.R[(x, b)] = cur
            cur = np.einsum("arp,ASp,rS->aA", Ms[x], Ms[x].conj(), cur)
            cur = cur / np.linalg.norm(cur)

    def _column_rho(self, x, b):
        M = self.M[(x, b)]
        rho = np.einsum("aA,arp,ASq,rS->pq", self.L[(x, b)], M, M.conj(), self.R[(x, b)], optimize=True)
        return rho / np.trace(rho)

    def _trace_to(self, rho, n, keep):
        d = self.d
        rho = rho.reshape([d] * (2 * n))
        rest = [i for i in range(n) if i not in keep]
        labels_k = list(range(n))
        labels_b = list(range(n, 2 * n))
        for i in rest:
            labels_b[i] = labels_k[i]
        out = [labels_k[i] for i in keep] + [labels_b[i] for i in keep]
        return np.einsum(rho, labels_k + labels_b, out).reshape(d ** len(keep), d ** len(keep))

    def site_rho(self, site):
        x, y = site
        b, i = divmod(y, self.w)
        return self._trace_to(self._column_rho(x, b), self.w, [i])

    def bond_rho(self, bond):
        (x, y), s2, k = bond
        b, i = divmod(y, self.w)
        if k == 1:
            if i + 1 < self.w:
                return self._trace_to(self._column_rho(x, b), self.w, [i, i + 1])
            return np.kron(self.site_rho((x, y)), self.site_rho(s2))
        M1 = self.M[(x, b)]
        M2 = self.M[((x + 1) % self.nx, b)]
        R = self.R[((x + 1) % self.nx, b)]
        t = np.einsum("aA,arp,ASq->rSpq", self.L[(x, b)], M1, M1.conj())
        u = np.einsum("arp,ASq,rS->aApq", M2, M2.conj(), R)
        rho = np.einsum("aApq,aAst->psqt", t, u)
        n = self.d ** self.w
        rho = rho.reshape(n * n, n * n)
        rho = rho / np.trace(rho)
        return self._trace_to(rho, 2 * self.w, [i, self.w + i])


class Reflected:
    """the state mirrored at x = y, with the oracle of the original"""

    def __init__(self, base):
        self.base = base
        self.nx, self.ny = base.ny, base.nx
        self.A = reflect_diagonal(base.A)

    def site_rho(self, site):
        return self.base.site_rho(site[::-1])

    def bond_rho(self, bond):
        s1, s2, k = bond
        return self.base.bond_rho((s1[::-1], s2[::-1], {1: 2, 2: 1}[k]))

    def site(self, site, O):
        return self.base.site(site[::-1], O)

    def bond(self, bond, terms):
        s1, s2, k = bond
        return self.base.bond((s1[::-1], s2[::-1], {1: 2, 2: 1}[k]), terms)


# ------------------------------------------------------------------ classical Ising PEPS (Onsager)

class IsingPeps:
    """|psi> = sum_s exp(sum K s s'/2) |s>: <psi|psi> is the partition function of the anisotropic
    square-lattice Ising model; <Z>, <ZZ> are known exactly. Disordered phase."""

    def __init__(self, nx, ny, Kx, Ky):
        self.nx, self.ny = nx, ny
        self.Kx, self.Ky = Kx, Ky
        assert np.sinh(2 * Kx) * np.sinh(2 * Ky) < 1

        def root(K):
            # Q Q^T = exp(K s s' / 2)
            w, v = np.linalg.eigh(np.exp(0.5 * K * np.array([[1, -1], [-1, 1]])))
            return v * np.sqrt(w)
        qx, qy = root(Kx), root(Ky)
        a = np.einsum("pl,pu,pr,pd->lurdp", qx, qy, qx, qy)
        self.A = {s: a.copy() for s in sites_of(nx, ny)}
        self.zz = {2: self._zz(Kx, Ky), 1: self._zz(Ky, Kx)}

    @staticmethod
    def _zz(K1, K2, n=1024):
        """d/dK1 of ln Z per site"""
        th = (np.arange(n) + 0.5) * 2 * np.pi / n
        a = np.cosh(2 * K1) * np.cosh(2 * K2) - np.sinh(2 * K1) * np.cos(th)
        da = 2 * np.sinh(2 * K1) * np.cosh(2 * K2) - 2 * np.cosh(2 * K1) * np.cos(th)
        # int dphi/(2pi) 1/(a - b cos phi) = 1/sqrt(a^2 - b^2)
        return float(np.mean(0.5 * da / np.sqrt(a * a - np.sinh(2 * K2) ** 2)))


# ------------------------------------------------------------------ brute-force strip contraction of a generic state

class PatchOracle:
    """<O> of an arbitrary weakly correlated iPEPS from an infinite strip of W rows around the operator.

    The strip is contracted exactly (transfer operator, power iteration); the rows above and below are
    replaced by a fixed product boundary, whose influence decays exponentially with W. The caller compares
    two widths to bound the remaining error.
    """

    def __init__(self, A, nx, ny, W, iters=24):
        self.A, self.nx, self.ny, self.W, self.iters = A, nx, ny, W, iters
        self.T = {s: self._double(a, None) for s, a in A.items()}
        self._messages()

    @staticmethod
    def _double(a, O):
        D = a.shape
        b = a if O is None else np.einsum("qp,lurdp->lurdq", O, a)
        t = np.einsum("lurdp,LURDp->lLuUrRdD", b, a.conj())
        return t.reshape(D[0] ** 2, D[1] ** 2, D[2] ** 2, D[3] ** 2)

    def _messages(self):
        """belief propagation: msg[(site, leg)] is the mean-field environment entering site through leg.

        It only closes the outside of the patch, the error it makes is bounded by comparing two widths."""
        nx, ny = self.nx, self.ny
        msg = {}
        for s, T in self.T.items():
            for leg in range(4):
                D = int(round(np.sqrt(T.shape[leg])))
                msg[(s, leg)] = np.eye(D).reshape(-1) / D
        step = {0: (-1, 0, 2), 1: (0, 1, 3), 2: (1, 0, 0), 3: (0, -1, 1)}
        for _ in range(60):
            new = {}
            for (x, y), T in self.T.items():
                for leg in range(4):
                    X = T
                    for other in (3, 2, 1, 0):
                        if other != leg:
                            X = np.tensordot(X, msg[((x, y), other)], (other, 0))
                    dx, dy, opp = step[leg]
                    t = ((x + dx) % nx, (y + dy) % ny)
                    new[(t, opp)] = X / np.linalg.norm(X)
            msg = new
        self.msg = msg

    def _apply(self, E, col, x, y0, left=True):
        """push the boundary E[r_1..r_W] through a column of double tensors (lowest row first)"""
        W = len(col)
        bottom = self.msg[((x, y0 % self.ny), 3)]
        top = self.msg[((x, (y0 + W - 1) % self.ny), 1)]
        X = E[None] * bottom.reshape([-1] + [1] * W)   # [v, l_1..l_W]
        for i in range(W):
            T = col[i]
            if left:   # contract l and d, leave u, r
                X = np.tensordot(X, T, ([0, 1], [3, 0]))       # [l_{i+1}.., r_1..r_{i-1}, u, r]
                X = np.moveaxis(X, -2, 0)                      # [u, l_{i+1}.., r_1..r_i]
            else:
                X = np.tensordot(X, T, ([0, 1], [3, 2]))       # [..., l, u]
                X = np.moveaxis(X, -1, 0)
        return np.tensordot(top, X, (0, 0))

    def _cols(self, y0):
        return [[self.T[(x, (y0 + i) % self.ny)] for i in range(self.W)] for x in range(self.nx)]

    def _envs(self, y0):
        if not hasattr(self, "_cache"):
            self._cache = {}
        y0 = y0 % self.ny
        if y0 in self._cache:
            return self._cache[y0]
        cols = self._cols(y0)
        L = self._boundary(0, y0, 0)
        R = self._boundary(self.nx - 1, y0, 2)
        Ls, Rs = {}, {}
        for _ in range(self.iters):
            for x in range(self.nx):
                Ls[x] = L
                L = self._apply(L, cols[x], x, y0)
                L = L / np.linalg.norm(L)
        for _ in range(self.iters):
            for x in reversed(range(self.nx)):
                Rs[x] = R
                R = self._apply(R, cols[x], x, y0, left=False)
                R = R / np.linalg.norm(R)
        self._cache[y0] = (Ls, Rs, cols)
        return Ls, Rs, cols

    def _boundary(self, x, y0, leg):
        E = np.ones(())
        for i in range(self.W):
            E = np.multiply.outer(E, self.msg[((x, (y0 + i) % self.ny), leg)])
        return E

    def site(self, site, O):
        x, y = site
        c = self.W // 2
        Ls, Rs, cols = self._envs(y - c)
        num = list(cols[x])
        num[c] = self._double(self.A[site], O)
        n = np.sum(self._apply(Ls[x], num, x, y - c) * Rs[x])
        dd = np.sum(self._apply(Ls[x], cols[x], x, y - c) * Rs[x])
        return (n / dd).real

    def bond(self, bond, terms):
        s1, s2, k = bond
        x, y = s1
        if k == 1:
            c = (self.W - 1) // 2
            Ls, Rs, cols = self._envs(y - c)
            dd = np.sum(self._apply(Ls[x], cols[x], x, y - c) * Rs[x])
            tot = 0
            for a, b in terms:
                num = list(cols[x])
                num[c] = self._double(self.A[s1], a)
                num[c + 1] = self._double(self.A[s2], b)
                tot += np.sum(self._apply(Ls[x], num, x, y - c) * Rs[x])
            return (tot / dd).real
        c = self.W // 2
        Ls, Rs, cols = self._envs(y - c)
        x2 = (x + 1) % self.nx
        mid = self._apply(Ls[x], cols[x], x, y - c)
        dd = np.sum(self._apply(mid, cols[x2], x2, y - c) * Rs[x2])
        tot = 0
        for a, b in terms:
            n1 = list(cols[x])
            n1[c] = self._double(self.A[s1], a)
            n2 = list(cols[x2])
            n2[c] = self._double(self.A[s2], b)
            tot += np.sum(self._apply(self._apply(Ls[x], n1, x, y - c), n2, x2, y - c) * Rs[x2])
        return (tot / dd).real


def weak_state(rng, nx, ny, D, d, cplx, eps=0.35):
    """generic state with a short correlation length: product part plus noise on every entry,
    damped by eps for every excited leg, so that correlations decay like eps^2 per site"""
    A = {}
    exc = np.array([0.0] + [1.0] * (D - 1))
    n = exc[:, None, None, None] + exc[None, :, None, None] + exc[None, None, :, None] + exc[None, None, None, :]
    for s in sites_of(nx, ny):
        a = randn(rng, (D, D, D, D, d), cplx) * (eps ** n)[..., None] * 0.8
        v = randn(rng, d, cplx)
        v = v / np.linalg.norm(v)
        a[0, 0, 0, 0, :] = v
        A[s] = a
    return A


def correlation_ratio(A, nx, ny, W=2):
    """largest |second / first| eigenvalue per lattice step of transfer operators of strips of W rows/columns"""
    worst = 0.0
    for B, mx, my in ((A, nx, ny), (reflect_diagonal(A), ny, nx)):
        o = PatchOracle(B, mx, my, W)
        for y0 in range(my):
            cols = o._cols(y0)
            dim = int(np.prod([c.shape[0] for c in cols[0]]))
            T = np.zeros((dim, dim), complex)
            eye = np.eye(dim)
            for i in range(dim):
                E = eye[i].reshape([c.shape[0] for c in cols[0]])
                for x in range(mx):
                    E = o._apply(E, cols[x], x, y0)
                T[:, i] = E.reshape(-1)
            w = np.sort(abs(np.linalg.eigvals(T)))[::-1]
            worst = max(worst, (w[1] / w[0]) ** (1.0 / mx) if w[0] > 0 else 1.0)
    return worst


def short_state(rng, nx, ny, D, d, cplx, eps, ratio=0.3, tries=60):
    """weak_state with a correlation length checked independently of CTMRG; (A, ratio)"""
    best = None
    for _ in range(tries):
        A = weak_state(rng, nx, ny, D, d, cplx, eps)
        q = correlation_ratio(A, nx, ny, 2 if D == 2 else 1)
        if q < ratio:
            return A, q
        if best is None or q < best[1]:
            best = (A, q)
        eps *= 0.97
    return best
