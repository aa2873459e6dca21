"""C04: the converged environment does not depend on how it was reached."""
import numpy as np
import torch
from vlib import api, states
from vlib.core import Result

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: differential runs over starting environments, settings and call histories"
LEVEL_NOTE = ("Held on the executed histories. The correlation length of every state is bounded beforehand by transfer operators "
              "computed in numpy, so a state that does not converge is a violation and not an excuse.")
RULE = ("Random short-range states; all sites and bonds are compared (tomography through measure()) between a baseline and runs "
        "from fresh / leftover / random environments, other projector and SVD types, other seeds, other splits of sweeps, more "
        "sweeps and other chi; cells whose parts converge at very different rates (decoupled product and long-range rows or columns), against "
        "exact transfer matrices; non-trivial when the state is entangled; distinct by variant, settings and seed.")
ASSUMPTIONS = ["except for the uneven cells, correlations of the generated states decay by at least a factor 4 per site (checked in numpy for strips)"]
MIN_NONTRIVIAL = 12
REQUIRED_EVENTS = ("variant_start", "variant_settings", "variant_split", "variant_more", "variant_chi", "variant_uneven")
BUDGET = {"quick": 120, "thorough": 1200}
CELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1)]
SETTINGS = [(p, s) for p in ("half-system", "full-system") for s in ("rsvd", "full-rank")]


def cases(rng, tier):
    out = []
    for i in range(48 if tier == "quick" else 600):
        out.append({"kind": ["start", "settings", "uneven", "split", "more", "chi"][i % 6], "cell": list(states.cell(rng, CELLS)),
                    "d": int(rng.choice([2, 2, 3])), "dtype": ["float64", "complex128"][int(rng.integers(2))],
                    "setting": list(SETTINGS[int(rng.integers(4))]), "seed": int(rng.integers(2 ** 31))})
    return out


def vector(ip):
    s, b = api.tomography(ip)
    return np.concatenate([s[k].ravel() for k in sorted(s)] + [b[k].ravel() for k in sorted(b)])


class UnevenRows(states.StripState):
    """decoupled rows: some in product states, some near two degenerate ones, converging slowly"""

    def __init__(self, rng, nx, ny, d, cplx, slow, gap):
        super().__init__(rng, nx, ny, 2, d, cplx)
        for _ in range(2000):
            for x, y in states.sites_of(nx, ny):
                old = self.core[(x, y)]
                B = np.zeros_like(old)
                if y in slow:
                    eps = 10 ** rng.uniform(-2, -0.3)
                    B[:, 0, :, 0, :] = eps * states.randn(rng, (2, 2, d), cplx)
                    u = states.unitary(rng, d, cplx)
                    for i in range(2):
                        B[i, 0, i, 0, :] += u[i] * (1 + eps * rng.standard_normal())
                else:
                    B[0, 0, 0, 0, :] = states.randn(rng, d, cplx)
                self.core[(x, y)] = B
                legs = [np.ones(2) + 0.4 * states.randn(rng, 2, cplx) for _ in range(2)]
                self.A[(x, y)] = np.einsum("lrp,u,d->lurdp", B[:, 0, :, 0, :], *[w / np.linalg.norm(w) for w in legs])
            self.M = {(x, y): self._column(x, y) for x, y in states.sites_of(nx, ny)}
            self.gap = 0.0
            for y in range(ny):
                self._environment(y)
            if gap[0] < self.gap < gap[1]:
                return
        raise RuntimeError("no state of the wanted correlation length")


def uneven(case, r, rng, cplx):
    nx, ny = [int(rng.integers(1, 4)), int(rng.integers(2, 4))]
    slow = sorted(int(y) for y in rng.choice(ny, size=int(rng.integers(1, ny)), replace=False))
    d = case["d"]
    st = UnevenRows(rng, nx, ny, d, cplx, slow, (0.3, 0.85))
    gap = st.gap
    if rng.integers(2):
        st, nx, ny = states.Reflected(st), ny, nx
    A = states.normalized(st.A)
    exact = np.concatenate([st.site_rho(s).ravel() for s in sorted(states.sites_of(nx, ny))]
                           + [st.bond_rho(b).ravel() for b in sorted(states.bonds_of(nx, ny))])
    steps = int(np.ceil(np.log(1e-11) / np.log(gap))) + 6
    (proj, svd) = case["setting"]

    def fresh(steps, svd=svd):
        ip = api.new(api.config(nx, ny, 2, 8, d, case["dtype"], steps, ctmrg={"projectors": proj, "svd_type": svd}))
        api.set_state(ip, A)
        return ip
    where = f"{nx}x{ny}, slow {'rows' if isinstance(st, UnevenRows) else 'columns'} {slow}, correlation ratio {gap:.2f}, {proj}, {svd}"
    ip = fresh(steps)
    ip.renormalize()
    r.close(vector(ip), exact, 1e-6, "uneven-limit", f"{steps} sweeps are not at the exact values, {where}")
    # from a boundary which is converged in the fast rows only
    ip = fresh(2)
    ip.renormalize()
    ip.config.ctmrg.steps = steps
    ip.renormalize()
    r.close(vector(ip), exact, 1e-6, "uneven-limit", f"2+{steps} sweeps are not at the exact values, {where}")
    # before convergence: as many sweeps at once as one by one
    n = int(rng.integers(4, 12))
    one, many = fresh(n, "full-rank"), fresh(1, "full-rank")
    one.renormalize()
    for _ in range(n):
        many.renormalize()
    r.close(vector(one), vector(many), 1e-7, "uneven-split", f"{n} sweeps at once differ from {n} single ones, {where}")
    r.count("variant_uneven")
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"variant": "uneven", "cell": [nx, ny], "correlation_ratio": gap, "values": exact[:4].real}
    return r


def run_case(case):
    r = Result()
    rng = np.random.default_rng(case["seed"])
    nx, ny = case["cell"]
    cplx = api.is_complex(case["dtype"])
    d = 2 if nx * ny > 4 else case["d"]
    kind = case["kind"]
    if kind == "uneven":
        return uneven(case, r, rng, cplx)
    A, ratio = states.short_state(rng, nx, ny, 2, d, cplx, 0.3, 0.2)
    A = states.normalized(states.apply_gauges(A, nx, ny, rng, cplx, 0.2))
    proj, svd = case["setting"]

    def make(proj, svd, chi=14, steps=12, B=A):
        ip = api.new(api.config(nx, ny, 2, chi, d, case["dtype"], steps, ctmrg={"projectors": proj, "svd_type": svd}))
        api.set_state(ip, B)
        return ip

    def settle(ip, tol=1e-10, calls=4):
        return api.converge(ip, lambda: vector(ip), tol, calls)
    base = make(proj, svd)
    ref, res, _ = settle(base)
    tol = 1e-6
    r.le(res, 1e-7, "not-converged", f"the baseline still moves after 48 sweeps (correlation ratio {ratio:.2f})")

    def same(ip, tag, tol=tol):
        v, res, n = settle(ip)
        r.close(v, ref, tol, tag, f"{kind}: result differs from the baseline ({proj},{svd}) on {nx}x{ny}", residual=res)

    if kind == "start":
        # leftover environment of a different state
        B, _ = states.short_state(rng, nx, ny, 2, d, cplx, 0.3, 0.2)
        ip = make(proj, svd, B=states.normalized(B))
        ip.renormalize()
        api.set_state(ip, A, reset_env=False)
        same(ip, "leftover-environment")
        # random environment
        g = torch.Generator().manual_seed(case["seed"] % 2 ** 31)
        ip = make(proj, svd)
        c = int(rng.integers(4, 12))
        for s in ip.site_list:
            ip[s]["C"] = [torch.rand(c, c, generator=g, dtype=torch.float64) for _ in range(4)]
            ip[s]["E"] = [torch.rand(c, c, 2, 2, generator=g, dtype=torch.float64) + torch.eye(2) for _ in range(4)]
        same(ip, "random-environment")
    elif kind == "settings":
        for p, s in SETTINGS:
            if (p, s) != (proj, svd):
                same(make(p, s), "settings")
        torch.manual_seed(case["seed"] % 1000 + 17)
        same(make(proj, svd), "seed")
    elif kind == "split":
        n1, n2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        one = make(proj, "full-rank", steps=n1 + n2)
        one.renormalize()
        two = make(proj, "full-rank", steps=n1)
        two.renormalize()
        two.config.ctmrg.steps = n2
        two.renormalize()
        r.close(vector(two), vector(one), 1e-7, "split", f"{n1}+{n2} sweeps differ from {n1 + n2} sweeps")
        # and one sweep at a time
        for _ in range(2):
            two.config.ctmrg.steps = 1
            two.renormalize()
        one.config.ctmrg.steps = 2
        one.renormalize()
        r.close(vector(two), vector(one), 1e-7, "split", "1+1 sweeps differ from 2 sweeps")
        same(two, "split-limit")
    elif kind == "more":
        for i in range(4):
            base.config.ctmrg.steps = [1, 2, 5, 15][i]
            base.renormalize()
            r.close(vector(base), ref, 1e-7, "more-sweeps", "converged values moved under further sweeps")
    elif kind == "chi":
        # a more correlated state: every extra boundary state matters
        B, q = states.short_state(rng, *([2, 2] if nx * ny > 4 else [nx, ny]), 2, 2, cplx, 0.55, 0.4)
        bx, by = max(s[0] for s in B) + 1, max(s[1] for s in B) + 1
        B = states.normalized(B)

        def converged(chi):
            ip = api.new(api.config(bx, by, 2, chi, 2, case["dtype"], 15, ctmrg={"projectors": proj, "svd_type": svd}))
            api.set_state(ip, B)
            return settle(ip, 1e-9, 3)[0]
        best = converged(16)
        for chi, bound in ((4, 2e-2), (6, 4e-3), (9, 4e-4), (14, 3e-5)):
            r.le(float(np.max(np.abs(converged(chi) - best))), bound, f"chi-{chi}", f"chi={chi} against chi=16 (correlation ratio {q:.2f})")
        # changing chi on the fly ends at the same place
        ip = make(proj, svd, chi=4)
        ip.renormalize()
        ip.set_chi(14)
        same(ip, "chi-raised")
        ip.set_chi(5)
        ip.renormalize()
        ip.set_chi(14)
        same(ip, "chi-lowered-and-raised")
    r.count("variant_" + kind)
    r.nontrivial = True
    r.fingerprint = f"{case}"
    r.sample = {"variant": kind, "cell": [nx, ny], "correlation_ratio": ratio, "residual": res, "values": ref[:4].real}
    return r
