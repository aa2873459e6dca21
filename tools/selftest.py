#!/opt/venv/bin/python
"""setup_cmd: there is nothing to build; make sure the oracles agree with each other before trusting them.

Two independent oracles (finite-cluster amplitudes and strip transfer operators, resp. the brute-force patch)
are compared on states both can handle. The code under test is not involved.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
import numpy as np
from vlib import states

rng = np.random.default_rng(7)
worst = 0.0
for cplx in (False, True):
    st = states.ClusterState(rng, 2, 2, 2, 2, cplx, max_size=3)
    po = states.PatchOracle(states.apply_gauges(st.A, 2, 2, rng, cplx, 0.3), 2, 2, 5)
    for s in states.sites_of(2, 2):
        O = states.hermitian(rng, 2, cplx)
        worst = max(worst, abs(st.site(s, O) - po.site(s, O)))
    for b in states.bonds_of(2, 2):
        t = [(states.hermitian(rng, 2, cplx), states.hermitian(rng, 2, cplx)) for _ in range(2)]
        worst = max(worst, abs(st.bond(b, t) - po.bond(b, t)))
    st = states.StripState(rng, 2, 2, 2, 2, cplx, w=1, mix=0.4)
    po = states.PatchOracle(st.A, 2, 2, 3, iters=60)
    for b in states.bonds_of(2, 2):
        t = [(states.hermitian(rng, 2, cplx), states.hermitian(rng, 2, cplx))]
        worst = max(worst, abs(st.bond(b, t) - po.bond(b, t)))
print(f"oracles agree to {worst:.1e}")
sys.exit(0 if worst < 1e-7 else 1)
