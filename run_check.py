#!/opt/venv/bin/python
"""Run one check:  run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
import argparse

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "SLURM_JOB_ID"):
    os.environ.pop(v, None)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from vlib import core
    try:
        rc = core.run(f"vlib.checks.{a.property.lower()}", a.tier, a.seed, a.replay)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
