#!/opt/venv/bin/python
"""check.py ID                 decide property ID on /repo's working tree (VERIF_SEED, VERIF_TIER)
check.py ID --replay FILE   replay a recorded case; exit 1 if it (still) violates the property
check.py --selftest [N]     determinism of the simulator"""
import os
import sys

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[k] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CBX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from simcbx import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:], REPO, HERE))
