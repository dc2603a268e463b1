#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] | --replay FILE"""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ.setdefault(k, '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.chdir(VERIF)
from engine import runner  # noqa: E402

if sys.argv[1] == '--replay':
    sys.exit(runner.replay(sys.argv[2]))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
sys.exit(runner.main(sys.argv[1], tier))
