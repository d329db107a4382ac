#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's working tree
   check.py --replay <file>                         re-run a recorded violation on the real code"""
import os
import sys
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/tmp/pv_mpl')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pv-cache'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pv import runner

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
