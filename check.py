#!/opt/venv/bin/python
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import runner
sys.exit(runner.main(sys.argv[1:]))
