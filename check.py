"""python3-vt check.py C10 [--tier quick|thorough] [--only TASK] [-v]"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
