#!/opt/venv/bin/python
import os, sys
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
if os.path.isdir('/opt/venv/mplconfig'):
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
if os.environ.get('PYTHONHASHSEED') != '0':
    # Iteration order of sets must not vary between processes
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
