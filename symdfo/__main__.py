"""python -m symdfo C02   : run one check"""
import sys, importlib, os
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from . import runner


def main():
    prop = sys.argv[1]
    modname = 'symdfo.checks.' + prop.lower()
    chk = importlib.import_module(modname)
    code = runner.run_check(prop, modname, chk.BUDGET, functions=chk.FUNCTIONS, bounds=chk.BOUNDS, assumptions=chk.ASSUMPTIONS)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
