"""python -m pv.check P01"""
import sys
from . import runner, registry

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1], registry.SUITES[sys.argv[1]]))
