"""python -m pv.replay FILE: run the real code on the recorded input again."""
import json
import sys
from . import registry


def main(path):
    with open(path) as f:
        doc = json.load(f)
    if 'config' not in doc:
        print('no input recorded; obligation: %s' % doc.get('obligation'))
        return 0
    for u in registry.SUITES[doc['property']]().units:
        if u.name == doc['unit']:
            bad = u.concrete(doc['config'])
            for b in bad:
                print('%s: %s %s: %s' % (u.name, b[0], b[1], b[2]))
            print('reproduced' if bad else 'not reproduced')
            return 1 if bad else 0
    print('unit %s not found' % doc['unit'])
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
