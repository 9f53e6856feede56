import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env
import core

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--child':
        sys.exit(core.child(a[1], a[2], a[3], int(a[4])))
    if a[0] == '--replay':
        sys.exit(core.replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(core.supervise(a[0], tier))
