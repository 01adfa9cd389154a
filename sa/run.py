"""python3 run.py <property>: decide one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
from report import Check, Broken
import props


def main():
    p = sys.argv[1]
    try:
        rc = props.PROPS[p]()
    except (Broken, build.BuildError) as ex:
        print('ANALYSIS-BROKEN %s: %s' % (p, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN %s' % p)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
