"""python3 check.py <property>: exit 0 if it held on everything explored, 1 with a VIOLATION line otherwise."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *


def main():
    prop = sys.argv[1]
    import registry
    chk = Check(prop)
    registry.CHECKS[prop](chk)
    sys.exit(chk.finish())


if __name__ == "__main__":
    main()
