"""Lock histories over files of two file systems (run in a mount namespace of its own): xdev.py PROP N SEED OUT

Both file systems number their files alike, so only the device tells two files apart.
"""
import sys, os, json, ctypes
from common import *
import checks_locks as L
from pool import pmap


def mount(path):
    os.mkdir(path)
    libc = ctypes.CDLL(None, use_errno=True)
    if libc.mount(b"tmpfs", path.encode(), b"tmpfs", 0, b"size=4m"):
        raise OSError(ctypes.get_errno(), "mount")


def main():
    prop, n, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    roots = ["%s.fs%d" % (out, i) for i in (1, 2)]
    try:
        for r in roots:
            mount(r)
    except OSError:
        recs = None
    else:
        prof = dict(L.PROFILES[prop], roots=roots, nfiles=[2])
        recs = pmap(L.record, [(seed * 1000003 + i, prof) for i in range(n)], procs=1)
    with open(out, "w") as fh:
        json.dump(recs, fh)


if __name__ == "__main__":
    main()
