"""F_GETLK probes, for the controller side (same code as in worker.py, which must stay self-contained)."""
import fcntl, os, struct


def _getlk(fd, typ, start, length):
    arg = struct.pack("hhqqi4x", typ, os.SEEK_SET, start, length, 0)
    out = fcntl.fcntl(fd, fcntl.F_GETLK, arg)
    return struct.unpack("hhqqi4x", out)[0] != fcntl.F_UNLCK


def probe_range(fd, start, length):
    if not _getlk(fd, fcntl.F_WRLCK, start, length):
        return 0
    return 2 if _getlk(fd, fcntl.F_RDLCK, start, length) else 1


def probe(fd, B):
    res = []
    for i, b in enumerate(B):
        if i + 1 < len(B):
            ends = [b, B[i + 1] - 1]
            rng = (b, B[i + 1] - b)
        else:
            ends = [b, 2 ** 63 - 1]
            rng = (b, 0)
        got = {probe_range(fd, x, 1) for x in ends}
        got.add(probe_range(fd, *rng))
        res.append(got.pop() if len(got) == 1 else 9)
    return res
