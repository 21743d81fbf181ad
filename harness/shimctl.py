"""Control of the interposed library (shim.c)."""
import os, mmap, struct, errno, posix


class Shim(object):
    """control block of the interposed library"""
    WRITE, READ, SYNC, DSYNC, TRUNC, CLOSE, LOCK = 1, 2, 4, 8, 16, 32, 64
    NAMES = {1: "write", 2: "read", 4: "fsync", 8: "fdatasync", 16: "trunc", 32: "close", 64: "lock"}
    _one = None

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def __init__(self):
        fd = posix.open(os.environ["VSHIM"], posix.O_RDWR)
        self.m = mmap.mmap(fd, 0)
        posix.close(fd)

    def setup(self, inodes, on=1):
        self.inodes = inodes
        struct.pack_into("8i", self.m, 0, on, 0, 0, 0, 0, 0, len(inodes), 0)
        for i, x in enumerate(inodes):
            struct.pack_into("Q", self.m, 32 + 8 * i, x)

    def arm(self, mask, skip=0, count=-1, err=errno.ENOSPC):
        struct.pack_into("5i", self.m, 4, mask, skip, count, err, 0)

    def disarm(self):
        struct.pack_into("5i", self.m, 4, 0, 0, 0, 0, 0)

    def fired(self):
        return struct.unpack_from("i", self.m, 20)[0]

    def off(self):
        struct.pack_into("i", self.m, 0, 0)

    def pause(self):
        self.was = struct.unpack_from("i", self.m, 0)[0]
        self.off()

    def resume(self):
        struct.pack_into("i", self.m, 0, self.was)

    def log(self):
        n = struct.unpack_from("i", self.m, 28)[0]
        out = [struct.unpack_from("4i2q", self.m, 96 + 32 * i) for i in range(n)]
        struct.pack_into("i", self.m, 28, 0)
        return [(self.NAMES.get(e[0], "?"), e[1], e[2], e[3], e[4], e[5]) for e in out]
