"""What sync() does, down to the system calls (recorded by the interposed library), for spec/DurTrace.tla."""
import os, random, errno, json, posix, fcntl, shutil, tempfile, gc
import conc
from conc_more import Shim
import rsfile

HARD = (errno.EIO, errno.ENOSPC, errno.EDQUOT)


class DurRun(object):
    def __init__(self, job):
        self.r = random.Random(job["seed"])
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="d_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        self.shim = Shim.get()
        self.streams = {}
        self.osync = {}
        self.dat = 0

    def token(self, n=None):
        out = []
        for _ in range(n or self.r.choice([1, 2, 3, 5, 9])):
            out.append(97 + self.dat % 26)
            self.dat += 1
        return out

    def disk(self):
        self.shim.pause()
        d = list(posix.pread(self.ofd, 100000, 0))
        self.shim.resume()
        return d

    def run(self):
        r = self.r
        init = self.token(r.choice([1, 4, 8]))
        self.ofd = os.open(self.path, os.O_RDWR | os.O_CREAT, 0o600)
        os.write(self.ofd, bytes(init))
        ino = os.fstat(self.ofd).st_ino
        try:
            self.shim.setup([ino])
            self.events.append(dict(ev="init", c=init))
            for i in range(r.choice([1, 1, 1, 2])):
                self.open(i + 1)
            self.last = None
            for _ in range(r.choice([6, 10, 16, 24])):
                self.step()
            for s in sorted(self.streams):
                if self.last not in (None, s):
                    self.op(self.last, "flush", None)
                self.last = None
                if r.random() < 0.7:
                    self.op(s, "sync", self.fault(0.2), **self.syncargs())
                self.op(s, "close", self.fault(0.1))
            self.streams = {}
            gc.collect()
        finally:
            self.shim.off()
            os.close(self.ofd)
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.events

    def open(self, s):
        r = self.r
        kind = r.choice(["raw", "buf", "buf", "buf", "text", "text"])
        app = int(r.random() < 0.3)
        rd = int(kind != "text" and r.random() < 0.4)
        S = int(r.random() < 0.2)
        mode = ("R" if rd else "") + ("A" if app else "W") + r.choice(["", "N"]) + ("S" if S else "")
        kw = dict(locking=False, thread_safe=r.random() < 0.4)
        kw["buffering"] = 0 if kind == "raw" else r.choice([2, 4, 8, 100, -1])
        if kind == "text":
            kw.update(encoding=r.choice(["latin-1", "utf-8", "ascii"]), newline="\n")
            if r.random() < 0.1:
                kw["buffering"] = 1
        else:
            mode += "B"
        f = rsfile.rsopen(self.path, mode, **kw)
        fl = fcntl.fcntl(f.fileno(), fcntl.F_GETFL)
        osync = int(fl & os.O_SYNC == os.O_SYNC)
        self.osync[f.fileno()] = osync
        self.streams[s] = (f, kind, app)
        self.events.append(dict(ev="open", s=s, app=app, sync=S, osync=osync))

    def syncargs(self):
        r = self.r
        k = r.choice([((), {}, 1), ((), {"metadata": False}, 0), ((False, False), {}, 0), ((False,), {}, 0), ((True, False), {}, 1),
                      ((), {"full_flush": False}, 1), ((), {"metadata": False, "full_flush": False}, 0),
                      ((), {"metadata": False, "full_flush": True}, 0)])
        return dict(args=k[0], kw=k[1], meta=k[2])

    def fault(self, p=0.4):
        r = self.r
        if r.random() >= p:
            return None
        mask = r.choice([Shim.SYNC, Shim.DSYNC, Shim.DSYNC, Shim.SYNC | Shim.DSYNC, Shim.SYNC | Shim.DSYNC, Shim.WRITE,
                         Shim.WRITE | Shim.SYNC])
        err = r.choice([errno.EIO, errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINVAL, errno.ENOSYS, errno.EROFS])
        if mask == Shim.WRITE:
            err = r.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, 0])
        return dict(mask=mask, skip=r.choice([0, 0, 0, 1]), count=r.choice([1, 1, -1]), err=err)

    def step(self):
        r = self.r
        s = r.choice(sorted(self.streams))
        f, kind, app = self.streams[s]
        if self.last not in (None, s):
            self.op(self.last, "flush", None)
            if self.events[-1]["res"] != "ok":
                return
        self.last = s
        ops = ["write"] * 8 + ["sync"] * 6 + ["flush"] * 2
        if kind != "text":
            ops += ["truncate"] * 2 + (["seek"] * 2 if not app else [])
        if len(self.streams) == 1:
            ops += ["helper"]
        op = r.choice(ops)
        if op == "write":
            fl = None
            if kind == "raw":
                fl = r.choice([None, None, dict(mask=Shim.WRITE, skip=0, count=1, err=r.choice([0, errno.ENOSPC]))])
            self.op(s, op, fl, data=self.token())
        elif op == "sync":
            self.op(s, op, self.fault(), **self.syncargs())
        elif op == "flush":
            fl = self.fault(0.3)
            if fl:
                fl["mask"] = Shim.WRITE
            self.op(s, op, fl)
        elif op == "truncate":
            self.op(s, op, None, n=r.choice([0, 1, 3, 7, 12]))
        elif op == "seek":
            self.op(s, op, None, n=r.choice([0, 1, 3, 7, 12]))
        else:
            self.op(s, "flush", None)
            if self.events[-1]["res"] == "ok":
                self.op(s, r.choice(["hwrite", "happend", "happend"]), self.fault(0.3), data=self.token(), sync=int(r.random() < 0.7), meta=1)

    def op(self, s, op, fault, data=(), n=0, args=(), kw=None, meta=1, sync=0):
        f, kind, app = self.streams[s]
        text = kind == "text"
        d = list(data)
        val = "".join(map(chr, d)) if text else bytes(d)
        hk = dict(sync=bool(sync))
        if op[0] == "h" and self.r.random() < 0.4:
            hk["buffering"] = self.r.choice([2, 4])
        fn = {"write": lambda: f.write(val), "seek": lambda: f.seek(n), "truncate": lambda: f.truncate(n), "flush": lambda: f.flush(),
              "sync": lambda: f.sync(*args, **(kw or {})), "close": lambda: f.close(),
              "hwrite": lambda: rsfile.write_to_file(self.path, bytes(d), **hk),
              "happend": lambda: rsfile.append_to_file(self.path, bytes(d), **hk)}[op]
        self.shim.log()
        if fault:
            self.shim.arm(fault["mask"], fault["skip"], fault["count"], fault["err"])
        res, v = "ok", None
        try:
            v = fn()
        except OSError:
            res = "io"
        except Exception as e:
            res = "other " + type(e).__name__
        self.shim.disarm()
        sys_ = []
        for e in self.shim.log():
            if e[0] in ("write", "trunc", "fsync", "fdatasync"):
                sys_.append(dict(fn=e[0], ok=int(e[3] >= 0), len=max(e[3], 0) if e[0] == "write" else 0,
                                 hard=int(-e[3] in HARD), osync=self.osync.get(e[1], 0) if op[0] != "h" else 0))
        self.events.append(dict(ev="op", s=s, op=op, data=d, n=n, meta=meta, sync=sync, res=res, sys=sys_, disk=self.disk(),
                                val=v if isinstance(v, int) and op == "write" else 0))


RUNS = {"dur": DurRun}
