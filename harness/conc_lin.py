"""Concurrent calls on thread-safe streams, append streams and whole-file helpers (spec/LinTrace.tla)."""
import os, random, gc, threading, multiprocessing, posix
import _pyio
import conc, dsched
from conc import Foreign, classify
import rsfile

ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class LinRun(object):
    def __init__(self, job):
        self.job = job
        self.r = random.Random(job["seed"])
        self.prof = job["prof"] if isinstance(job["prof"], dict) else PROFILES[job["prof"]]
        self.events = []
        self.dir = conc.tempfile.mkdtemp(prefix="l_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        self.steps = self.nthreads = 0

    def ev(self, **kw):
        self.events.append(kw)
        return kw

    def token(self, t):
        """data which tells who wrote it"""
        r = self.r
        n = r.choice([1, 2, 3, 5])
        out = [ord("abcdefgh"[t % 8]) if r.random() < 0.6 else r.choice(ALPHA) for _ in range(n)]
        if r.random() < 0.4:
            out.append(10)
        return out

    def call(self, t, fn, conv, **kw):
        e = self.ev(ev="call", t=t, res="none", val=0, dt=0, **kw)
        t0 = dsched.vtime()
        try:
            v = fn()
            e["res"], e["val"] = "ok", conv(v)
        except dsched.Stuck:
            raise
        except StopIteration:
            e["res"] = "stop"
        except BaseException as x:  # noqa
            e["res"] = classify(x)
            if e["res"].startswith("bug"):
                e["res"] += " " + repr(x)[:100]
            x.__traceback__ = None
        e["dt"] = int(round((dsched.vtime() - t0) * 1000))
        self.ev(ev="ret", t=t)
        return e["res"]

    def content(self):
        try:
            fd = posix.open(self.path, posix.O_RDONLY)
        except OSError:
            return None
        try:
            return list(posix.read(fd, 100000))
        finally:
            posix.close(fd)

    def final(self):
        c = self.content()
        self.ev(ev="final", ex=int(c is not None), c=c or [])

    def schedule(self):
        r = self.r
        pol = "sys" if "choices" in self.job else r.choice(["rand", "rand", "pct"])
        if r.random() < 0.5:
            dsched.EXTRA.add(_pyio.__file__)
        sch = dsched.Sched(random.Random(self.job["seed"] + 2), policy=pol, p=r.choice([0.02, 0.1, 0.3]),
                           depth=r.choice([1, 2, 3, 5]), est=r.choice([100, 300, 1000]), on_quiet=lambda ths: self.ev(ev="quiet"),
                           choices=self.job.get("choices"))
        for i, b in enumerate(self.bodies):
            sch.spawn("T%d" % (i + 1), b)
        sch.run()
        self.steps, self.nthreads = sch.steps, len(sch.threads)
        return not sch.stuck

    def run(self):
        r = self.r
        init = [10 if r.random() < 0.3 else r.choice(ALPHA) for _ in range(r.choice([0, 4, 9, 15]))]
        self.build(init)
        if self.schedule():
            self.end()
        return self.events


def ident(x):
    return x


def chars(v):
    if v is None:
        return [-3]
    return [ord(x) for x in v] if isinstance(v, str) else list(v)


class TsRun(LinRun):
    """threads on one thread-safe stream"""

    def build(self, init):
        r = self.r
        with open(self.path, "wb") as fh:
            fh.write(bytes(init))
        kind = r.choice(["raw", "raw", "buf", "buf", "text"])
        rd, wr = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)]) if kind != "text" else r.choice([(1, 0), (1, 0), (0, 1)])
        app = int(wr and r.random() < 0.2)
        kw = dict(locking=False, thread_safe=True)
        if kind == "raw":
            kw["buffering"] = 0
        else:
            kw["buffering"] = r.choice([2, 4, 8, 100, -1])
        mode = ("R" if rd else "") + ("A" if app else "W" if wr else "")
        if kind == "text":
            kw.update(encoding="latin-1", newline="\n")
        else:
            mode += "B"
        k = r.random()
        if k < 0.2:
            kw["mutex"] = threading.RLock()
        elif k < 0.35:
            mode += "I"
        self.f = rsfile.rsopen(self.path, mode, **kw)
        self.kind, self.rd, self.wr, self.app = kind, rd, wr, app
        self.ev(ev="init", c=init, ex=1, streams=[dict(rd=rd, wr=wr, app=app)])
        n = r.choice(self.prof.get("threads", [2, 2, 3]))
        self.closing = r.random() < 0.3
        self.bodies = [self.thread(i + 1) for i in range(n)]

    def ops(self):
        text, rd, wr, app = self.kind == "text", self.rd, self.wr, self.app
        o = ["flush", "size"]
        if rd and not app:
            o += ["read"] * 5 + ["readline"] * 2 + ["next"] * 4 + ["lines"] + (["readinto"] * 2 if not text else [])
        if wr:
            o += ["write"] * 6 + (["writelines"] * 2 if self.kind != "raw" else []) + (["truncate"] if not text and not app else [])
        if not app and not text:
            o += ["seek"] * 3 + ["tell"] * 2
        if not text or not rd:
            o += ["lock", "unlock"]
        if self.closing:
            o += ["close", "close", "cmexit", "cmexit"]
        return o

    def thread(self, t):
        r = self.r
        plan, depth = [], 0
        ops = self.ops()
        for _ in range(r.choice(self.prof.get("ops", [2, 3, 4]))):
            if depth == 0 and r.random() < 0.25:
                plan.append(("enter",))
                depth = r.choice([1, 2, 3])
            op = r.choice(ops)
            arg = None
            if op in ("write", "writelines"):
                arg = self.token(t)
            elif op in ("read", "readinto"):
                arg = r.choice([1, 2, 3, 8, -1])
                if op == "readinto":
                    arg = abs(arg)
            elif op == "seek":
                arg = r.choice([(0, 0), (3, 0), (0, 2), (0, 1), (1, 1), (-1, 0)])
            elif op == "truncate":
                arg = r.choice([0, 2, 6, 12])
            plan.append((op, arg))
            if op in ("close", "cmexit") and r.random() < 0.6:
                break
            if depth:
                depth -= 1
                if depth == 0:
                    plan.append(("exit",))
        if depth:
            plan.append(("exit",))

        def body():
            for p in plan:
                if p[0] == "enter":
                    self.f.mutex.acquire()
                    self.ev(ev="enter", t=t, s=1)
                elif p[0] == "exit":
                    self.ev(ev="exit", t=t, s=1)
                    self.f.mutex.release()
                else:
                    self.one(t, *p)
        return body

    def one(self, t, op, a):
        f, text = self.f, self.kind == "text"
        mk = (lambda x: "".join(map(chr, x))) if text else bytes
        k = dict(t=t, s=1, op=op, conv=ident)
        if op in ("read",):
            self.call(fn=lambda: f.read() if a < 0 else f.read(a), n=a, **dict(k, conv=chars))
        elif op == "readinto":
            b = bytearray(a)
            self.call(fn=lambda: f.readinto(b), n=a, **dict(k, conv=lambda v: list(b[:v]) if isinstance(v, int) else [-3]))
        elif op == "readline":
            self.call(fn=f.readline, n=-1, **dict(k, conv=chars))
        elif op == "next":
            self.call(fn=lambda: next(iter(f)), n=-1, **dict(k, conv=chars))
        elif op == "lines":
            self.call(fn=lambda: f.readlines(), n=-1, **dict(k, conv=lambda v: [chars(x) for x in v]))
        elif op == "write":
            self.call(fn=lambda: f.write(mk(a)), data=a, **k)
        elif op == "writelines":
            h = len(a) // 2
            self.call(fn=lambda: f.writelines([mk(a[:h]), mk(a[h:])]), data=a, **dict(k, conv=lambda v: 0))
        elif op == "seek":
            self.call(fn=lambda: f.seek(*a), off=a[0], wh=a[1], **k)
        elif op == "truncate":
            self.call(fn=lambda: f.truncate(a), n=a, **k)
        elif op == "cmexit":
            self.call(fn=lambda: f.__exit__(None, None, None), **dict(k, op="close", conv=lambda v: 0))
        elif op == "lock":
            self.call(fn=lambda: f.lock_file(timeout=0), **dict(k, conv=lambda v: 0))
        else:
            fn = {"tell": "tell", "size": "size", "flush": "flush", "unlock": "unlock_file", "close": "close"}[op]
            e = len(self.events)
            self.call(fn=lambda: getattr(f, fn)(), **dict(k, conv=ident if op in ("tell", "size") else lambda v: 0))
            if conc.WIN and op == "unlock" and self.events[e]["res"] == "io":
                self.events[e]["res"] = "rte"  # (nothing to unlock: an error of the kernel)

    def end(self):
        self.one(0, "close", None)
        self.final()


class AppendRun(LinRun):
    """threads with their own append streams on one file, each write being one write() of the system"""

    def build(self, init):
        r = self.r
        with open(self.path, "wb") as fh:
            fh.write(bytes(init))
        self.fs = []
        n = r.choice([2, 2, 3])
        streams = []
        for i in range(n):
            rd = int(r.random() < 0.4)
            self.fs.append(rsfile.rsopen(self.path, ("R" if rd else "") + "AB" if r.random() < 0.7 else "ab+" if rd else "ab", buffering=0,
                                         locking=False, thread_safe=r.random() < 0.3))
            streams.append(dict(rd=rd, wr=1, app=1))
        self.ev(ev="init", c=init, ex=1, streams=streams)
        self.bodies = [self.thread(i + 1) for i in range(n)]

    def thread(self, t):
        r = self.r
        plan = []
        for _ in range(r.choice([2, 3, 4])):
            op = r.choice(["write"] * 5 + ["seek", "seek", "size"])
            plan.append((op, self.token(t) if op == "write" else r.choice([(0, 0), (2, 0), (0, 2)])))
        f = self.fs[t - 1]

        def body():
            for op, a in plan:
                if op == "write":
                    self.call(t, lambda: f.write(bytes(a)), ident, s=t, op="write", data=a)
                elif op == "seek":
                    self.call(t, lambda: f.seek(*a), ident, s=t, op="seek", off=a[0], wh=a[1])
                else:
                    self.call(t, lambda: f.size(), ident, s=t, op="size")
        return body

    def end(self):
        for t, f in enumerate(self.fs):
            self.call(t + 1, f.close, lambda v: 0, s=t + 1, op="close")
        self.final()


class HelperRun(LinRun):
    """threads using the whole-file helpers"""

    def build(self, init):
        r = self.r
        self.ex = int(r.random() < 0.7)
        if self.ex:
            with open(self.path, "wb") as fh:
                fh.write(bytes(init))
        self.ev(ev="init", c=init, ex=self.ex, streams=[])
        self.other = 0
        self.short = self.ex and r.random() < 0.25 and not conc.WIN
        if self.short:
            # every write of the system is a partial one
            from conc_more import Shim
            sh = Shim.get()
            sh.setup([posix.stat(self.path).st_ino])
            sh.arm(Shim.WRITE, err=0)
        n = r.choice(self.prof.get("threads", [2, 2, 3]))
        self.bodies = [self.thread(i + 1) for i in range(n)]
        self.foreign = None
        if self.ex and r.random() < 0.3:
            self.other = 1
            self.foreign = Foreign(self.path)
            self.bodies.append(self.env())

    def env(self):
        def body():
            for _ in range(self.r.choice([1, 2])):
                dsched.S.point("env")
                if not self.foreign.call("lock", 0, 0, self.r.random() < 0.3):
                    dsched.S.kver += 1
                    dsched.vsleep(self.r.choice([0, 0.1, 0.6, 1.5]))
                    self.foreign.call("unlock", 0, 0)
                    dsched.S.kver += 1
                dsched.S.point("env")
        return body

    def thread(self, t):
        r = self.r
        plan = []
        for _ in range(r.choice(self.prof.get("ops", [1, 2, 3]))):
            op = r.choice(["hread", "hread", "hwrite", "hwrite", "happend", "happend"])
            d = [c for _ in range(r.choice([1, 1, 2])) for c in self.token(t)]
            plan.append((op, d, int(op == "hwrite" and r.random() < 0.15), int(r.random() < 0.15), r.choice([-1, -1, 0, 300, 700]),
                         r.random() < 0.5, r.choice([None, 2, 4, None]), r.random() < 0.15))

        def body():
            for op, d, cr, nocr, to, text, bufs, sync in plan:
                kw = dict(timeout=None if to < 0 else to / 1000.0)
                if bufs or (self.short and not text):
                    kw["buffering"] = bufs or 0
                if text:
                    kw.update(encoding="latin-1", newline="\n")
                if cr:
                    kw["must_create"], nocr = True, 0
                if nocr and op != "hread":
                    kw["must_not_create"] = True
                else:
                    nocr = 0
                if op == "hread":
                    fn = lambda: rsfile.read_from_file(self.path, binary=not text, **kw)  # noqa
                else:
                    data = "".join(map(chr, d)) if text else bytes(d)
                    h = rsfile.write_to_file if op == "hwrite" else rsfile.append_to_file
                    fn = lambda: h(self.path, data, sync=sync, **kw)  # noqa
                self.call(t, fn, chars if op == "hread" else lambda v: 0, op=op, data=d, cr=cr, nocr=nocr, to=to, made=0,
                          other=self.other, spin=int(1000 * rsfile.get_rsfile_options()["default_spinlock_delay"]) + 2)
        return body

    def end(self):
        self.final()
        if self.foreign:
            self.foreign.stop()


PROFILES = {"": {}}
RUNS = {"ts": TsRun, "append": AppendRun, "helper": HelperRun}
