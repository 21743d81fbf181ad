"""Recorder of concurrent executions (threads under the deterministic scheduler + one foreign process).

stdin: one JSON job per line; stdout: one JSON answer per line.  Every job runs in a forked child.
"""
import sys, os, json, random, socket, struct, select, signal, traceback, tempfile, gc

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("RSFILE_SRC", "/repo/src"))
import dsched

dsched.install()
WIN = os.environ.get("VWIN")
if WIN:
    import winsim
    winsim.install(WIN)
import rsfile  # noqa
import fcntl

NC = 6
INF = 1000000
_open, _close, _fstat = os.open, os.close, os.fstat
for _f in (_open, _close, _fstat):
    assert _f.__name__
real = {n: getattr(__import__("posix"), n) for n in ("open", "close", "fstat", "read", "write", "lseek")}


def classify(exc):
    if isinstance(exc, EnvironmentError):
        return "io"
    if isinstance(exc, RuntimeError):
        return "rte"
    if isinstance(exc, (ValueError, TypeError)):
        return "val"
    return "bug:" + type(exc).__name__


# ------------------------------------------------------------------ foreign process
class Foreign(object):
    """a process which knows nothing about rsfile, with raw POSIX locks on the same file"""

    def __init__(self, path, pts=None):
        self.pts = pts
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            a.close()
            try:
                self.serve(b, path)
            finally:
                os._exit(0)
        b.close()
        self.s = a
        self.rd = a.makefile("rb")

    pts = None

    def serve(self, s, path):
        fd = real["open"](path, os.O_RDWR)
        pts = self.pts
        rd = s.makefile("rb")
        for line in rd:
            op = json.loads(line)
            out = 0
            if op[0] == "lock":
                _, lo, ln, sh = op
                try:
                    dsched._real_lockf(fd, (fcntl.LOCK_SH if sh else fcntl.LOCK_EX) | fcntl.LOCK_NB, ln, lo)
                except OSError:
                    out = 1
            elif op[0] == "unlock":
                dsched._real_lockf(fd, fcntl.LOCK_UN, op[2], op[1])
            elif op[0] == "probe":
                out = [probe_cell(fd, c, pts) for c in range(NC)]
            elif op[0] == "append":
                import posix
                f2 = posix.open(path, os.O_WRONLY | os.O_APPEND)
                posix.write(f2, op[1].encode("latin1"))
                posix.close(f2)
            elif op[0] == "content":
                import posix
                out = posix.pread(fd, 100000, 0).decode("latin1")
            s.sendall((json.dumps(out) + "\n").encode())

    def call(self, *op):
        self.s.sendall((json.dumps(op) + "\n").encode())
        return json.loads(self.rd.readline())

    def stop(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def _getlk(fd, typ, start, length):
    arg = struct.pack("hhqqi4x", typ, os.SEEK_SET, start, length, 0)
    return struct.unpack("hhqqi4x", fcntl.fcntl(fd, fcntl.F_GETLK, arg))[0] != fcntl.F_UNLCK


def probe_cell(fd, c, pts=None):
    pts = pts or range(NC)
    # (the bytes of a cell are all in the same situation: the first and the last ones show errors by one)
    out = set()
    for start, ln in ([(pts[c], 1), (pts[c + 1] - 1, 1)] if c < NC - 1 else [(pts[c], 0)]):
        if not _getlk(fd, fcntl.F_WRLCK, start, ln):
            out.add(0)
        else:
            out.add(2 if _getlk(fd, fcntl.F_RDLCK, start, ln) else 1)
    return min(out) if len(out) == 1 or 0 in out else 1


# real offsets of the points of the model (bounds of its cells)
POINTS = [
    list(range(NC)),
    [0, 1, 2, 3, 4, 5],
    [0, 5, 100, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 7],
    [0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 33],
    [0, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 3 * 2 ** 32, 2 ** 40],
    [0, 2 ** 32 + 7, 2 ** 33 + 7, 2 ** 34 + 7, 2 ** 35 + 7, 2 ** 36],
    [0, 2 ** 31, 2 ** 32, 2 ** 32 + 2 ** 31, 2 ** 33, 2 ** 62],
    [0, 1, 2 ** 62, 2 ** 63 - 4, 2 ** 63 - 3, 2 ** 63 - 2],
]


class WinForeign(object):
    """a program using the simulated kernel"""

    def __init__(self, path, pts=None):
        K = winsim.K
        self.pts = list(pts or range(NC)) + [2 ** 64 - 1]
        self.h = K.create(path, 0xC0000000, 7, False, 3, 128)
        self.ino = K.handles[self.h].ino
        self.extra = K.handles.pop(self.h)  # (not counted as a handle of the library)
        K.handles[-self.h] = self.extra
        self.extra.n = -self.h
        self.h = -self.h

    def call(self, what, *op):
        K = winsim.K
        dsched.S and setattr(dsched.S, "inpoint", True)
        try:
            if what == "probe":
                return [K.probe(self.ino, self.pts[c], self.pts[c + 1], self.h) for c in range(NC)]
            if what in ("lock", "unlock"):
                off, ln = op[0], op[1] or 2 ** 64 - 1 - op[0]
                try:
                    if what == "lock":
                        K.lock(self.h, off, ln, not op[2], True)
                    else:
                        K.unlock(self.h, off, ln)
                except winsim.WinErr:
                    return 1
                return 0
            raise AssertionError(what)
        finally:
            dsched.S and setattr(dsched.S, "inpoint", False)

    def stop(self):
        winsim.K.handles.pop(self.h, None)


if WIN:
    Foreign = WinForeign


def ms(t):
    return int(round((t - dsched.BASE) * 1000))


# ------------------------------------------------------------------ lock programs
KINDS = [
    (dict(mode="RWB", buffering=0), True, True),
    (dict(mode="RWB"), True, True),
    (dict(mode="RW"), True, True),
    (dict(mode="RB"), True, False),
    (dict(mode="WB", buffering=0), False, True),
    (dict(mode="r+b"), True, True),
]


class LockRun(object):
    """random program of lock operations; events for spec/LockTrace.tla"""

    def __init__(self, job):
        self.job = job
        self.rngs = {}
        self.prof = job.get("prof", {})
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="c_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        with open(self.path, "wb") as fh:
            fh.write(b"0123456789")
        st = os.stat(self.path)
        self.inode = (st.st_dev, st.st_ino)
        self.streams = {}
        self.info = {}
        self.ns = 0
        self.keep = []
        k = job["seed"] % (3 * len(POINTS))
        self.pts = POINTS[k] if k < len(POINTS) else POINTS[0]

    def span(self, lo, hi):
        """offset and length (None: to infinity)"""
        return self.pts[lo], None if hi == INF else self.pts[hi] - self.pts[lo]

    @property
    def r(self):
        """one generator per thread: programs don't depend on the schedule"""
        i = dsched.S.cur.id if dsched.S and dsched.S.cur else 0
        if i not in self.rngs:
            self.rngs[i] = random.Random(self.job["seed"] * 31 + i)
        return self.rngs[i]

    def ev(self, **kw):
        self.events.append(kw)

    def now(self):
        return ms(dsched.S.vtime) if dsched.S else 0

    def kind(self, ts):
        kw, rd, wr = self.r.choice(KINDS)
        if self.r.random() < 0.6:
            kw, rd, wr = KINDS[0]
        return dict(kw, thread_safe=ts, locking=False), rd, wr

    def build(self):
        r, prof = self.r, self.prof
        opts = {}
        self.spin = 100
        self.enf = -1
        if prof.get("options"):
            if r.random() < 0.5:
                self.spin = r.choice([50, 250, 400])
                opts["default_spinlock_delay"] = self.spin / 1000.0
            if r.random() < 0.5:
                self.enf = r.choice([0, 300, 1000])
                opts["enforced_locking_timeout_value"] = self.enf / 1000.0
        if opts:
            rsfile.set_rsfile_options(**opts)
        nthreads = r.choice(prof.get("threads", [2, 2, 3]))
        self.progs = []
        self.shared = []
        self.fan = r.random() < prof.get("fan", 0.08)
        if self.fan:
            # several callers are blocked by one lock, and may all get theirs when it goes
            shared = r.random() < 0.3
            cuts = [(0, 1), (1, 2), (2, 3), (3, INF)] if not shared else [(0, INF), (0, 4), (1, 3), (0, INF)]
            self.progs = [(self.fan_holder(self.open_stream(r.random() < 0.3, 0)),)]
            for n in range(r.choice([2, 2, 3])):
                s = self.open_stream(r.random() < 0.3, 0)
                self.progs.append((self.fan_waiter(s, cuts[n], shared),))
            return
        if r.random() < prof.get("sharedstream", 0.3):
            self.shared = [self.open_stream(True)]
        for t in range(nthreads):
            own = [self.open_stream(r.random() < 0.3) for _ in range(r.choice([1, 1, 2]))]
            self.progs.append((own, None))
        if prof.get("late_options") and r.random() < 0.5:
            # options changed after the opening do not concern these streams
            rsfile.set_rsfile_options(enforced_locking_timeout_value=None if self.enf >= 0 else 0.2)
            self.enf_new = -1 if self.enf >= 0 else 200
        else:
            self.enf_new = self.enf

    def fan_holder(self, s):
        def body():
            t, r = 1, self.r
            parts = r.choice([[(0, INF)], [(0, INF)], [(0, 2), (2, INF)]])
            for lo, hi in parts:
                self.do_lock(t, s, lo, hi, False, 0)
            dsched.vsleep(r.choice([0.05, 0.4]))
            if r.random() < 0.4:
                self.do_close(t, s)
            else:
                for lo, hi in parts:
                    self.do_unlock(t, s, lo, hi)
        return body

    def fan_waiter(self, s, part, shared):
        def body():
            r, t = self.r, dsched.S.cur.id
            if r.random() < 0.8:
                dsched.vsleep(0.01)
            self.do_lock(t, s, part[0], part[1], shared, r.choice([-1, -1, 3000]))
            # (kept for a while: nobody else wakes the other waiters)
            if r.random() < 0.3:
                self.do_unlock(t, s, *part)
        return body

    def open_stream(self, ts, kind=None):
        kw, rd, wr = self.kind(ts)
        if kind is not None:
            kw, rd, wr = dict(KINDS[kind][0], thread_safe=ts, locking=False), KINDS[kind][1], KINDS[kind][2]
        s = self.ns = self.ns + 1
        f = rsfile.rsopen(self.path, **kw)
        self.streams[s] = f
        self.info[s] = dict(h=s, rd=rd, wr=wr, open=True, ts=ts, enf=self.enf)
        self.ev(ev="open", s=s, h=s, p=1, f=1, own=True, rd=rd, wr=wr)
        return s

    def rng_range(self):
        r = self.r
        lo = r.choice([0, 0, 0, 1, 1, 2, 3])
        if r.random() < 0.3:
            return lo, INF
        return lo, r.randint(lo + 1, 4)

    # -------------------------------------------------------------- operations (run inside scheduled threads)
    def call(self, t, fn, **kw):
        # (time spent waiting for the mutex of a stream shared by threads is no locking delay)
        self.ev(ev="call", t=t, tm=-1 if kw.get("s") in self.shared else self.now(), **kw)
        try:
            fn()
            res = "ok"
        except dsched.Stuck:
            raise
        except BaseException as e:  # noqa
            res = classify(e)
            if res.startswith("bug"):
                res += " " + repr(e)[:150]
            self.lasterr = e
        return res

    def ret(self, t, res, **kw):
        self.ev(ev="ret", t=t, res=res, tm=self.now(), **kw)

    def wrapof(self, s):
        return s if self.info[s]["ts"] else 0

    def do_lock(self, t, s, lo, hi, sh, to, cm=False):
        i = self.info[s]
        off, ln = self.span(lo, hi)
        kw = {"timeout": None if to < 0 else to / 1000.0, "offset": off}
        if hi != INF:
            kw["length"] = ln
        elif self.r.random() < 0.4:
            kw["length"] = self.r.choice([None, 0])
        if sh is not None:
            kw["shared"] = sh
        box = []
        res = self.call(t, lambda: box.append(self.streams[s].lock_file(**kw)), op="lock", s=s, p=1, off=lo,
                        len=0 if hi == INF else hi - lo, wh=0, pos=0, size=0, sh=2 if sh is None else int(sh), bad=0,
                        to=to, enf=i["enf"], spin=self.spin, wrap=self.wrapof(s))
        self.ret(t, res)
        if res == "ok":
            return box[0]
        return None

    def do_unlock(self, t, s, lo, hi, cm=None):
        off, ln = self.span(lo, hi)
        kw = {"offset": off}
        if hi != INF:
            kw["length"] = ln
        elif self.r.random() < 0.4:
            kw["length"] = self.r.choice([None, 0])

        def fn():
            if cm is not None:
                if self.r.random() < 0.5:
                    cm.__exit__(None, None, None)
                else:
                    try:
                        raise KeyError(1)
                    except KeyError as e:
                        try:
                            cm.__exit__(KeyError, e, e.__traceback__)
                        except KeyError:
                            pass
            else:
                self.streams[s].unlock_file(**kw)
        res = self.call(t, fn, op="unlock", s=s, p=1, off=lo, len=0 if hi == INF else hi - lo, wh=0, pos=0, size=0, sh=2,
                        bad=0, wrap=self.wrapof(s))
        self.ret(t, res)

    def do_close(self, t, s):
        res = self.call(t, lambda: self.streams[s].close(), op="close", s=s, p=1, wrap=self.wrapof(s))
        self.info[s]["open"] = False
        self.ret(t, res)

    def do_openlock(self, t, to):
        kw, rd, wr = self.kind(False)
        s = self.ns = self.ns + 1
        kw.update(locking=True, timeout=None if to < 0 else to / 1000.0)
        box = []
        res = self.call(t, lambda: box.append(rsfile.rsopen(self.path, **kw)), op="openlock", s=s, h=s, p=1, f=1, own=True,
                        rd=rd, wr=wr, to=to, enf=self.enf_new, spin=self.spin)
        if res == "ok":
            self.streams[s] = box[0]
            self.info[s] = dict(h=s, rd=rd, wr=wr, open=True, ts=False, enf=self.enf_new)
        self.ret(t, res, rd=rd, wr=wr)
        return s if res == "ok" else None

    def do_other(self, t, what):
        r = self.r

        def fn():
            if what == "neighbour":
                f = rsfile.rsopen(self.path, "RB", buffering=0, locking=False)
                f.read(2)
                f.close()
            elif what == "failopen":
                try:
                    rsfile.rsopen(self.path, r.choice(["WCB", "R", "CB"]), buffering=0, locking=False).close()
                except (EnvironmentError, ValueError):
                    pass
            elif what == "helper":
                rsfile.read_from_file(self.path, binary=True, locking=False)
            elif what == "sleep":
                dsched.vsleep(r.choice([0, 0.05, 0.3, 1.0]))
        res = self.call(t, fn, op="other", s=0, p=1, wrap=0)
        self.ret(t, res if res == "ok" else res + " " + repr(self.lasterr)[:100], p=1, f=1, xz=1)

    # -------------------------------------------------------------- programs
    def timeout(self):
        return self.r.choice(self.prof.get("timeouts", [0, 0, -1, -1, 250]))

    def thread(self, t, own):
        mine = []  # locks taken by this thread: (s, lo, hi, cm)

        def body():
            r = self.r
            streams = list(own) + [s for s in self.shared]
            for _ in range(r.choice(self.prof.get("ops", [2, 3, 4]))):
                usable = [s for s in streams if self.info[s]["open"] and not (s in self.shared and self.info[s].get("closing"))]
                ops = ["lock"] * 6 + ["other"] * self.prof.get("other", 1)
                if mine:
                    ops += ["unlock"] * 5
                if usable:
                    ops += ["close"] * self.prof.get("close", 1)
                ops += ["openlock"] * self.prof.get("openlock", 1)
                op = r.choice(ops)
                if op == "lock" and usable:
                    s = r.choice(usable)
                    i = self.info[s]
                    lo, hi = self.rng_range()
                    sh = r.choice([True, False]) if i["rd"] and i["wr"] else None
                    cm = self.do_lock(t, s, lo, hi, sh, self.timeout())
                    if cm is not None:
                        if r.random() < 0.5:
                            cm.__enter__()
                            self.keep.append(cm)  # a context manager which is dropped releases its lock
                        else:
                            cm = None
                        mine.append((s, lo, hi, cm))
                elif op == "unlock":
                    self.release(t, mine)
                elif op == "close" and usable:
                    s = r.choice(usable)
                    if s in self.shared:
                        self.info[s]["closing"] = True
                    mine[:] = [m for m in mine if m[0] != s]
                    self.do_close(t, s)
                elif op == "openlock":
                    s = self.do_openlock(t, self.timeout())
                    if s:
                        streams.append(s)
                        mine.append((s, 0, INF, None))
                elif op == "other":
                    self.do_other(t, r.choice(["neighbour", "failopen", "helper", "sleep"]))
            if r.random() < 0.7:
                while mine:
                    self.release(t, mine)
            for s in streams:
                if s not in self.shared and self.info[s]["open"] and r.random() < 0.7:
                    self.do_close(t, s)
        return body

    def release(self, t, mine):
        s, lo, hi, cm = mine.pop(self.r.randrange(len(mine)))
        if not self.info[s]["open"] or self.info[s].get("closing"):
            return
        self.do_unlock(t, s, lo, hi, cm)

    def env(self):
        self.ev(ev="open", s=90, h=90, p=9, f=1, own=True, rd=True, wr=True)

        def body():
            r = self.r
            for _ in range(r.choice([1, 2, 3])):
                dsched.S.point("env")
                if r.random() < 0.3:
                    dsched.vsleep(r.choice([0.05, 0.15, 0.35, 0.9]))
                lo, hi = self.rng_range()
                sh = r.random() < 0.4
                ln = 0 if hi == INF else hi - lo
                self.ev(ev="call", t=90, tm=self.now(), op="lock", s=90, p=9, off=lo, len=ln, wh=0, pos=0, size=0, sh=int(sh),
                        bad=0, to=0, enf=-1, spin=0, wrap=0)
                roff, rln = self.span(lo, hi)
                bad = self.foreign.call("lock", roff, rln or 0, sh)
                dsched.S.kver += 1
                self.ret(90, "io" if bad else "ok")
                dsched.S.point("env")
                if bad:
                    continue
                dsched.vsleep(r.choice([0, 0.05, 0.15, 0.35, 0.9]))
                self.ev(ev="call", t=90, tm=self.now(), op="unlock", s=90, p=9, off=lo, len=ln, wh=0, pos=0, size=0, sh=2, bad=0,
                        wrap=0)
                self.foreign.call("unlock", roff, rln or 0)
                dsched.S.kver += 1
                self.ret(90, "ok")
                dsched.S.point("env")
        return body

    def view(self):
        if not any(e["ev"] == "call" for e in self.events[-1:]):
            pass
        self.ev(ev="view", q=9, f=1, m=self.foreign.call("probe"))

    def extra_handles(self):
        return [n for n in winsim.K.handles if n < 0]

    def fds(self):
        n = 0
        alive = []
        if WIN:
            n = winsim.K.descriptors(self.inode[1]) - len(self.extra_handles())
        for name in os.listdir("/proc/self/fd"):
            try:
                st = real["fstat"](int(name))
            except OSError:
                continue
            if (st.st_dev, st.st_ino) == self.inode and not WIN:
                n += 1
        for s, i in self.info.items():
            if i["open"]:
                try:
                    st = real["fstat"](self.streams[s].fileno())
                    if (st.st_dev, st.st_ino) == self.inode:
                        alive.append(s)
                except (OSError, ValueError):
                    pass
        self.ev(ev="fds", p=1, f=1, cnt=n, alive=alive)

    def run(self):
        r, prof = self.r, self.prof
        self.foreign = Foreign(self.path, self.pts)
        try:
            self.build()
            pv = prof.get("views", 0.02)

            def on_point(kind):
                if self.r2.random() < pv:
                    self.view()
            self.r2 = random.Random(self.job["seed"] + 1)
            pol = r.choice(["rand", "rand", "pct"])
            if "choices" in self.job:
                pol = "sys"
            sch = dsched.Sched(random.Random(self.job["seed"] + 2), policy=pol, p=r.choice([0.02, 0.1, 0.3]),
                               depth=r.choice([1, 2, 3, 5]), est=r.choice([300, 1000, 3000]),
                               on_point=on_point, on_tick=lambda nt: self.ev(ev="tick", tm=ms(nt)), on_quiet=self.quiet,
                               choices=self.job.get("choices"))
            self.blocked = {}
            for n, prog in enumerate(self.progs):
                sch.spawn("T%d" % (n + 1), prog[0] if self.fan else self.thread(n + 1, prog[0]))
            if not self.fan and r.random() < prof.get("env", 0.6):
                self.envt = sch.spawn("env", self.env())
            sch.run()
            self.steps, self.nthreads = sch.steps, len(sch.threads)
            self.view()
            if not sch.stuck:
                gc.collect()
                self.fds()
                for s in self.info:
                    if self.info[s]["open"]:
                        self.do_close(0, s)
                        self.info[s]["open"] = False
                        self.view()
                self.fds()
        finally:
            self.foreign.stop()
        return self.events

    def quiet(self, threads):
        self.ev(ev="quiet", blocked=[90 if t.name == "env" else int(t.name[1:]) for t in threads])


KINDS_OF_RUN = {"locks": LockRun}


def run_job(job, path):
    import conc_more, conc_lin, conc_dur, conc_opt, conc_help
    cls = KINDS_OF_RUN.get(job["kind"]) or conc_more.RUNS.get(job["kind"]) or conc_dur.RUNS.get(job["kind"]) or \
        conc_opt.RUNS.get(job["kind"]) or conc_help.RUNS.get(job["kind"]) or conc_lin.RUNS[job["kind"]]
    try:
        x = cls(job)
        out = {"events": x.run(), "steps": getattr(x, "steps", 0), "threads": getattr(x, "nthreads", 0)}
    except BaseException:
        out = {"error": traceback.format_exc()}
    with os.fdopen(real["open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), "w") as fh:
        json.dump(out, fh)


def main():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        path = os.path.join(os.environ["VSCRATCH"], "conc_%d_%d" % (os.getpid(), n))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            real["close"](r)
            try:
                run_job(job, path)
            finally:
                os._exit(0)
        real["close"](w)
        # the pipe gets closed by the death of the child (and of its own foreign process)
        ok, _, _ = select.select([r], [], [], 60)
        if not ok:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        real["close"](r)
        sys.stdout.write(json.dumps({"path": path, "hang": not ok}) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
