"""Recorder of executions by several real processes (no scheduler): events are merged through one log file opened in append mode.

stdin: one JSON job per line; stdout: one JSON answer per line.
"""
import sys, os, json, random, time, tempfile, traceback, signal, shutil

sys.path.insert(0, os.environ.get("RSFILE_SRC", "/repo/src"))
import rsfile  # noqa

SRCDIR = os.path.join(os.path.abspath(os.environ.get("RSFILE_SRC", "/repo/src")), "rsfile") + os.sep
ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def classify(exc):
    if isinstance(exc, EnvironmentError):
        return "io"
    if isinstance(exc, RuntimeError):
        return "rte"
    if isinstance(exc, (ValueError, TypeError)):
        return "val"
    return "bug:" + type(exc).__name__ + repr(exc)[:80]


def chars(v):
    if v is None:
        return [-3]
    return [ord(x) for x in v] if isinstance(v, str) else list(v)


class Run(object):
    def __init__(self, job):
        self.job = job
        self.r = random.Random(job["seed"])
        self.dir = tempfile.mkdtemp(prefix="p_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        self.log = os.open(os.path.join(self.dir, "log"), os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)

    def ev(self, **kw):
        os.write(self.log, (json.dumps(kw) + "\n").encode())

    def token(self, t, r):
        out = [ord("abcdefgh"[t % 8]) if r.random() < 0.6 else r.choice(ALPHA) for _ in range(r.choice([1, 2, 3, 5]))]
        return out + ([10] if r.random() < 0.4 else [])

    def call(self, t, fn, conv, **kw):
        self.ev(ev="call", t=t, **kw)
        val = 0
        try:
            val, res = conv(fn()), "ok"
        except StopIteration:
            res = "stop"
        except BaseException as x:  # noqa
            res = classify(x)
        self.ev(ev="ret", t=t, res=res, val=val)

    def nap(self, r):
        time.sleep(r.choice([0, 0, 0.0005, 0.002]))

    def child(self, t):
        r = random.Random(self.job["seed"] * 31 + t)
        p = r.choice([0, 0.01, 0.05])

        def local(frame, event, arg):
            if event == "line" and r.random() < p:
                time.sleep(0.0005)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRCDIR) else None
        if p:
            sys.settrace(tracer)
        self.body(t, r)
        sys.settrace(None)

    def run(self):
        r = self.r
        init = [10 if r.random() < 0.3 else r.choice(ALPHA) for _ in range(r.choice([0, 4, 9, 15]))]
        self.build(init)
        pids = []
        for t in range(1, self.n + 1):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    self.child(t)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids.append(pid)
        end = time.time() + 25
        bad = 0
        while pids and time.time() < end:
            for pid in list(pids):
                x, status = os.waitpid(pid, os.WNOHANG)
                if x:
                    pids.remove(pid)
                    bad |= status
            time.sleep(0.0005)
        for pid in pids:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        if bad:
            raise RuntimeError("child failed")
        if pids:
            self.ev(ev="quiet")
        else:
            self.end()
        with open(os.path.join(self.dir, "log")) as fh:
            evs = [json.loads(x) for x in fh]
        calls = {}
        for e in evs:  # the outcome of a call goes to its "call" event
            if e["ev"] == "call":
                calls[e["t"]] = e
                e.update(res="none", val=0)
            elif e["ev"] == "ret":
                calls[e["t"]].update(res=e.pop("res"), val=e.pop("val"))
        return evs

    def final(self):
        try:
            with open(self.path, "rb") as fh:
                self.ev(ev="final", ex=1, c=list(fh.read()))
        except EnvironmentError:
            self.ev(ev="final", ex=0, c=[])


class Mutex(Run):
    """a thread-safe inheritable stream, used by forked processes"""

    def build(self, init):
        r = self.r
        with open(self.path, "wb") as fh:
            fh.write(bytes(init))
        rd, wr = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        kw = {}
        if r.random() < 0.3:
            import multiprocessing
            kw["mutex"] = multiprocessing.RLock()
        self.f = rsfile.rsopen(self.path, ("R" if rd else "") + ("W" if wr else "") + "IB", buffering=0, locking=False, thread_safe=True, **kw)
        self.rd, self.wr = rd, wr
        self.ev(ev="init", c=init, ex=1, streams=[dict(rd=rd, wr=wr, app=0)])
        self.n = r.choice([2, 2, 3])
        if r.random() < 0.5:
            self.f.tell()

    def body(self, t, r):
        f = self.f
        ops = ["tell", "size", "seek", "seek"] + (["read", "read", "readline", "next"] if self.rd else []) + (["write"] * 4 if self.wr else [])
        for _ in range(r.choice([2, 3, 4])):
            group = r.random() < 0.6
            if group:
                f.mutex.acquire()
                self.ev(ev="enter", t=t, s=1)
                self.nap(r)
            for _ in range(r.choice([1, 2, 3]) if group else 1):
                op = r.choice(ops)
                k = dict(t=t, s=1, op=op)
                if op in ("read", "readline"):
                    n = r.choice([1, 3, 8]) if op == "read" else -1
                    self.call(fn=lambda: getattr(f, op)(n), conv=chars, n=n, **k)
                elif op == "next":
                    self.call(fn=lambda: next(f), conv=chars, n=-1, **k)
                elif op == "write":
                    d = self.token(t, r)
                    self.call(fn=lambda: f.write(bytes(d)), conv=lambda v: v, data=d, **k)
                elif op == "seek":
                    a = r.choice([(0, 0), (3, 0), (0, 2), (0, 1), (1, 1)])
                    self.call(fn=lambda: f.seek(*a), conv=lambda v: v, off=a[0], wh=a[1], **k)
                else:
                    self.call(fn=lambda: getattr(f, op)(), conv=lambda v: v, **k)
                if group:
                    self.nap(r)
            if group:
                self.ev(ev="exit", t=t, s=1)
                f.mutex.release()
            self.nap(r)

    def end(self):
        self.call(0, self.f.close, lambda v: 0, s=1, op="close")
        self.final()


class Append(Run):
    """processes appending to one file"""

    def build(self, init):
        r = self.r
        with open(self.path, "wb") as fh:
            fh.write(bytes(init))
        self.n = r.choice([2, 3])
        self.modes = [r.choice(["AB", "RAB", "ab", "ab+"]) for _ in range(self.n)]
        self.ev(ev="init", c=init, ex=1, streams=[dict(rd=int("R" in m or "+" in m), wr=1, app=1) for m in self.modes])

    def body(self, t, r):
        f = rsfile.rsopen(self.path, self.modes[t - 1], buffering=0, locking=False, thread_safe=False)
        for _ in range(r.choice([3, 5, 8])):
            op = r.choice(["write"] * 5 + ["seek", "seek", "size"])
            if op == "write":
                d = self.token(t, r)
                self.call(t, lambda: f.write(bytes(d)), lambda v: v, s=t, op="write", data=d)
            elif op == "seek":
                a = r.choice([(0, 0), (2, 0), (0, 2)])
                self.call(t, lambda: f.seek(*a), lambda v: v, s=t, op="seek", off=a[0], wh=a[1])
            else:
                self.call(t, f.size, lambda v: v, s=t, op="size")
            self.nap(r)
        self.call(t, f.close, lambda v: 0, s=t, op="close")

    def end(self):
        self.final()


class Helper(Run):
    """processes using the whole-file helpers"""

    def build(self, init):
        r = self.r
        ex = int(r.random() < 0.7)
        if ex:
            with open(self.path, "wb") as fh:
                fh.write(bytes(init))
        self.ev(ev="init", c=init, ex=ex, streams=[])
        self.n = r.choice([2, 2, 3])

    def body(self, t, r):
        for _ in range(r.choice([2, 3, 4])):
            op = r.choice(["hread", "hread", "hwrite", "hwrite", "happend", "happend"])
            text = r.random() < 0.5
            kw = {}
            to = r.choice([-1, -1, -1, 0])
            kw["timeout"] = None if to < 0 else to / 1000.0
            if r.random() < 0.4:
                kw["buffering"] = r.choice([2, 4])
            if text:
                kw.update(encoding="latin-1", newline="\n")
            d, cr, nocr = [], 0, 0
            if op == "hread":
                fn = lambda: rsfile.read_from_file(self.path, binary=not text, **kw)  # noqa
            else:
                d = [c for _ in range(r.choice([1, 2])) for c in self.token(t, r)]
                data = "".join(map(chr, d)) if text else bytes(d)
                if op == "hwrite" and r.random() < 0.2:
                    cr, kw["must_create"] = 1, True
                elif r.random() < 0.15:
                    nocr, kw["must_not_create"] = 1, True
                h = rsfile.write_to_file if op == "hwrite" else rsfile.append_to_file
                fn = lambda: h(self.path, data, **kw)  # noqa
            self.call(t, fn, chars if op == "hread" else lambda v: 0, op=op, data=d, cr=cr, nocr=nocr, to=to, made=0, other=0, dt=max(to, 0), spin=0)
            self.nap(r)

    def end(self):
        self.final()


RUNS = {"mutex": Mutex, "append": Append, "helper": Helper}


def main():
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        path = os.path.join(os.environ["VSCRATCH"], "proc_%d_%d" % (os.getpid(), n))
        pid = os.fork()
        if pid == 0:
            try:
                x = RUNS[job["kind"]](job)
                try:
                    out = {"events": x.run()}
                finally:
                    shutil.rmtree(x.dir, ignore_errors=True)
            except BaseException:
                out = {"error": traceback.format_exc()}
            with open(path, "w") as fh:
                json.dump(out, fh)
            os._exit(0)
        os.waitpid(pid, 0)
        sys.stdout.write(json.dumps({"path": path}) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
