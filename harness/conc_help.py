"""Sequences of whole-file helpers, with all their arguments (judged by spec/HelperTrace.tla)."""
import array
import mmap
import pathlib
import posix
from conc import *
import conc

NLS = {0: None, 1: "", 2: "\n", 3: "\r", 4: "\r\n"}
ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
UNI = [0xe9, 0x20ac, 0x1F600, 0x3b1, 0x7ff, 0x800, 0xffe0]


class Locker(Foreign):
    """opens the file when it has to"""

    def serve(self, s, path):
        fd = None
        for line in s.makefile("rb"):
            op = json.loads(line)
            out = 0
            if op[0] == "lock":
                fd = real["open"](path, os.O_RDWR)
                try:
                    dsched._real_lockf(fd, (fcntl.LOCK_SH if op[1] else fcntl.LOCK_EX) | fcntl.LOCK_NB, 0, 0)
                except OSError:
                    posix.close(fd)
                    fd, out = None, 1
            elif op[0] == "unlock":
                posix.close(fd)
                fd = None
            elif op[0] == "probe":
                try:
                    f2 = fd if fd is not None else real["open"](path, os.O_RDWR)
                except OSError:
                    out = -1
                else:
                    out = [probe_cell(f2, c) for c in range(NC)]
                    out = out[0] if len(set(out)) == 1 else 3
                    if f2 is not fd:
                        posix.close(f2)
            s.sendall((json.dumps(out) + "\n").encode())


class HelpRun(object):
    def __init__(self, job):
        self.job = job
        self.r = random.Random(job["seed"])
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="h_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        self.flavour = self.r.choice(["plain", "plain", "codec", "utf8", "utf16"])
        self.own = self.other = 0
        self.holder = None

    def ev(self, **kw):
        self.events.append(kw)

    # (system calls which the scheduler does not see)
    def content(self):
        try:
            fd = posix.open(self.path, posix.O_RDONLY) if not self.own else self.lookfd
        except OSError:
            return []
        try:
            return [list(posix.pread(fd, 100000, 0))]
        finally:
            if not self.own:
                posix.close(fd)

    def put(self, b):
        fd = posix.open(self.path, posix.O_WRONLY | posix.O_CREAT, 0o600)
        posix.ftruncate(fd, 0)
        posix.write(fd, b)
        posix.close(fd)

    def fds(self):
        try:
            ino = posix.stat(self.path).st_ino
        except OSError:
            return 0
        n = 0
        for name in posix.listdir("/proc/self/fd"):
            try:
                n += posix.fstat(int(name)).st_ino == ino
            except OSError:
                pass
        return n

    def text(self, raw=False):
        r = self.r
        n = r.choice([0, 1, 2, 5, 9])
        out = []
        for _ in range(n):
            x = r.random()
            if x < 0.2:
                out.append(10)
            elif x < 0.3:
                out.append(13)
            elif x < 0.55 and self.flavour in ("utf8", "utf16") and not raw:
                out.append(r.choice(UNI))
            else:
                out.append(r.choice(ALPHA))
        return out

    def bytes(self):
        if self.flavour == "utf16":
            t = "".join(map(chr, self.text()))
            return list(t.encode("utf-16")) if t else []
        if self.flavour == "utf8":
            return list("".join(map(chr, self.text())).encode("utf-8", "replace"))
        b = self.text(True)
        if self.flavour == "codec":
            b = [self.r.randint(0xf8, 0xff) if self.r.random() < 0.12 else x for x in b]
        return b

    def env(self):
        if self.own or self.other:
            return
        if self.content() and self.r.random() < 0.5:
            posix.unlink(self.path)
        else:
            self.put(bytes(self.bytes()))
        self.ev(ev="env", c=self.content())

    def hold(self):
        r = self.r
        if not self.content():
            return
        sh = int(r.random() < 0.5)
        if r.random() < 0.5:
            if self.own:
                self.holder.close()
                posix.close(self.lookfd)
                self.own = 0
                self.ev(ev="hold", who="own", on=0, sh=0)
            elif not self.other:
                self.lookfd = posix.open(self.path, posix.O_RDONLY)
                self.holder = rsfile.rsopen(self.path, r.choice(["RW", "RWB"]), locking=False, thread_safe=r.random() < 0.3)
                self.holder.lock_file(timeout=0, shared=bool(sh))
                self.own = 2 - sh
                self.ev(ev="hold", who="own", on=1, sh=sh)
        elif self.other:
            self.foreign.call("unlock")
            self.other = 0
            self.ev(ev="hold", who="other", on=0, sh=0)
        elif not self.own:
            assert self.foreign.call("lock", sh) == 0
            self.other = 2 - sh
            self.ev(ev="hold", who="other", on=1, sh=sh)

    def helper(self):
        r = self.r
        op = r.choice(["read", "read", "write", "write", "append", "append"])
        text = r.random() < 0.55
        if self.flavour == "utf16" and op == "append":
            text = True
        a = dict(op=op, kind="text" if text else "bin", nl=2, enc=0, data=[], cr=0, nocr=0, locking=int(r.random() < 0.7), to=0, bad=0)
        kw = {}
        if r.random() < 0.8 or not a["locking"]:
            kw["locking"] = bool(a["locking"])
        else:
            a["locking"] = 1
        a["to"] = r.choice([0, 0, 100, 350])
        kw["timeout"] = a["to"] / 1000.0
        if not (self.own or self.other) and r.random() < 0.4:
            kw.pop("timeout")
        data = None
        if op == "write" and r.random() < 0.25:
            a["cr"] = kw["must_create"] = 1
        if op != "read" and r.random() < 0.25:
            a["nocr"] = kw["must_not_create"] = 1
        if a["cr"] and a["nocr"]:
            a["bad"] = 1
        if text:
            a["nl"] = r.choice([0, 1, 2, 3, 4])
            if a["nl"] or r.random() < 0.5:
                kw["newline"] = NLS[a["nl"]]
            kw["encoding"] = r.choice(["latin-1", "ascii"])
            if self.flavour == "utf8":
                kw["encoding"], a["enc"] = r.choice(["utf-8", "utf8", None]), 1
            elif self.flavour == "utf16":
                kw["encoding"], a["enc"] = "utf-16", 9
            elif self.flavour == "codec":
                kw["encoding"], kw["errors"] = r.choice(["ascii", "latin-1", "utf-8", None]), r.choice([None, "strict", "ignore", "replace", "surrogateescape"])
                if kw["encoding"] == "latin-1":
                    kw["errors"] = r.choice([None, "strict", "ignore", "replace"])
                    a["enc"] = {"ignore": 7, "replace": 6}.get(kw["errors"], 5)
                else:
                    if kw["errors"] == "ignore" and op == "read":
                        kw["errors"] = "replace"
                    a["enc"] = {"ignore": 2, "replace": 3, "surrogateescape": 8}.get(kw["errors"], 4)
            if a["enc"] == 0 and r.random() < 0.3:
                kw.pop("encoding")
        if op != "read":
            d = self.text(not text) if text else self.bytes()
            if text and self.flavour == "codec":
                odd = {"latin-1": list(range(0xf8, 0x100)) + [0x20ac, 0x100], "ascii": [0xdcf8, 0xdcff, 0xd801, 0x20ac, 0xf9]}.get(
                    kw["encoding"], [0xdcf8, 0xdcff, 0xd801])
                d = [r.choice(odd) if r.random() < 0.1 else x for x in d]
            a["data"] = d
            data = "".join(map(chr, d)) if text else bytes(d)
            k = r.random()
            if not text and k < 0.4:
                if k < 0.1:
                    data = bytearray(data)
                elif k < 0.2:
                    data = memoryview(data)
                elif len(d) % 2 == 0 and d and k < 0.33:
                    data = array.array("H", data)
                elif d:
                    m = mmap.mmap(-1, len(d))
                    m[:] = data
                    data = m
        x = r.random()
        if x < 0.3:
            kw["buffering"] = r.choice([2, 3, 16, -1, None] + ([] if text else [0, 0]))
        elif x < 0.33 and text:
            kw["buffering"] = 1
        x = r.random()
        if x < 0.02 and text:
            kw["buffering"], a["bad"] = 0, 2
        elif x < 0.04 and text:
            kw["newline"], a["bad"] = r.choice(["x", "\n\r", " "]), 2
        elif x < 0.05 and not text:
            kw[r.choice(["encoding", "errors", "newline"])] = "strict"
            a["bad"] = 1
        if op != "read" and r.random() < 0.2:
            kw["sync"] = True
        name = self.path
        x = r.random()
        if x < 0.1:
            name = os.fsencode(name)
        elif x < 0.2:
            name = pathlib.Path(name)
        elif x < 0.3:
            name = os.path.join(os.path.dirname(name), ".", "f")
        if op == "read":
            if not text or r.random() < 0.3:
                kw["binary"] = not text
            fn = lambda: rsfile.read_from_file(name, **kw)  # noqa
        else:
            h = rsfile.write_to_file if op == "write" else rsfile.append_to_file
            fn = lambda: h(name, data, **kw)  # noqa
        t0 = dsched.S.vtime
        val = 0
        try:
            v = fn()
            res = "ok"
            if op == "read":
                val = [ord(ch) for ch in v] if isinstance(v, str) else list(v)
                if isinstance(v, str) != text:
                    res = "type"
            elif v is not None:
                res = "notnone"
        except dsched.Stuck:
            raise
        except BaseException as e:  # noqa
            res = classify(e)
            if res.startswith("bug"):
                res += " " + repr(e)[:120]
            e.__traceback__ = None
        dt = int(round((dsched.S.vtime - t0) * 1000))
        c = self.content()
        busy = self.foreign.call("probe") if c else 0
        self.ev(ev="h", res=res, val=val, dt=dt, c=c, busy=busy, fds=self.fds(), **a)

    def program(self):
        r = self.r
        if r.random() < 0.6:
            self.put(bytes(self.bytes()))
        self.ev(ev="init", c=self.content())
        for _ in range(r.choice([8, 14, 20])):
            x = r.random()
            if x < 0.15:
                self.env()
            elif x < 0.35:
                self.hold()
            else:
                self.helper()
        if self.own:
            self.holder.close()
            posix.close(self.lookfd)

    def run(self):
        self.foreign = Locker(self.path)
        try:
            sch = dsched.Sched(random.Random(self.job["seed"] + 2))
            sch.spawn("T1", self.program)
            sch.run()
        finally:
            self.foreign.stop()
        return self.events


RUNS = {"help": HelpRun}
