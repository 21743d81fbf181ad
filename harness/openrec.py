"""Openings of all modes on all kinds of paths, recorded for spec/OpenTrace.tla."""
import sys, os, json, random, shutil, gc, stat, fcntl, threading, traceback, warnings, tempfile, faulthandler, pathlib
sys.path.insert(0, os.environ["RSFILE_SRC"])
warnings.simplefilter("ignore")
WIN = os.environ.get("VWIN")
if WIN:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import winsim
    winsim.install(WIN)
    K = winsim.K
import rsfile
from rsfile.rsfile_streams import RSThreadSafeWrapper, RSBufferedRandom, RSBufferedWriter, RSBufferedReader, RSTextIOWrapper
import io

REAL_OPEN = io.open
STDIO = {k: getattr(io, k) for k in ("FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper")}
STD, ADV = "xarw+bt", "RAWC-N+SIEBT"
NAMES = ["f", "g", "m", "d", "l", "x", "n", "p"]  # n: in a missing directory, p: fifo


def fds():
    if WIN:  # handles, and descriptors of the C runtime which don't own one of these
        first = {}
        for fd, n in sorted(K.crt.items()):
            first.setdefault(n, fd)
        return {("h", n) for n in K.handles} | {("c", fd) for fd, n in K.crt.items() if n not in K.handles or first[n] != fd}
    out = set()
    for x in os.listdir("/proc/self/fd"):
        try:
            os.fstat(int(x))
            out.add(int(x))
        except OSError:
            pass
    return out


def kind_of(e):
    for c, n in ((FileExistsError, "exists"), (FileNotFoundError, "missing"), (IsADirectoryError, "isdir"),
                 ((ValueError, TypeError), "value"), (OSError, "os")):
        if isinstance(e, c):
            return n
    return "other:" + type(e).__name__


def outcome(fn):
    try:
        return "ok", fn()
    except io.UnsupportedOperation:
        return "unsup", None
    except OSError:
        return "os", None
    except Exception as e:
        return "other:" + type(e).__name__, None


def close_any(x):
    if not WIN:
        return os.close(x)
    try:
        if x[0] == "h":
            for fd, n in list(K.crt.items()):
                if n == x[1]:
                    return os.close(fd)
            K.close(x[1])
        elif x[1] in K.crt:
            os.close(x[1])
    except (OSError, winsim.WinErr):
        pass


class Weird(object):
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Run(object):
    def __init__(self, job):
        self.r = random.Random(job["seed"])
        self.modes = job["modes"]
        self.names = job.get("names")
        self.apis = job.get("apis")
        if self.apis and self.r.random() < 0.75:
            self.patch()
        else:
            self.patched = False
        self.dir = tempfile.mkdtemp(prefix="open_", dir=os.environ["VSCRATCH"])
        self.events = []
        # the bytes of the name don't matter
        self.suffix = self.r.choice(["", "", "\xe9\u2603", " b", "x" * 200] + ([] if WIN else ["\udcff\udc80", "\n"]))
        os.chdir(self.dir)
        self.um = 0o022
        os.umask(self.um)
        os.mkdir(self.p("d"))
        os.symlink(self.q("f"), self.p("l"))
        os.symlink(self.p("m"), self.p("x"))
        os.mkfifo(self.p("p"))
        self.keep = os.open(self.p("p"), os.O_RDWR | os.O_NONBLOCK)
        if WIN:
            with open(self.p("+k"), "w"):
                self.keep = K.open_fd(self.p("+k"), 0xC0000000)
            os.unlink(self.p("+k"))
        self.dat = 97

    def patch(self):
        """the patching functions, on the standard modules or on a namespace of our own"""
        import builtins
        self.patched = True
        if self.r.random() < 0.7:
            rsfile.monkey_patch_io_module(*([] if self.r.random() < 0.5 else [io]))
            rsfile.monkey_patch_open_builtin()
            self.open, self.io = (builtins.open if self.r.random() < 0.5 else io.open), io
        else:
            import types
            self.io = types.ModuleType("fakeio")
            rsfile.monkey_patch_io_module(self.io)
            self.open = self.io.open

    def std(self, mode, name):
        """the same openings through open() and FileIO, standard or patched"""
        r = self.r
        a = dict(src="path", bad=0, textargs=0, buffering=-1, locking=0, acc="rw", perm=0o777 if self.patched else 0o666, operm=0o666, ts=0,
                 w=[], closefd=1, pos=0, oapp=0, inh=0, win=0)
        call, mod = (self.open, self.io) if self.patched else (REAL_OPEN, io)
        how = r.choice(["open", "open", "fileio", "chain"])
        if mode.count("b") > 1:  # (the original FileIO ignores this letter)
            how = "open"
        name = name or r.choice(["f", "f", "f", "g", "m", "d", "l", "x", "n", "p"])
        if r.random() < 0.4:
            a["src"] = r.choice(["namefd", "namefd", "opener"])
        if a["src"] == "namefd":
            name = r.choice(["f", "g"])
            if not os.path.exists(self.p(name)):
                a["src"] = "path"
        if a["src"] == "opener" and name == "p":
            name = "f"
        a["name"] = name
        wrap = a["src"] == "namefd"
        vals = dict(buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None)
        if how == "open":
            a["buffering"] = vals["buffering"] = r.choice([-1, -1, 0, 0, 1, 2, 4096])
            if r.random() < 0.15:
                a["textargs"] = 1
                vals.update(r.choice([{"encoding": "latin-1"}, {"errors": "strict"}, {"newline": "\n"}, {"newline": ""},
                                      {"encoding": "utf-8", "errors": "ignore", "newline": "\r\n"}]))
        path, fd, seen = self.p(name), -1, {}
        if wrap:
            a["acc"] = r.choice(["rw", "rw", "rw", "r", "w"])
            a["oapp"] = int(r.random() < 0.2)
            fd = self.descriptor(path, a)
            target = fd
            a["closefd"] = int(r.random() < 0.5)
            vals["closefd"] = bool(a["closefd"])
        else:
            nm = path if r.random() < 0.7 else self.q(name)
            target = r.choice([nm, nm, os.fsencode(nm), Weird(nm), pathlib.Path(nm)])
        if a["src"] == "opener":
            vals["opener"] = self.opener(a, seen)
        m = mode
        if how != "open":  # raw streams have no text mode
            if "t" in mode:
                a["bad"] = 1
            m = mode if "b" in mode or mode.count("b") else mode + "b"
            if r.random() < 0.5 and mode.count("b") == 1:
                mode = mode.replace("b", "", 1)
            vals = {k: v for k, v in vals.items() if k in ("closefd", "opener")}
            a["buffering"] = 0
        if r.random() < 0.07 and not a["bad"]:
            a["bad"] = 1
            kind = r.choice(["closefd", "name", "nul", "negative", "openerneg", "openernone", "extra", "toomany"] +
                            (["encoding", "errors", "buffering"] if how == "open" else []))
            if wrap or (a["src"] == "opener" and kind in ("name", "nul", "negative", "closefd")):
                kind = "extra"
            if kind == "closefd":
                vals["closefd"] = False
            elif kind == "name":
                target = r.choice([1.5, [path], None])
            elif kind == "nul":
                target = path + "\0b"
            elif kind == "negative":
                target = -1
            elif kind == "openerneg":
                vals["opener"] = lambda p, f: -1
            elif kind == "openernone":
                vals["opener"] = lambda p, f: None
            elif kind == "extra":
                vals["foo"] = 1
            elif kind == "encoding":
                vals["encoding"] = 3
            elif kind == "errors":
                vals["errors"] = 3
            elif kind == "buffering":
                vals["buffering"] = r.choice(["1", 1.0])
        else:
            kind = ""
        # by position or by name
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
        seq = [("file", target), ("mode", mode)] + list(vals.items())
        args = [v for _, v in seq[:k] if _ != "foo"]
        kw = {n: v for n, v in seq[k:] if n == "file" or n == "mode" or n == "foo" or v != dict(closefd=True, buffering=-1).get(n) or r.random() < 0.3}
        if kind == "extra":
            kw["foo"] = 1
        elif kind == "toomany":
            args, kw = [v for n, v in seq] + [1], {}
        if mode == "r" and not kind and r.random() < 0.5 and (k <= 1):
            kw.pop("mode", None)
        fn = call if how == "open" else mod.FileIO
        ev = {"ev": "open", "m": list(m), "mode": mode, "a": a, "obs": {}, "res": "ok", "end": {}}
        before = fds()
        f = None
        try:
            f = fn(*args, **kw)
        except Exception as e:
            ev["res"] = kind_of(e)
        ev["after"] = self.snap()
        if f is not None:
            if how == "chain":
                f = self.chain(f, a, ev, mod)
            ev["obs"] = self.observe(f, a, fd, seen)
            if how != "open" and ev["obs"]["kind"] == "text":
                ev["mode"] = ev["obs"]["mode"]
            ev["end"] = self.snap()
        f = None
        self.done(ev, before, fd, a)

    def chain(self, f, a, ev, mod):
        """the user puts the layers together"""
        r = self.r
        if not f.seekable() or r.random() < 0.2:
            return f
        size = r.choice([1, 3, 16, None])
        cls = mod.BufferedRandom if f.readable() and f.writable() else mod.BufferedWriter if f.writable() else mod.BufferedReader
        b = cls(f) if size is None else cls(f, size)
        a["buffering"] = -1
        if r.random() < 0.5 and "b" in ev["m"]:
            ev["m"].remove("b")
            b = mod.TextIOWrapper(b, encoding="latin-1", newline="\n")
        return b

    def opener(self, a, seen):
        def opener(p, flags):
            acc = flags & os.O_ACCMODE
            seen.update(acc={os.O_RDWR: "rw", os.O_WRONLY: "w", os.O_RDONLY: "r"}[acc], app=int(bool(flags & os.O_APPEND)),
                        creat=int(bool(flags & os.O_CREAT)), excl=int(bool(flags & os.O_EXCL)),
                        trunc=int(bool(flags & os.O_TRUNC)), cloexec=int(bool(flags & os.O_CLOEXEC)))
            if WIN:
                return self.winopen(p, flags, a["operm"])
            return os.open(p, flags, a["operm"])
        return opener

    def q(self, n):
        return "nodir/f" if n == "n" else n + self.suffix

    def p(self, n):
        return os.path.join(self.dir, self.q(n))

    def snap(self):
        out = {}
        for n in NAMES:
            if n in ("l", "x"):
                continue
            k, d, pm = "none", [], 0
            if n == "n":
                k = "nodir"
                if os.path.exists(os.path.join(self.dir, "nodir")):
                    k = "?"
            else:
                try:
                    s = os.lstat(self.p(n))
                    k = "dir" if stat.S_ISDIR(s.st_mode) else "fifo" if stat.S_ISFIFO(s.st_mode) else "file" if stat.S_ISREG(s.st_mode) else "?"
                    if k == "file":
                        with REAL_OPEN(self.p(n), "rb") as fh:
                            d = list(fh.read())
                        pm = s.st_mode & 0o7777
                except FileNotFoundError:
                    pass
            out[n] = {"k": k, "d": d, "p": pm}
        for n, t in (("l", self.q("f")), ("x", self.p("m"))):
            if os.readlink(self.p(n)) != t:
                out[n] = {"k": "changed", "d": [], "p": 0}
        extra = set(os.listdir(self.dir)) - {n + self.suffix for n in NAMES}
        if extra:
            out["+"] = {"k": "created", "d": [], "p": 0}
        return out

    def token(self, n):
        out = []
        for _ in range(n):
            out.append(self.dat)
            self.dat = 97 + (self.dat - 96) % 26
        return out

    def setfs(self):
        r = self.r
        for n in ("f", "g", "m"):
            c = r.choice(["none", "empty", "data", "data"]) if n != "m" else r.choice(["none", "none", "data"])
            if os.path.lexists(self.p(n)):
                os.unlink(self.p(n))
            if c != "none":
                with REAL_OPEN(self.p(n), "wb") as fh:
                    fh.write(bytes(self.token(r.randint(1, 4) if c == "data" else 0)))
                os.chmod(self.p(n), r.choice([0o644, 0o600, 0o755]))
        self.events.append({"ev": "fs", "files": self.snap()})

    def run(self):
        for i, m in enumerate(self.modes):
            if i == 0 or self.r.random() < 0.4:
                self.setfs()
            if not WIN and self.r.random() < 0.15:
                self.um = self.r.choice([0o022, 0, 0o077, 0o027, 0o111])
                os.umask(self.um)
                self.events.append({"ev": "umask", "v": self.um})
            (self.std if self.apis else self.one)(m, self.names[i] if self.names else None)
        return self.events

    def winopen(self, p, flags, perm):
        """open() of the C runtime"""
        acc = {os.O_RDWR: 0xC0000000, os.O_WRONLY: 0x40000000, os.O_RDONLY: 0x80000000}[flags & os.O_ACCMODE]
        disp = 3 if not flags & os.O_CREAT else 1 if flags & os.O_EXCL else 4
        try:
            n = K.create(os.fsdecode(os.fspath(p)), acc, 7, False, disp, 128 if perm & 0o200 else 1)
        except winsim.WinErr as e:
            raise OSError(winsim.ERRNO[e.code], "error %d" % e.code)
        if flags & os.O_TRUNC:
            K.set_eof(n)
        return K.open_osfhandle(n, 0)

    def descriptor(self, path, a):
        r = self.r
        fd = os.open(path, {"rw": os.O_RDWR, "r": os.O_RDONLY, "w": os.O_WRONLY}[a["acc"]] | (os.O_APPEND if a["oapp"] else 0))
        a["inh"] = int(r.random() < 0.3)
        os.set_inheritable(fd, bool(a["inh"]))
        a["pos"] = r.randint(0, os.fstat(fd).st_size)
        os.lseek(fd, a["pos"], 0)
        return fd

    def one(self, mode, name=None):
        r = self.r
        a = dict(src="path", bad=0, textargs=0, buffering=-1, locking=0, acc="rw", perm=0o777, operm=0o666, ts=0, w=[], closefd=1,
                 pos=0, oapp=0, inh=0, win=int(bool(WIN)))
        name = name or r.choice(["f", "f", "f", "g", "m", "d", "n"] if WIN else ["f", "f", "f", "g", "m", "d", "l", "x", "n", "p"])
        kw = {}
        if r.random() < 0.35:
            a["src"] = r.choice(["fd", "namefd", "handle", "opener", "opener"])
        wrap = a["src"] in ("fd", "namefd", "handle")
        if wrap:
            name = r.choice(["f", "g"])
            if not os.path.exists(self.p(name)):
                a["src"], wrap = "path", False
        if a["src"] == "opener" and name == "p":
            name = "f"
        a["name"] = name
        b = r.choice([None, None, -1, 0, 0, 1, 2, 4096])
        if b is not None:
            kw["buffering"] = b
            a["buffering"] = b
        if r.random() < 0.12:
            a["textargs"] = 1
            kw.update(r.choice([{"encoding": "latin-1"}, {"errors": "strict"}, {"newline": "\n"}, {"newline": ""},
                                {"encoding": "utf-8", "errors": "ignore", "newline": "\r\n"}]))
        a["ts"] = int(r.random() < 0.5)
        kw["thread_safe"] = bool(a["ts"])
        if a["ts"] and r.random() < 0.3:
            kw["mutex"] = threading.RLock()
        a["locking"] = int(r.random() < 0.5)
        kw["locking"] = bool(a["locking"])
        if a["locking"]:
            kw["timeout"] = r.choice([0, 1, None])
        if r.random() < 0.5:
            a["perm"] = kw["permissions"] = r.choice([0o777, 0o600, 0o644, 0o666, 0o400, 0o755, 0o222, 0o1770, 0o1666])
        if r.random() < 0.1:
            a["operm"] = 0o600
        path = self.p(name)
        fd = -1
        seen = {}
        args = ()
        if wrap:
            a["acc"] = r.choice(["rw", "rw", "rw", "r", "w"])
            if WIN:
                if not os.stat(path).st_mode & 0o200:
                    a["acc"] = "r"
                fd = K.open_fd(path, {"rw": 0xC0000000, "r": 0x80000000, "w": 0x40000000}[a["acc"]])
                x = K.handles[K.crt[fd]]
                a["inh"] = int(r.random() < 0.3)
                x.inherit = bool(a["inh"])
                x.pos = a["pos"] = r.randint(0, os.fstat(fd).st_size)
            else:
                a["oapp"] = int(r.random() < 0.2)
                fd = self.descriptor(path, a)
            if a["src"] == "namefd":
                args = (fd,)
            elif WIN and a["src"] == "handle":
                kw["handle"] = x.n
                K.crt.pop(fd)
                os.close(fd)
                fd = x.n
            else:
                kw["fileno" if a["src"] == "fd" else "handle"] = fd
            a["closefd"] = int(r.random() < 0.5)
            kw["closefd"] = bool(a["closefd"])
            if r.random() < 0.3 and a["closefd"]:
                del kw["closefd"]
        else:
            nm = path if WIN or r.random() < 0.7 else self.q(name)
            nm = r.choice([nm, nm, os.fsencode(nm), Weird(nm), pathlib.Path(nm)])
            if r.random() < 0.1:
                kw["name"] = nm
            else:
                args = (nm,)
            if a["src"] == "opener":
                kw["opener"] = self.opener(a, seen)
        mode_arg = mode
        if r.random() < 0.06:
            a["bad"] = 1
            kind = r.choice(["closefd", "name", "both", "mutex", "buffering", "encoding", "errors", "nul", "negative", "mode", "openerneg",
                             "openernone", "noname", "openerfd"])
            if wrap:
                if kind == "both":
                    kw["fileno"] = kw["handle"] = fd
                elif kind == "openerfd" and a["src"] != "namefd":
                    kw["opener"] = lambda p, f: os.open(path, f, 0o666)
                else:
                    kind = "buffering"
            elif kind == "closefd":
                kw["closefd"] = False
            elif kind == "name":
                args, kw["name"] = (), r.choice([1.5, [path], True])
            elif kind == "both":
                if a["src"] == "opener":
                    kind = "buffering"
                else:
                    kw["fileno"] = self.keep
            elif kind == "nul":
                if a["src"] == "opener":
                    kind = "buffering"
                else:
                    args, kw["name"] = (), path + "\0b"
            elif kind == "negative":
                if a["src"] == "opener":
                    kind = "buffering"
                else:
                    kw.pop("name", None)
                    args = ()
                    kw["fileno"] = -1
            elif kind == "openerneg":
                kw["opener"] = lambda p, f: -1
            elif kind == "openernone":
                kw["opener"] = lambda p, f: None
            elif kind == "noname":
                if a["src"] == "opener":
                    kind = "buffering"
                else:
                    kw.pop("name", None)
                    args = ()
            elif kind == "openerfd":
                kind = "buffering"
            if kind == "mutex":
                kw["thread_safe"], kw["mutex"] = False, threading.RLock()
            elif kind == "buffering":
                kw["buffering"] = r.choice([True, "1", 1.0])
            elif kind == "encoding":
                kw["encoding"] = r.choice([3, b"utf8"])
            elif kind == "errors":
                kw["errors"] = 3
            elif kind == "mode":
                mode_arg = r.choice([None, 3, b"r"])
        before = fds()
        ev = {"ev": "open", "m": list(mode), "mode": mode, "a": a, "obs": {}, "res": "ok", "end": {}}
        f = None
        try:
            if r.random() < 0.2 and args:
                f = rsfile.rsopen(args[0], mode_arg, **kw)
            else:
                f = rsfile.rsopen(*args, mode=mode_arg, **kw)
        except Exception as e:
            ev["res"] = kind_of(e)
        ev["after"] = self.snap()
        if f is not None:
            ev["obs"] = self.observe(f, a, fd, seen)
            ev["end"] = self.snap()
        f = None
        self.done(ev, before, fd, a)

    def done(self, ev, before, fd, a):
        now = fds() - before
        if now:
            gc.collect()
            now = fds() - before
        ev["leak"] = len(now)
        for x in now:
            close_any(x)
        if WIN and fd >= 0:
            if a["src"] == "handle":
                close_any(("h", fd))
            else:
                close_any(("c", fd))
        elif fd >= 0:
            try:
                os.close(fd)
            except OSError:
                pass
        self.events.append(ev)

    def observe(self, f, a, fd, seen):
        o = {}
        o["ts"] = int(isinstance(f, RSThreadSafeWrapper))
        if self.apis:
            k = {"FileIO": "raw", "BufferedReader": "breader", "BufferedWriter": "bwriter", "BufferedRandom": "brandom", "TextIOWrapper": "text"}
            src = self.io if self.patched else None
            o["kind"] = [n for c, n in k.items() if type(f) is (getattr(src, c) if src else STDIO[c])
                         or (n == "raw" and src and isinstance(f, rsfile.RSFileIO))][:1]
            o["kind"] = o["kind"][0] if o["kind"] else type(f).__name__
            return self.observe1(f, a, fd, seen, o)
        base = f._wrapped_stream if o["ts"] and hasattr(f, "_wrapped_stream") else f
        names = {"RSFileIO": "raw", "RSBufferedReader": "breader", "RSBufferedWriter": "bwriter", "RSBufferedRandom": "brandom",
                 "RSTextIOWrapper": "text"}
        o["kind"] = ("text" if isinstance(f, io.TextIOBase) else "raw" if isinstance(f, io.RawIOBase) else
                     "brandom" if isinstance(base, RSBufferedRandom) else "bwriter" if isinstance(base, RSBufferedWriter)
                     else "breader" if isinstance(base, RSBufferedReader) else "?") if not o["ts"] else self.unwrapped(f)
        return self.observe1(f, a, fd, seen, o)

    def observe1(self, f, a, fd, seen, o):
        o["rd"], o["wr"], o["seek"] = int(f.readable()), int(f.writable()), int(f.seekable())
        o["mode"] = getattr(f, "mode", "?")
        n = f.fileno()
        if WIN:
            x = K.handles[f.handle()]
            assert K.crt.get(n) == x.n, (n, x.n)
            o["acc"] = {0xC0000000: "rw", 0x40000000: "w", 0x80000000: "r"}[x.access]
            o["app"], o["sync"], o["inh"] = 0, int(x.sync), int(x.inherit)
            return self.observe2(f, a, fd, seen, o)
        fl = fcntl.fcntl(n, fcntl.F_GETFL)
        o["acc"] = {os.O_RDWR: "rw", os.O_WRONLY: "w", os.O_RDONLY: "r"}[fl & os.O_ACCMODE]
        o["app"] = int(bool(fl & os.O_APPEND))
        o["sync"] = int(fl & os.O_SYNC == os.O_SYNC)
        o["inh"] = int(os.get_inheritable(n))
        return self.observe2(f, a, fd, seen, o)

    def observe2(self, f, a, fd, seen, o):
        o["flags"] = seen
        o["pos"] = f.tell() if o["seek"] else -1
        o["rres"], o["wres"], o["rdata"] = "skip", "skip", []
        text = o["kind"] == "text"
        if o["seek"]:
            o["rres"], v = outcome(f.read)
            if o["rres"] == "ok":
                o["rdata"] = list(map(ord, v)) if text else list(v)
            d = self.token(self.r.randint(1, 2))
            a["w"] = d

            def write():
                if f.write("".join(map(chr, d)) if text else bytes(d)) != len(d):
                    raise AssertionError
                f.flush()
            o["wres"], _ = outcome(write)
        try:
            f.close()
        except OSError:
            pass
        o["fdopen"] = 0
        if WIN and fd >= 0:
            o["fdopen"] = int(fd in K.handles if a["src"] == "handle" else fd in K.crt)
        elif fd >= 0:
            try:
                os.fstat(fd)
                o["fdopen"] = 1
            except OSError:
                pass
        return o

    def unwrapped(self, f):
        """kind of the chain behind a thread-safe stream, from what it can do"""
        if hasattr(f, "encoding") and hasattr(f, "newlines"):
            return "text"
        if hasattr(f, "raw"):
            r, w = f.readable(), f.writable()
            return "brandom" if r and w else "bwriter" if w else "breader"
        return "raw"


def main():
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        path = os.path.join(os.environ["VSCRATCH"], "open_%d_%d" % (os.getpid(), n))
        pid = os.fork()
        if pid == 0:
            try:
                faulthandler.dump_traceback_later(20, exit=True)
                x = Run(job)
                try:
                    out = {"events": x.run()}
                finally:
                    shutil.rmtree(x.dir, ignore_errors=True)
            except BaseException:
                out = {"error": traceback.format_exc()}
            with REAL_OPEN(path, "w") as fh:
                json.dump(out, fh)
            os._exit(0)
        os.waitpid(pid, 0)
        sys.stdout.write(json.dumps({"path": path} if os.path.exists(path) else {"hang": 1}) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
