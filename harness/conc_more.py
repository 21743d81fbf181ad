"""More kinds of recorded executions: streams over files (spec/StreamTrace.tla)."""
import os, json, random, gc, mmap, struct, errno, io, builtins
import conc, dsched
from conc import real, Foreign, classify, NC, INF
import posix
import pathlib
from shimctl import Shim
import rsfile
import rsfile.rsfile_utilities as _ut


NLS = {0: None, 1: "", 2: "\n", 3: "\r", 4: "\r\n"}
ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
UNI = [0xe9, 0x20ac, 0x1F600, 0x3b1, 0x7ff, 0x800, 0xffff]

PROFILES = {
    "C11": dict(open=6, close=3, lock=1, env=2, zoom=0.3),
    # transfers of the system are partial
    "short": dict(open=5, close=3, lock=1, env=1, fault="short", read=18, raw=0.4, nfiles=[1]),
    "C17": dict(open=12, close=6, attrs=16, move=9, nfiles=[1, 2, 2, 3], wrap=0.2, text=0.2, lock=3),
    # few streams, long histories, small buffers
    "deep": dict(open=1, close=0.5, lock=1, env=1, read=30, write=12, seek=14, trunc=5, flush=3, append=0.05, raw=0.1, steps=[40, 60],
                 nfiles=[1], both=0.8, text=0.2),
    "closed": dict(open=14, close=12, after=25, read=20, write=10, seek=6, tell=3, lock=2, env=0, steps=[20]),
    "C08": dict(stale=8, ro=0.15, open=5, close=5, lock=16, unlock=14, env=10, read=16, write=16, locked_open=0.4, obs=0.6, nfiles=[1], raw=0.15,
                fault=0.1),
    "C10": dict(open=22, close=14, lock=3, unlock=6, erase=0.7, locked_open=0.7, envlk=10, wrap=0.25, obs=0.8, nfiles=[1, 2], write=8),
    "C12": dict(open=8, close=4, append=0.85, env=8, lock=2, nfiles=[1], write=20, trunc=5, seek=12),
    "C16": dict(open=8, close=14, lock=8, unlock=3, fault=0.8, write=18, with_=4, wrap=0.2),
    "C18": dict(open=8, close=4, api=["patched"], env=2, wrap=0.25, truncneg=1),
    "C18std": dict(open=8, close=4, api=["std"], env=2, wrap=0.25, truncneg=1),
}


class StreamRun(object):
    def __init__(self, job):
        self.job = job
        self.r = random.Random(job["seed"])
        self.prof = PROFILES[job["prof"]]
        self.events = []
        self.dir = conc.tempfile.mkdtemp(prefix="s_", dir=os.environ["VSCRATCH"])
        r = self.r
        self.nf = r.choice(self.prof.get("nfiles", [1, 1, 2]))
        self.base = 0
        if r.random() < self.prof.get("zoom", 0):
            self.base = r.choice([2**31 - 3, 2**31 + 5, 2**32 - 3, 2**32 + 9, 2**33 + 2**31, 2**40 - 2])
            self.nf = 1
        self.flavour = r.choice(["plain", "plain", "plain", "nl", "utf8", "codec"])
        if self.base:
            self.flavour = "plain"
        self.fancy = self.flavour != "plain"
        self.nlflavour = r.choice([0, 1, 3, 4])
        self.paths, self.ofd, self.foreign = [None], [None], [None]
        self.streams, self.inf = {}, {}
        self.ns = 0
        self.uids = {}
        self.shim = Shim.get() if not conc.WIN else conc.winsim.Faults()
        self.keep = []
        self.envs = {}
        self.fault = 0
        self.elk = set()
        self.obs_on = r.random() < self.prof.get("obs", 0)

    K = 16

    def m2r(self, x):
        return x if not self.base or x < self.K else x - self.K + self.base

    def r2m(self, x):
        if not self.base or x < self.K:
            return x
        return x - self.base + self.K if x >= self.base else -7

    # ------------------------------------------------------------ ground truth
    def content(self, f):
        fd = self.ofd[f]
        n = os.fstat(fd).st_size
        if not self.base:
            return list(posix.pread(fd, 100000, 0))
        if n < self.K:
            return list(posix.pread(fd, self.K, 0))
        if n < self.base:
            return [-1]
        return list(posix.pread(fd, self.K, 0)) + list(posix.pread(fd, 1000, self.base))

    def disk(self):
        return [self.content(f) for f in range(1, self.nf + 1)]

    def ev(self, **kw):
        self.events.append(kw)

    # ------------------------------------------------------------ calls
    def call(self, fn, obsf=None, ranges=None, **a):
        """records one operation; with observation of every intermediate state if obsf is a file"""
        a.setdefault("fault", self.fault)
        self.ev(ev="call", **a)
        box = []

        def go():
            try:
                box.append(("ok", fn()))
            except BaseException as e:  # noqa
                if isinstance(e, dsched.Stuck):
                    raise
                c = classify(e)
                box.append((c + (" " + repr(e)[:120] if c.startswith("bug") else ""), e))
                while e is not None:  # (cycles through tracebacks would finalize streams in any order)
                    x, e.__traceback__, e.__context__, e.__cause__ = e.__context__, None, None, None
                    e = x
        if obsf and self.obs_on:
            last = [None]
            n = [0]

            def look(kind):
                n[0] += 1
                if n[0] > 600:
                    return
                d = self.disk()
                cells = self.foreign[obsf].call("probe")
                prot = 2
                for lo, hi in ranges or []:
                    prot = min([prot] + [cells[c] for c in range(NC) if c >= lo and (hi == INF or c < hi)])
                if (d, prot) != last[0]:
                    last[0] = (d, prot)
                    self.ev(ev="obs", disk=d, prot=prot)
            sch = dsched.Sched(random.Random(1), p=0, on_point=look)
            sch.spawn("T", go)
            sch.run()
            if sch.stuck:
                self.ev(ev="ret", res="stuck", val=0, disk=self.disk())
                raise RuntimeError("stuck")
        else:
            go()
        res, val = box[0]
        return res, val

    def ret(self, res, val=0):
        self.ev(ev="ret", res=res, val=val if res == "ok" else 0, disk=self.disk())

    # ------------------------------------------------------------ opening
    def op_open(self):
        r, p = self.r, self.prof
        f = r.randint(1, self.nf)
        s = self.ns = self.ns + 1
        api = r.choice(p.get("api", ["rs"]))
        raw = r.random() < p.get("raw", 0.3)
        text = not raw and r.random() < p.get("text", 0.45)
        app = r.random() < p.get("append", 0.15)
        adv = api == "rs" and r.random() < 0.7
        rd = wr = False
        er = 0
        if r.random() < p.get("ro", 0):
            rd, app = True, False
        while not (rd or wr):
            rd, wr = r.random() < 0.75, r.random() < 0.8
            if r.random() < p.get("both", 0):
                rd = wr = True
        if app:
            wr = True
        if wr:
            er = int(not self.base and r.random() < p.get("erase", 0.1))
        wrap = r.random() < p.get("wrap", 0.12) and not self.base
        if adv:
            mode = ("R" if rd else "") + ("A" if app else "W" if wr else "") + ("E" if er else "")
            if r.random() < 0.15:
                mode += "N"
            if r.random() < 0.1:
                mode += "S"
            if r.random() < 0.1:
                mode += "I"
            if not text:
                mode += "B"
            elif r.random() < 0.3:
                mode += "T"
        else:
            if app:
                er = 0
                mode = "a" + ("+" if rd else "")
            elif not wr:
                mode = "r"
            elif er or (not rd and not self.base):
                mode, er = "w" + ("+" if rd else ""), 1
            else:
                mode, rd = "r+", True
            mode += "" if text else "b"
        if self.flavour == "utf8":
            # characters must not get cut
            others = [i for i in self.inf.values() if i["open"] and i["f"] == f]
            if (wr and any(i["wr"] for i in others)) or (er and others) or (wr and not text):
                return None
        if wrap:
            er = 0
        kind = "raw" if raw else "text" if text else "buf"
        kw = {}
        nl, enc, lb, alphabet = 2, 0, 0, None
        if raw:
            kw["buffering"] = 0
        elif r.random() < 0.75:
            kw["buffering"] = r.choice([2, 3, 4, 7, 16])
        if text:
            if self.fancy:
                nl, enc = self.nlflavour, int(self.flavour == "utf8")
                kw["encoding"] = "utf-8" if enc else r.choice(["ascii", "latin-1"])
                if self.flavour == "codec":
                    kw["encoding"], kw["errors"] = r.choice(["ascii", "latin-1", "utf-8", None]), r.choice([None, "strict", "ignore", "replace", "surrogateescape"])
                    if kw["encoding"] == "latin-1":
                        kw["errors"] = r.choice([None, "strict", "ignore", "replace"])
                        enc = {"ignore": 7, "replace": 6}.get(kw["errors"], 5)
                    else:
                        if kw["errors"] == "ignore" and rd:
                            kw["errors"] = "replace"
                        enc = {"ignore": 2, "replace": 3, "surrogateescape": 8}.get(kw["errors"], 4)
                    alphabet = list(range(0xf8, 0x100)) + [0xdcf8, 0xdcff, 0xd801] + ([0x20ac, 0x100] if kw["encoding"] in ("ascii", "latin-1") else [])
                    if kw["encoding"] in ("utf-8", None):
                        alphabet = [0xdcf8, 0xdcff, 0xdcf9, 0xd801]
            else:
                kw["encoding"] = r.choice(["latin-1", "ascii"])
            kw["newline"] = NLS[nl]
            if r.random() < 0.2:
                kw["buffering"], lb = 1, 1
        lock = 0
        if api == "rs":
            lock = int(r.random() < p.get("locked_open", 0.12))
            ts = r.random() < 0.3
            kw.update(locking=bool(lock), thread_safe=ts)
            if lock:
                kw["timeout"] = 0
        pos, noclose = 0, 0
        name = self.paths[f]
        if wrap:
            fl = posix.O_RDWR if rd and wr else posix.O_WRONLY if wr else posix.O_RDONLY
            pos = r.choice([0, 0, 3, 7]) if not self.fancy else 0
            kw["closefd"] = r.random() < 0.5
            if conc.WIN:
                K = conc.winsim.K
                fd = K.open_fd(name, (0x80000000 if rd else 0) | (0x40000000 if wr else 0))
                K.handles[K.crt[fd]].pos = pos
            else:
                fd = posix.open(name, fl | (posix.O_APPEND if app else 0))
                posix.lseek(fd, pos, 0)
            noclose = int(not kw["closefd"])
            if api == "rs" and adv:
                if conc.WIN and not noclose and r.random() < 0.5:
                    K.crt.pop(fd)
                    posix.close(fd)
                    kw["handle"] = K.next - 4
                    kw["closefd"] = True
                else:
                    kw["fileno"] = fd
                name = None
            else:
                name = fd
        elif api == "rs" and r.random() < 0.1:
            name = os.fsencode(name)
        elif r.random() < 0.1:
            name = pathlib.Path(name)
        fn = {"rs": rsfile.rsopen, "std": builtins.open, "patched": _ut.BUILTIN_OPEN_FUNC_REPLACEMENT}[api]
        if raw and api != "rs" and r.random() < 0.4:
            kw2 = {k: v for k, v in kw.items() if k == "closefd"}
            cls = _ut.RSFileIOWrapper if api == "patched" else io.FileIO
            m2 = mode.replace("b", "")
            opener = lambda: cls(name, m2, **kw2)  # noqa
        else:
            opener = lambda: fn(name, mode, **kw)  # noqa
        res, val = self.call(opener, obsf=f if (er or lock) else None, ranges=[(0, INF)], op="open", s=s, f=f, kind=kind, rd=int(rd),
                             wr=int(wr), app=int(app), er=er, lock=lock, nl=nl, enc=enc, lb=lb, pos=pos, noclose=noclose)
        if res == "ok":
            self.streams[s] = val
            self.inf[s] = dict(f=f, kind=kind, rd=rd, wr=wr, app=app, noclose=bool(noclose), plain=kind != "text" or not self.fancy, text=text, open=True,
                               lk=[(0, INF)] if lock else [], cookies=[], mix="", nl=nl, enc=enc, api=api, alphabet=alphabet,
                               ts=kw.get("thread_safe", False), unk=False)
            if pos:
                self.inf[s]["moved"] = True
        self.ret(res)
        return s if res == "ok" else None

    # ------------------------------------------------------------ data
    def data(self, i):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 13])
        out = []
        for _ in range(n):
            x = r.random()
            if x < 0.12:
                out.append(10)
            elif x < 0.16 and (self.fancy or not i["text"]):
                out.append(13)
            elif i["text"] and i["enc"] == 1 and x < 0.4:
                out.append(r.choice(UNI))
            elif i["alphabet"] and x < 0.22:
                out.append(r.choice(i["alphabet"]))
            elif self.flavour == "codec" and not i["text"] and x < 0.22:
                out.append(r.randint(0xf8, 0xff))
            else:
                out.append(r.choice(ALPHA))
        return out

    def chars(self, v):
        if v is None:
            return [-3]
        return [ord(c) for c in v] if isinstance(v, str) else list(v)

    def size_now(self, s):
        return len(self.content(self.inf[s]["f"]))

    def guard_mix(self, s, what):
        """text streams (like in the stdlib) need a repositioning between reads and writes"""
        i = self.inf[s]
        if i["text"] and i["mix"] == "r" and what == "w":
            if self.op_seek(s, (0, 2 if i["unk"] or self.fancy else 1)) != "ok":
                return False
        i["mix"] = what
        return True

    def op_write(self, s):
        r, i, f = self.r, self.inf[s], self.streams[s]
        if not self.guard_mix(s, "w"):
            return
        if not i["app"] and (i["unk"] or (self.fancy and not i.get("atend"))):
            if self.op_seek(s, (0, 2)) != "ok":
                return
            i["mix"] = "w"
        i["atend"] = True
        if self.base and (os.fstat(self.ofd[i["f"]]).st_size < self.base if i["app"] else not self.far(s)):
            return
        if r.random() < 0.12 and i["api"] == "rs" and self.fault != 1 and not i["alphabet"]:
            parts = [self.data(i) for _ in range(r.choice([1, 2, 3]))]
            d = [c for x in parts for c in x]
            mk = (lambda x: "".join(map(chr, x))) if i["text"] else bytes
            if i["kind"] == "raw":
                return
            tail = []
            for x in parts:
                tail = [] if 10 in x or 13 in x else tail + x
            res, val = self.call(lambda: f.writelines([mk(x) for x in parts]), op="writelines", s=s, data=d, tail=tail)
            self.after_op(s, res)
            self.ret(res, 0)
            return
        d = self.data(i)
        if i["text"]:
            arg = "".join(map(chr, d))
        else:
            arg = bytes(d)
            k = r.random()
            if k < 0.15:
                arg = bytearray(arg)
            elif k < 0.3:
                arg = memoryview(arg)
            elif k < 0.4 and i["kind"] == "raw":
                import array
                arg = array.array("B", arg)
        res, val = self.call(lambda: f.write(arg), op="write", s=s, data=d, tail=[] if 10 in d or 13 in d else d)
        self.after_op(s, res)
        self.ret(res, val)

    def after_op(self, s, res):
        if res == "val" and self.inf[s]["alphabet"]:
            self.inf[s]["unk"] = True
            self.inf[s]["atend"] = False
        if res != "ok" and self.fault == 1:
            self.nfail = getattr(self, "nfail", 0) + 1
            if self.nfail % 4 == 0:  # (what a failed write leaves pending is open: not too often)
                self.shim.disarm()
                self.fault = 0
            self.inf[s]["unk"] = True
            self.inf[s]["atend"] = False

    def stale(self, s):
        i = self.inf[s]
        return self.envs.get(i["f"], 0) > 0 or any(j["f"] == i["f"] and j["wr"] and t != s for t, j in self.inf.items())

    def far(self, s):
        """zoomed files: is the position in the far window"""
        i = self.inf[s]
        return i.get("pfar", False)

    def op_read(self, s, small=False):
        r, i, f = self.r, self.inf[s], self.streams[s]
        if self.base and i["rd"] and not self.far(s):
            if self.op_seek(s) != "ok" or not self.far(s):
                return
        if not self.guard_mix(s, "r"):
            return
        i["atend"] = False
        if i["text"] and self.fancy and self.stale(s):
            i["unk"] = True
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 20, -1, -1] if not small else [1, 1, 2])
        k = r.random() if not small else r.choice([0, 1, 1])
        if k < 0.2 and not i["text"]:
            b = bytearray(max(n, 0))
            res, val = self.call(lambda: f.readinto(b), op="readinto", s=s, n=max(n, 0))
            self.after_op(s, res)
            self.ret(res, self.chars(bytes(b[:val])) if res == "ok" and val is not None else [-3])
        elif k < 0.3:
            n = r.choice([-1, -1, 0, 1, 3, 6])
            res, val = self.call(lambda: f.readline() if n < 0 and r.random() < 0.5 else f.readline(n), op="readline", s=s, n=n)
            self.after_op(s, res)
            self.ret(res, self.chars(val) if res == "ok" else 0)
        elif k < 0.38 and not (i["text"] and not i["rd"]) and not (i["alphabet"] and i["enc"] == 4):
            i["unk"] = True
            way = r.random()
            res, val = self.call(lambda: list(f) if way < 0.5 else f.readlines(), op="lines", s=s, n=-1)
            self.after_op(s, res)
            self.ret(res, [self.chars(x) for x in val] if res == "ok" else 0)
        elif k < 0.45 and i["kind"] == "buf" and i["rd"]:
            res, val = self.call(lambda: f.read1(n), op="read1", s=s, n=n)
            self.after_op(s, res)
            self.ret(res, self.chars(val) if res == "ok" else 0)
        elif k < 0.5 and i["kind"] == "buf" and i["rd"]:
            res, val = self.call(lambda: f.peek(1), op="peek", s=s, n=1)
            self.after_op(s, res)
            self.ret(res, self.chars(val) if res == "ok" else 0)
        elif k < 0.55 and i["kind"] == "raw" and n < 0:
            res, val = self.call(lambda: f.readall(), op="read", s=s, n=-1)
            self.after_op(s, res)
            self.ret(res, self.chars(val) if res == "ok" else 0)
        else:
            res, val = self.call(lambda: f.read() if n < 0 and r.random() < 0.5 else f.read(n), op="read", s=s, n=n)
            self.after_op(s, res)
            self.ret(res, self.chars(val) if res == "ok" else 0)

    def op_seek(self, s, how=None):
        r, i, f = self.r, self.inf[s], self.streams[s]
        size = self.size_now(s)
        if how:
            off, wh = how
        elif i["text"] and not i["plain"]:
            k = r.random()
            if k < 0.5 and i["cookies"]:
                off, wh = r.choice(i["cookies"]), 0
            else:
                off, wh = r.choice([(0, 0), (0, 1), (0, 2), (0, 2), (1, 1), (-1, 2), (-1, 0)])
        else:
            wh = r.choice([0, 0, 0, 1, 2])
            if wh == 0:
                off = r.choice([0, 1, 3, size, max(0, size - 2), size + r.choice([1, 4]), r.randint(0, 12), -1])
                if self.base and 0 <= off < self.K:
                    off = self.K + off
            else:
                off = r.choice([0, 0, 0, 1, -1, 2, -2, 4, -30])
                if i["text"] and r.random() < 0.8:
                    off = 0
        if self.base and wh == 1 and not (self.far(s) and off >= 0):
            return "skip"
        if self.base and wh == 2 and (off < 0):
            return "skip"
        real_off = self.m2r(off) if wh == 0 and not (i["text"] and not i["plain"]) else off
        res, val = self.call(lambda: f.seek(real_off, wh) if wh or r.random() < 0.5 else f.seek(real_off), op="seek", s=s,
                             off=self.cookie(s, off) if i["text"] and not i["plain"] else off, wh=wh)
        self.ret(res, self.cookie(s, val) if res == "ok" else 0)
        self.after_op(s, res)
        if res == "ok":
            i["mix"] = ""
            if wh == 2 or (wh == 0 and (i["plain"] or off == 0)):
                i["unk"] = False
            if wh == 0 and off and not i["plain"] and self.stale(s):
                i["unk"] = True
            i["atend"] = (wh == 2 and off == 0) or (self.flavour == "nl" and wh == 0 and off == 0)
            i["pfar"] = bool(self.base) and val >= self.base
            if i["text"] and not i["plain"] and not i["unk"]:
                i["cookies"].append(val)
        return res

    def cookie(self, s, v):
        i = self.inf[s]
        if i["text"] and not i["plain"]:
            if v >= 2**31:  # cookies are opaque: give them small names
                c = i.setdefault("big", {})
                v = c.setdefault(v, 100000 + len(c))
            return v
        return self.r2m(v)

    def op_tell(self, s):
        i, f = self.inf[s], self.streams[s]
        res, val = self.call(lambda: f.tell(), op="tell", s=s)
        self.ret(res, self.cookie(s, val) if res == "ok" else 0)
        if res == "ok" and i["text"] and not i["plain"] and not i["unk"]:
            i["cookies"].append(val)
        return val if res == "ok" else None

    def op_size(self, s):
        f = self.streams[s]
        if self.inf[s]["api"] != "rs":
            return
        res, val = self.call(lambda: f.size(), op="size", s=s)
        self.ret(res, self.r2m(val) if res == "ok" else 0)
        return val if res == "ok" else None

    def op_flush(self, s):
        f = self.streams[s]
        res, val = self.call(lambda: f.flush(), op="flush", s=s)
        self.after_op(s, res)
        self.ret(res)

    def op_detach(self, s):
        """the upper layer goes, the one below gets used directly"""
        r, i = self.r, self.inf[s]
        if i["kind"] == "raw" or self.fault or any(len(x) == 3 and x[2] is not None for x in i["lk"]):
            return
        if i["open"]:
            i["mix"] = ""
        res, val = self.call(lambda: self.streams[s].detach(), op="detach", s=s)
        if res == "ok":
            if r.random() < 0.3:
                self.keep.append(self.streams[s])
            self.streams[s] = val
            val = None
            i.update(kind="raw" if i["kind"] == "buf" else "buf", text=False, enc=0, nl=2, alphabet=None, plain=True, cookies=[])
            if i["kind"] == "buf" and self.r.random() < 0.1:
                gc.collect()
        self.ret(res)
        if res == "ok":
            i["unk"] = True
            self.op_seek(s, (0, 2) if r.random() < 0.7 or self.base else (0, 0))

    def op_attrs(self, s):
        f = self.streams[s]
        if self.inf[s]["api"] == "std":
            return
        res, val = self.call(lambda: [int(f.readable()), int(f.writable()), 1 if self.inf[s]["api"] == "std" else int(f.seekable()),
                                    int(f.closed), self.ident(s), self.times(s)], op="attrs", s=s)
        self.ret(res, val if res == "ok" else 0)

    def ident(self, s):
        """the file that unique_id() tells (0: it changed for this file)"""
        uid, f = self.streams[s].unique_id(), self.inf[s]["f"]
        if not (isinstance(uid, tuple) and len(uid) == 2 and all(isinstance(x, int) and x > 0 for x in uid)):
            return -1
        if self.uids.setdefault(("f", f), uid) != uid:
            return 0
        return self.uids.setdefault(uid, f)

    def times(self, s):
        t, st = self.streams[s].times(), os.fstat(self.ofd[self.inf[s]["f"]])
        return int(abs(t.access_time - st.st_atime) < 0.01 and abs(t.modification_time - st.st_mtime) < 0.01)

    def op_trunc(self, s):
        r, i, f = self.r, self.inf[s], self.streams[s]
        if self.flavour == "utf8" and any(j["open"] and t != s and j["f"] == i["f"] for t, j in self.inf.items()):
            return
        i["atend"] = False
        if i["text"] and not i["plain"]:
            n, none = 0, 0
        else:
            size = self.size_now(s)
            none = int(r.random() < 0.3)
            n = r.choice([0, 1, size, max(0, size - 3), size + r.choice([1, 5]), r.randint(0, 14), -1])
            if self.base:
                if none and not self.far(s):
                    return
                if 0 <= n < self.K:
                    n += self.K
        # (the position of append streams with unflushed data is unspecified)
        if none and i["app"] and i["kind"] != "raw":
            none = 0
        if i["text"] and i["mix"] == "r" or (none and i["unk"]):
            if self.op_seek(s, (0, 2 if i["unk"] else 1)) != "ok":
                return
        if i["app"] or not i["plain"]:
            i["unk"] = True
        kw = {}
        if i["kind"] == "raw" and i["api"] == "rs" and r.random() < 0.4 and not none:
            kw["zero_fill"] = r.random() < 0.5 or True
        res, val = self.call(lambda: f.truncate() if none else f.truncate(self.m2r(n), **kw), obsf=i["f"] if r.random() < 0.2 else None,
                             op="truncate", s=s, n=n, none=none)
        self.after_op(s, res)
        for j in self.inf.values():
            j["cookies"] = []
        self.ret(res, self.r2m(val) if res == "ok" else 0)

    # ------------------------------------------------------------ locks
    def op_lock(self, s):
        r, i, f = self.r, self.inf[s], self.streams[s]
        if i["api"] != "rs":
            return
        lo = r.choice([0, 0, 0, 1, 2])
        hi = r.choice([INF, INF, lo + 1, lo + 2])
        kw = dict(timeout=0, offset=lo)
        if hi != INF:
            kw["length"] = hi - lo
        sh = 2
        if i["rd"] and i["wr"] and r.random() < 0.3:
            sh = r.choice([0, 1])
            kw["shared"] = bool(sh)
        wh, off = self.relative(s, lo, kw)
        if hi == INF and r.random() < 0.4:
            kw["length"] = r.choice([None, 0])
        res, val = self.call(lambda: f.lock_file(**kw), op="lock", s=s, lo=lo, hi=hi, sh=sh, wh=wh, off=off)
        if res == "ok":
            cm = None
            if r.random() < 0.5:
                val.__enter__()
                self.keep.append(val)
                cm = val
            i["lk"].append((lo, hi, cm))
            i["mix"] = ""
        self.after_op(s, res)
        self.ret(res)

    def op_stale(self, s):
        """data read before the lock, changed by somebody else, then read under the lock"""
        r, i = self.r, self.inf[s]
        if not i["rd"] or self.fault:
            return
        if r.random() < 0.7 and self.op_seek(s, (0, 0)) != "ok":
            return
        for _ in range(r.choice([1, 1, 2])):
            if i["open"]:
                self.op_read(s, True)
        for _ in range(r.choice([1, 2, 3])):
            self.op_env(i["f"])
        for x in list(i["lk"]) if r.random() < 0.5 else []:
            self.op_unlock(s)
        self.op_lock(s)
        for _ in range(r.choice([1, 2])):
            self.op_read(s)

    def relative(self, s, lo, kw):
        """the same place, told from the position or from the end of the file"""
        r, i = self.r, self.inf[s]
        if self.base or (i["text"] and not i["plain"]) or i["unk"] or not i["open"] or r.random() < 0.7:
            return 0, lo
        wh = 2 if i["app"] else r.choice([1, 2])  # (the position moves when appended data gets flushed)
        v = self.op_tell(s) if wh == 1 else self.op_size(s)
        if v is None:
            return 0, lo
        kw.update(whence=wh, offset=lo - v)
        return wh, lo - v

    def op_unlock(self, s):
        r, i, f = self.r, self.inf[s], self.streams[s]
        if i["api"] != "rs" or not i["lk"]:
            return
        k = r.randrange(len(i["lk"]))
        lk = i["lk"][k]
        lo, hi, cm = lk if len(lk) == 3 else lk + (None,)
        wh, off = 0, lo
        if cm is not None:
            exc = r.random() < 0.4

            def fn():
                if exc:
                    try:
                        raise KeyError(1)
                    except KeyError as e:
                        try:
                            cm.__exit__(KeyError, e, e.__traceback__)
                        except KeyError:
                            pass
                else:
                    cm.__exit__(None, None, None)
        else:
            kw = dict(offset=lo)
            if hi != INF:
                kw["length"] = hi - lo
            elif lo == 0 and r.random() < 0.5:
                kw = {}
            elif r.random() < 0.4:
                kw["length"] = r.choice([None, 0])
            wh, off = self.relative(s, lo, kw)
            fn = lambda: f.unlock_file(**kw)  # noqa
        res, val = self.call(fn, obsf=i["f"], ranges=[(lo, hi)], op="unlock", s=s, lo=lo, hi=hi, cm=int(cm is not None), wh=wh, off=off)
        if res == "ok" or (cm is not None):
            i["lk"].pop(k)
        self.after_op(s, res)
        self.ret(res)

    def op_close(self, s):
        r, i, f = self.r, self.inf[s], self.streams[s]
        how = r.choice(["close", "close", "close", "with", "withexc", "gc"])
        if (self.fault == 1 and how == "gc") or (not i["open"] and how != "gc"):
            how = "close"

        def fn():
            if how == "close":
                f.close()
            elif how == "gc":
                del self.streams[s]
                gc.collect()
            else:
                try:
                    with f:
                        if how == "withexc":
                            raise KeyError(1)
                except KeyError:
                    pass
        if how == "gc":
            f = None
            self.keep = [c for c in self.keep if c not in [x[2] for x in i["lk"] if len(x) == 3]]
            i["lk"] = [x[:2] for x in i["lk"]]
        res, val = self.call(fn, obsf=i["f"], ranges=[x[:2] for x in i["lk"]], op="close", s=s)
        i["open"] = False
        i["lk"] = []
        self.ret(res)
        if how == "gc":
            self.inf[s]["gone"] = True

    # ------------------------------------------------------------ others
    def op_env(self, f=None):
        r = self.r
        f = f or r.randint(1, self.nf)
        if self.flavour == "utf8" and any(j["open"] and j["f"] == f and j["wr"] for j in self.inf.values()):
            return
        self.envs[f] = 1
        k = r.random()
        self.shim.pause()
        fd = self.ofd[f]
        size = os.fstat(fd).st_size
        b = bytes(r.choice(ALPHA) for _ in range(r.choice([1, 2, 5])))
        if self.base:
            posix.pwrite(fd, b, self.base + r.randint(0, 9))
        elif k < 0.45:
            posix.pwrite(fd, b, r.randint(0, size + 1) if not self.fancy else size)
        elif k < 0.8 or self.fancy:
            posix.pwrite(fd, b, size)
        else:
            posix.ftruncate(fd, r.randint(0, size))
        self.shim.resume()
        self.ev(ev="env", f=f, disk=self.disk())

    def op_move(self):
        """the names of the files change: it doesn't matter to streams"""
        r = self.r
        if conc.WIN:
            return
        f = r.randint(1, self.nf)
        old, k = self.paths[f], r.random()
        self.moves = getattr(self, "moves", 0) + 1
        new = os.path.join(self.dir, "g%d" % self.moves)
        if k < 0.2 and self.nf > 1:
            g = r.choice([x for x in range(1, self.nf + 1) if x != f])
            os.rename(old, new)
            os.rename(self.paths[g], old)
            os.rename(new, self.paths[g])
            self.paths[f], self.paths[g] = self.paths[g], old
            return
        if k < 0.5:
            os.rename(old, new)
        elif k < 0.75:
            os.symlink(old, new)
        else:
            os.link(old, new)
        self.paths[f] = new
        if k < 0.5 and r.random() < 0.6:  # another file takes the name
            fd = posix.open(old, posix.O_WRONLY | posix.O_CREAT | posix.O_EXCL, 0o600)
            posix.write(fd, b"another file")
            posix.close(fd)

    def op_envlk(self):
        f = self.r.randint(1, self.nf)
        if f in self.elk:
            self.foreign[f].call("unlock", 0, 0)
            self.elk.discard(f)
            self.ev(ev="envlk", f=f, on=0)
        elif not self.foreign[f].call("lock", 0, 0, False):
            self.elk.add(f)
            self.ev(ev="envlk", f=f, on=1)

    def free(self, f):
        if f not in self.elk:
            self.ev(ev="free", f=f, busy=int(any(self.foreign[f].call("probe"))))

    def fds(self, f):
        if conc.WIN:
            n = conc.winsim.K.descriptors(self.inodes[f - 1]) - sum(x.ino == self.inodes[f - 1] for k, x in conc.winsim.K.handles.items() if k < 0)
            return self.ev(ev="fds", f=f, n=n)
        n = 0
        for name in os.listdir("/proc/self/fd"):
            try:
                st = posix.fstat(int(name))
            except OSError:
                continue
            if st.st_ino == self.inodes[f - 1]:
                n += 1
        self.ev(ev="fds", f=f, n=n - 1)

    def start_fault(self):
        r, sh, p = self.r, self.shim, self.prof.get("fault")
        k = r.random()
        if p == "short":
            k = 0.6
        if conc.WIN:
            k = 0  # (on windows, the transfers of files succeed or fail)
        if k < 0.5:
            self.fault = 1
            sh.arm(sh.WRITE, skip=r.choice([0, 0, 0, 1, 2]), err=r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]))
        elif k < 0.65:
            self.fault = 2
            sh.arm(sh.WRITE | sh.READ, skip=0, err=r.choice([0, -1, -2, -3, -7]))
        else:
            return  # only at close, see below

    def close_fault(self):
        """a fault hitting the closing itself"""
        r, sh = self.r, self.shim
        cand = [s for s, i in self.inf.items() if i["open"]]
        if not cand or self.fault:
            return
        s = r.choice(cand)
        self.fault = 1
        mask = sh.WRITE if conc.WIN else r.choice([sh.WRITE, sh.WRITE, sh.CLOSE, sh.LOCK, sh.WRITE | sh.CLOSE])
        if mask == sh.LOCK and self.inf[s]["noclose"]:
            mask = sh.WRITE
        if mask == sh.LOCK and any(self.inf[x]["lk"] for x in self.inf if x != s):
            mask = sh.WRITE
        if mask & sh.CLOSE and any(self.inf[x]["lk"] for x in self.inf if x != s and self.inf[x]["f"] == self.inf[s]["f"]):
            mask = sh.WRITE
        sh.arm(mask, skip=r.choice([0, 0, 0, 1]) if mask == sh.WRITE else 0, err=r.choice([errno.EIO, errno.ENOSPC]))
        f = self.inf[s]["f"]
        self.op_close(s)
        sh.disarm()
        self.fault = 0
        self.free(f)
        self.fds(f)
        if r.random() < 0.5 and s in self.streams:
            self.after_close(s)

    def after_close(self, s):
        """closed streams: every operation but close() raises ValueError"""
        for _ in range(self.r.choice([1, 2])):
            op = self.r.choice(["read", "write", "seek", "tell", "size", "flush", "trunc", "close", "lock", "detach"])
            if op == "close":
                self.op_close(s)
                if self.inf[s].get("gone"):
                    return
            else:
                i = self.inf[s]
                i["mix"] = ""
                if op == "trunc" or op == "size":
                    if i["api"] != "rs":
                        continue
                if self.base:
                    continue
                getattr(self, "op_" + op)(s)

    # ------------------------------------------------------------ main loop
    def run(self):
        r, p = self.r, self.prof
        for f in range(1, self.nf + 1):
            path = os.path.join(self.dir, "f%d" % f)
            n = r.choice([0, 0, 3, 9, 20])
            nlc = {0: [10, 13], 1: [10, 13], 3: [13], 4: [13, 10]}[self.nlflavour] if self.fancy else [10]
            init = []
            for _ in range(n):
                init += [r.choice(nlc)] if r.random() < 0.2 else [r.randint(0xf8, 0xff)] if self.flavour == "codec" and r.random() < 0.1 else [r.choice(ALPHA)]
            fd = posix.open(path, posix.O_RDWR | posix.O_CREAT, 0o600)
            posix.write(fd, bytes(init))
            if self.base:
                posix.ftruncate(fd, self.base)
                posix.pwrite(fd, bytes(init), self.base)
            self.paths.append(path)
            self.ofd.append(fd)
            self.foreign.append(Foreign(path))
            self.foreign[f].call("probe")  # (it has opened the file)
        self.inodes = [posix.fstat(self.ofd[f]).st_ino for f in range(1, self.nf + 1)]
        self.shim.setup(self.inodes, on=1 if p.get("fault") else 0)
        try:
            self.ev(ev="init", disk=self.disk())
            self.loop()
        finally:
            self.shim.off()
            for x in self.foreign[1:]:
                x.stop()
        return self.events

    def loop(self):
        r, p = self.r, self.prof
        w = dict(open=6, close=4, read=14, write=14, seek=10, tell=6, size=4, flush=4, trunc=4, attrs=2, env=2, lock=2, unlock=2,
                 envlk=0, move=0.6, stale=0, detach=0.6, closefault=0, fault=0, after=1)
        w.update({k: v for k, v in p.items() if k in w and k != "fault"})
        if p.get("fault"):
            w["fault"] = 3 if p["fault"] == "short" else 8 * p["fault"]
            w["closefault"] = 0 if p["fault"] == "short" else 6 * p["fault"]
        ops = [k for k, v in w.items() for _ in range(int(round(v)))]
        for _ in range(r.choice(p.get("steps", [12, 20, 30]))):
            op = r.choice(ops)
            live = [s for s, i in self.inf.items() if i["open"]]
            if op == "open" or not live:
                if len(live) < 3:
                    s = self.op_open()
                    if s and p.get("api") and r.random() < 0.3:
                        self.free(self.inf[s]["f"])
                continue
            if op == "env":
                if self.base or not self.fancy or True:
                    self.op_env()
                continue
            if op in ("envlk", "move"):
                getattr(self, "op_" + op)()
                continue
            if op == "fault":
                if self.fault:
                    self.shim.disarm()
                    self.fault = 0
                else:
                    self.start_fault()
                continue
            if op == "closefault":
                self.close_fault()
                continue
            if op == "after":
                dead = [s for s, i in self.inf.items() if not i["open"] and not i.get("gone")]
                if dead:
                    self.after_close(r.choice(dead))
                continue
            s = r.choice(live)
            i = self.inf[s]
            if self.fault == 1 and op in ("read", "seek", "tell", "size", "lock", "trunc") and (i["text"] or r.random() < 0.7):
                op = r.choice(["write", "flush", "close"])
            f = i["f"]
            getattr(self, "op_" + op)(s)
            if op in ("close", "unlock"):
                self.free(f)
                if op == "close":
                    self.fds(f)
        self.shim.disarm()
        self.fault = 0
        for s, i in list(self.inf.items()):
            if i["open"]:
                if r.random() < 0.3:
                    self.op_flush(s)
                self.op_close(s)
        for f in range(1, self.nf + 1):
            self.free(f)
            self.fds(f)


RUNS = {"streams": StreamRun}
