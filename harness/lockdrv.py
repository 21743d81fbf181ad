"""Multi-process lock histories on the real code, recorded for spec/LockTrace.tla."""
import os, sys, json, socket, subprocess, select, time, signal, random, tempfile, shutil
from common import *
import worker_probe as wp

NC = 6
INF = 1000000
LAYOUTS = [
    [0, 1, 2, 3, 4, 5],
    [0, 10, 20, 4096, 8192, 8200],
    [0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1],
    [0, 100, 2 ** 32 - 1, 2 ** 33, 2 ** 40, 2 ** 62],
    [0, 1, 2 ** 62, 2 ** 62 + 1, 2 ** 63 - 3, 2 ** 63 - 2],
]


class Died(Exception):
    pass


class Zygote(object):
    _one = None

    @classmethod
    def get(cls):
        if cls._one is None or cls._one.p.poll() is not None:
            cls._one = cls()
        return cls._one

    def __init__(self):
        self.p = subprocess.Popen([PY, "-u", os.path.join(VERIF, "harness", "zygote.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=child_env(), text=True, cwd=scratch(),
                                  stderr=open(os.path.join(scratch(), "zygote.err"), "a"))

    def spawn(self, sock, pid, env=None):
        self.p.stdin.write(json.dumps({"sock": sock, "pid": pid, "env": env or {}}) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())["pid"]


class Conn(object):
    def __init__(self, sock):
        self.sock = sock
        self.buf = b""
        self.msgs = {}
        self.ospid = None

    def pump(self, timeout):
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r:
            return False
        data = self.sock.recv(65536)
        if not data:
            raise Died()
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(line)
            self.msgs[m.get("id", "hello")] = m
        return True

    def wait(self, id, timeout=60):
        end = time.time() + timeout
        while id not in self.msgs:
            left = end - time.time()
            if left <= 0:
                return None
            self.pump(left)
        return self.msgs.pop(id)


class Session(object):
    """One recorded execution."""

    def __init__(self, nfiles=1, layout=0, links=False, roots=None):
        self.dir = tempfile.mkdtemp(prefix="s_", dir=scratch())
        self.B = LAYOUTS[layout]
        self.layout = layout
        self.events = []
        self.conns = {}
        self.nid = 0
        self.srv = socket.socket(socket.AF_UNIX)
        self.sockpath = os.path.join(self.dir, "sock")
        self.srv.bind(self.sockpath)
        self.srv.listen(20)
        self.files = {}
        self.log = []
        self.cprobe = {}
        for f in range(1, nfiles + 1):
            d = os.path.join(self.dir, "d%d" % f)
            if roots:
                # (the file systems number their files in order: same numbers on all of them)
                top = roots[f - 1]
                shutil.rmtree(os.path.join(top, "d%d" % f), ignore_errors=True)
                os.mkdir(os.path.join(top, "d%d" % f))
                os.symlink(os.path.join(top, "d%d" % f), d)
            else:
                os.mkdir(d)
            path = os.path.join(d, "file")
            with open(path, "wb") as fh:
                fh.write(b"0123456789" * 3)
            names = [path]
            if links:
                os.link(path, os.path.join(d, "hard"))
                os.symlink("file", os.path.join(d, "sym"))
                names += [os.path.join(d, "hard"), os.path.join(d, "sym"), os.path.join(d, "..", "d%d" % f, "file")]
            st = os.stat(path)
            self.files[f] = {"names": names, "inode": [st.st_dev, st.st_ino]}
            self.cprobe[f] = os.open(path, os.O_RDWR)
        # mirror of the abstract state, only used to choose operations and waiting delays
        self.streams = {}   # s -> dict(p,f,h,fd,own,rd,wr,open,kind,...)
        self.held = []      # dict(h,p,f,sh,lo,hi,s)
        self.handles = {}   # (p, fd) -> h   live
        self.raws = {}      # h -> dict(p, fd, f)
        self.infl = {}      # t -> dict
        self.sizes = {f: None for f in self.files}
        self.next = {"s": 1, "h": 1, "p": 1, "t": 1, "cm": 1}
        self.pidlive = []
        self.broken = None

    def close(self):
        for c in self.conns.values():
            try:
                os.kill(c.ospid, signal.SIGKILL)
            except OSError:
                pass
            c.sock.close()
        self.srv.close()
        for fd in self.cprobe.values():
            os.close(fd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self, k):
        v = self.next[k]
        self.next[k] += 1
        return v

    # ---------------------------------------------------------------- processes
    def accept(self):
        self.srv.settimeout(60)
        s, _ = self.srv.accept()
        c = Conn(s)
        hello = c.wait("hello")
        c.ospid = hello["ospid"]
        return hello["hello"], c

    def spawn(self, options=None):
        p = self.fresh("p")
        Zygote.get().spawn(self.sockpath, p)
        pp, c = self.accept()
        assert pp == p
        self.conns[p] = c
        self.pidlive.append(p)
        self.req(p, {"c": "prep", "files": [[f, v["names"][0]] for f, v in self.files.items()], "options": options})
        return p

    def send(self, p, cmd):
        self.nid += 1
        cmd = dict(cmd, id=self.nid)
        self.log.append([p, cmd])
        self.conns[p].sock.sendall((json.dumps(cmd) + "\n").encode())
        return self.nid

    def req(self, p, cmd, timeout=60):
        i = self.send(p, cmd)
        r = self.conns[p].wait(i, timeout)
        if r is None:
            raise MachineryError("no answer from worker to %r" % (cmd,))
        return r

    def ev(self, **kw):
        self.events.append(kw)

    # ---------------------------------------------------------------- observation
    def observe(self, files=None):
        for f in files or self.files:
            self.ev(ev="view", q=0, f=f, m=wp.probe(self.cprobe[f], self.B))
            for p in self.pidlive:
                r = self.req(p, {"c": "probe", "f": f, "B": self.B})
                self.ev(ev="view", q=p, f=f, m=r["m"])
            for p in self.pidlive:
                fds = self.req(p, {"c": "fds", "inode": self.files[f]["inode"]})["fds"]
                self.ev(ev="fds", p=p, f=f, cnt=len(fds),
                        alive=sorted(h for (q, fd), h in self.handles.items() if q == p and fd in fds))

    # ---------------------------------------------------------------- mirror helpers
    @staticmethod
    def overlap(a, b):
        return (a["hi"] == INF or b["lo"] < a["hi"]) and (b["hi"] == INF or a["lo"] < b["hi"])

    def conflict(self, q):
        for r in self.held:
            if r["f"] == q["f"] and r["h"] != q["h"] and self.overlap(r, q) and not (r["sh"] and q["sh"]):
                return True
        return False

    def reenter(self, q):
        return any(r["f"] == q["f"] and r["h"] == q["h"] and self.overlap(r, q) for r in self.held)

    def justified(self):
        """calls in flight which must stay blocked (same fixpoint as Justified in the specification)"""
        J = {t for t, o in self.infl.items() if o["op"] == "lock" and not o["bad"] and self.conflict(o["q"])}
        while True:
            more = set()
            for t, o in self.infl.items():
                if t in J or o["op"] != "lock" or o["bad"]:
                    continue
                q = o["q"]
                for u in J:
                    w = self.infl[u]["q"]
                    if w["p"] == q["p"] and w["f"] == q["f"] and self.overlap(w, q) and (
                            w["h"] == q["h"] or not (w["sh"] and q["sh"])):
                        more.add(t)
            if not more:
                return J
            J |= more

    # ---------------------------------------------------------------- operations
    def offs(self, cell):
        if cell < 0:
            return -7 + cell
        return self.B[cell]

    def new_handle(self, p, fd):
        if (p, fd) in self.handles:
            return self.handles[(p, fd)]
        h = self.fresh("h")
        self.handles[(p, fd)] = h
        return h

    def op_raw(self, p, f, flags=os.O_RDWR, dup=None):
        if dup is None:
            r = self.req(p, {"c": "rawopen", "path": self.files[f]["names"][0], "flags": flags})
        else:
            r = self.req(p, {"c": "dup", "fd": dup})
        h = self.new_handle(p, r["fd"])
        self.raws[h] = {"p": p, "fd": r["fd"], "f": f, "flags": flags}
        self.ev(ev="raw", h=h, p=p, f=f)
        return h

    def op_open(self, p, f, kw, rd, wr, locking=False, timeout=None, raw=None, name=0, t=0, text=False, extra=None):
        """kw: mode/buffering/... ; raw: handle id to wrap (then kw has closefd)"""
        s = self.fresh("s")
        kw = dict(kw)
        own = True
        if raw is not None:
            kw["fileno"] = self.raws[raw]["fd"]
            own = kw.get("closefd", True)
        else:
            kw["name"] = self.files[f]["names"][name % len(self.files[f]["names"])]
        kw["locking"] = locking
        if locking:
            kw["timeout"] = timeout
        cmd = {"c": "open", "s": s, "kw": kw, "t": t}
        cmd.update(extra or {})
        # the handle is only known afterwards: a fresh one for a path
        h = raw if raw is not None else self.fresh("h")
        if locking:
            q = {"h": h, "p": p, "f": f, "sh": not wr, "lo": 0, "hi": INF}
            self.ev(ev="call", t=t, op="openlock", s=s, h=h, p=p, f=f, own=own, rd=rd, wr=wr, tm=-1, enf=-1, spin=0,
                    to=-1 if timeout is None else 0)
        r = self.req(p, cmd) if t == 0 else self.req(p, cmd)
        if r["res"] == "ok":
            if raw is None:
                self.handles[(p, r["fd"])] = h
            else:
                h = raw
            self.streams[s] = {"p": p, "f": f, "h": h, "fd": r["fd"], "own": own, "rd": rd, "wr": wr, "open": True,
                               "kw": kw, "text": text}
            if own and raw is not None:
                self.raws.pop(raw)
        if locking:
            self.ev(ev="ret", t=t, res=r["res"], tm=-1, rd=rd, wr=wr)
            if r["res"] == "ok":
                self.held.append(dict(q, s=s))
        else:
            if r["res"] != "ok":
                self.ev(ev="call", t=t, op="other", s=0, p=p, wrap=0, tm=-1)
                self.ev(ev="ret", t=t, res="open failed: " + r.get("msg", ""), tm=-1, p=p, f=f, xz=0)
                return None
            self.ev(ev="open", s=s, h=h, p=p, f=f, own=own, rd=rd, wr=wr)
        return s if r["res"] == "ok" else None

    def range_kw(self, s, lo, hi, wh, pos):
        """concrete arguments of a range; the position/size reference is given in cells"""
        st = self.streams[s]
        kw = {}
        size = self.sizes[st["f"]]
        ref = {0: 0, 1: pos, 2: size}[wh]
        conc = self.offs(lo) - (self.B[ref] if wh else 0)
        kw["offset"] = conc
        if wh:
            kw["whence"] = wh
        if hi != INF:
            kw["length"] = self.B[hi] - self.B[lo] if lo >= 0 else self.B[hi]
        return kw, ref

    def op_lock(self, s, lo, hi, sh=None, timeout=0, wh=0, pos=0, t=0, cm=False, kwmod=None, bad=0, form=None):
        st = self.streams[s]
        p, f = st["p"], st["f"]
        kw, ref = self.range_kw(s, lo, hi, wh, pos)
        if form == "short" and wh == 0 and lo == 0:
            kw.pop("offset")
        if form == "zero" and hi == INF:
            kw["length"] = 0
        if form == "none" and hi == INF:
            kw["length"] = None
        kw["timeout"] = timeout
        if sh is not None:
            kw["shared"] = sh
        kw.update(kwmod or {})
        shv = (not st["wr"]) if sh is None else sh
        q = {"h": st["h"], "p": p, "f": f, "sh": shv, "lo": lo, "hi": hi, "s": s}
        len_ = 0 if hi == INF else hi - lo
        cmd = {"c": "lock", "s": s, "kw": kw, "t": t}
        if wh == 1:
            cmd["seek"] = self.B[pos]
        if cm:
            cmd["cm"] = self.fresh("cm")
        self.ev(ev="call", t=t, op="lock", s=s, p=p, off=lo - ref if wh else lo, len=len_, wh=wh, pos=pos,
                size=self.sizes[f] or 0, sh=2 if sh is None else int(sh), to=-1 if timeout is None else 0, bad=bad,
                tm=-1, enf=-1, spin=0, wrap=0)
        o = {"op": "lock", "q": q, "s": s, "p": p, "cm": cmd.get("cm"), "bad": bad or lo < 0 or not st["open"]
             or (shv and not st["rd"]) or (not shv and not st["wr"])}
        self.infl[t] = o
        o["id"] = self.send(p, cmd)
        return self.finish(t)

    def op_unlock(self, s, lo, hi, wh=0, pos=0, t=0, kwmod=None, bad=0):
        st = self.streams[s]
        p, f = st["p"], st["f"]
        kw, ref = self.range_kw(s, lo, hi, wh, pos)
        kw.update(kwmod or {})
        cmd = {"c": "unlock", "s": s, "kw": kw, "t": t}
        if wh == 1:
            cmd["seek"] = self.B[pos]
        self.ev(ev="call", t=t, op="unlock", s=s, p=p, off=lo - ref if wh else lo, len=0 if hi == INF else hi - lo, wh=wh,
                pos=pos, size=self.sizes[f] or 0, sh=2, bad=bad,
                tm=-1, wrap=0)
        self.infl[t] = {"op": "unlock", "q": {"h": st["h"], "f": f, "lo": lo, "hi": hi, "p": p}, "s": s, "p": p, "bad": bad}
        self.infl[t]["id"] = self.send(p, cmd)
        return self.finish(t)

    def op_cmexit(self, rec, exc=False, t=0):
        s = rec["s"]
        st = self.streams[s]
        self.ev(ev="call", t=t, op="unlock", s=s, p=st["p"], off=rec["lo"], len=0 if rec["hi"] == INF else rec["hi"] - rec["lo"],
                wh=0, pos=0, size=0, sh=2, bad=0, tm=-1, wrap=0)
        self.infl[t] = {"op": "unlock", "q": {k: rec[k] for k in ("h", "f", "lo", "hi", "p")}, "s": s, "p": st["p"], "bad": 0}
        self.infl[t]["id"] = self.send(st["p"], {"c": "cmexit", "cm": rec.pop("cm"), "exc": exc, "t": t})
        return self.finish(t)

    def op_close(self, s, how="close", t=0):
        st = self.streams[s]
        self.ev(ev="call", t=t, op="close", s=s, p=st["p"], tm=-1, wrap=0)
        self.infl[t] = {"op": "close", "s": s, "p": st["p"], "q": {"p": st["p"]}}
        self.infl[t]["id"] = self.send(st["p"], {"c": "close", "s": s, "how": how, "t": t})
        return self.finish(t)

    def op_other(self, p, cmd, s=0, f=1, xz=0, t=0):
        self.ev(ev="call", t=t, op="other", s=s, p=p, wrap=0, tm=-1)
        r = self.req(p, dict(cmd, t=t))
        self.ev(ev="ret", t=t, res=r["res"] if r["res"] == "ok" else r["res"] + " " + r.get("msg", ""), tm=-1, p=p, f=f, xz=xz)

    def finish(self, t):
        """waits for the return of the call in flight in thread t, unless it is expected to block"""
        o = self.infl[t]
        if t == 0:
            r = self.conns[o["p"]].wait(o["id"], 60)
            if r is None:
                self.quiet()
            self.returned(t, r)
            return r["res"]
        self.collect(0.01)
        self.poll()
        return None

    def quiet(self):
        self.ev(ev="quiet", blocked=sorted(self.infl))
        raise Died()

    def collect(self, delay):
        """reports the calls which have returned, if any"""
        socks = {c.sock: c for c in {id(self.conns[o["p"]]): self.conns[o["p"]] for o in self.infl.values()}.values()}
        r, _, _ = select.select(list(socks), [], [], delay)
        for x in r:
            socks[x].pump(0)
        got = False
        for t, o in list(self.infl.items()):
            m = self.conns[o["p"]].msgs.pop(o["id"], None)
            if m is not None:
                self.returned(t, m)
                got = True
        return got

    def returned(self, t, r):
        o = self.infl.pop(t)
        res = r["res"]
        self.ev(ev="ret", t=t, res=res if len(res) < 5 else res + " " + r.get("msg", ""), tm=-1)
        if res == "ok":
            if o["op"] == "lock":
                rec = dict(o["q"], s=o["s"])
                if o.get("cm"):
                    rec["cm"] = o["cm"]
                self.held.append(rec)
            elif o["op"] == "unlock":
                q = o["q"]
                self.held = [x for x in self.held if not (x["h"] == q["h"] and x["f"] == q["f"] and x["lo"] == q["lo"] and x["hi"] == q["hi"])]
            elif o["op"] == "close":
                st = self.streams[o["s"]]
                if st["open"]:
                    st["open"] = False
                    self.held = [x for x in self.held if not (x["h"] == st["h"] and x["p"] == st["p"])]
                    if st["own"]:
                        self.handles.pop((st["p"], st["fd"]), None)

    def poll(self):
        """collects returns of blocked calls; waits as long as some of them should be able to proceed"""
        end = time.time() + 30
        while self.infl:
            if self.collect(0):
                end = time.time() + 30
                continue
            if not set(self.infl) - self.justified():
                return
            if time.time() > end:
                self.quiet()
            self.collect(1)

    def op_fork(self, p):
        p2 = self.fresh("p")
        i = self.send(p, {"c": "fork", "p2": p2})
        pp, c = self.accept()
        self.conns[p2] = c
        self.conns[p].wait(i)
        c.wait(i)
        hmap = {}
        raws = []
        for (q, fd), h in list(self.handles.items()):
            if q == p:
                hmap[h] = self.fresh("h")
                self.handles[(p2, fd)] = hmap[h]
        for h, r in list(self.raws.items()):
            if r["p"] == p:
                self.raws[hmap[h]] = dict(r, p=p2)
                raws.append({"ch": hmap[h], "f": r["f"]})
        m = []
        for s, st in list(self.streams.items()):
            if st["p"] == p and st["open"]:
                c2 = self.fresh("s")
                m.append({"s": s, "c": c2, "h": st["h"], "ch": hmap[st["h"]]})
                self.streams[c2] = dict(st, p=p2, h=hmap[st["h"]], alias=st.get("alias", s))
        self.pidlive.append(p2)
        self.ev(ev="fork", p=p, p2=p2, map=m, raws=raws)
        for x in m:
            self.req(p2, {"c": "alias", "s": x["s"], "c2": x["c"]})
        return p2

    def op_exit(self, p, how="kill"):
        c = self.conns.pop(p)
        if how == "kill":
            os.kill(c.ospid, signal.SIGKILL)
        else:
            self.nid += 1
            c.sock.sendall((json.dumps({"c": "exit", "id": self.nid, "clean": how == "clean"}) + "\n").encode())
        c.sock.settimeout(60)
        try:
            while c.sock.recv(4096):
                pass
        except OSError:
            pass
        c.sock.close()
        # sockets are closed among other descriptors at process death: wait until all threads are really gone
        end = time.time() + 30
        while time.time() < end:
            try:
                tids = os.listdir("/proc/%d/task" % c.ospid)
            except OSError:
                break
            try:
                states = []
                for tid in tids:
                    with open("/proc/%d/task/%s/stat" % (c.ospid, tid)) as fh:
                        states.append(fh.read().rsplit(")", 1)[1].split()[0])
                if all(z in "ZX" for z in states):
                    break
            except OSError:
                pass
            time.sleep(0.001)
        self.pidlive.remove(p)
        for t in [t for t, o in self.infl.items() if o["p"] == p]:
            self.infl.pop(t)
        self.ev(ev="exit", p=p)
        self.held = [x for x in self.held if x["p"] != p]
        for st in self.streams.values():
            if st["p"] == p:
                st["open"] = False
        self.handles = {k: v for k, v in self.handles.items() if k[0] != p}
        self.raws = {k: v for k, v in self.raws.items() if v["p"] != p}
