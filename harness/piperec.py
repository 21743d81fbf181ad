"""Streams on pipes, named pipes, sockets and devices, for spec/PipeTrace.tla."""
import os, random, errno, fcntl, termios, struct, socket, shutil, tempfile, threading, posix, warnings
from shimctl import Shim
import rsfile

LETTERS = b"abcdefghijklmnopqrstuvwxyz"


class PipeRun(object):
    def __init__(self, job):
        self.r = random.Random(job["seed"])
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="p_", dir=os.environ["VSCRATCH"])
        self.shim = Shim.get()
        self.st = {}
        self.n = 0
        self.cnt = 0

    def data(self, n):
        out = []
        for _ in range(n):
            out.append(10 if self.r.random() < 0.12 else LETTERS[self.cnt % 26])
            self.cnt += 1
        return out

    def q(self):
        for fd in self.holders + [x["fd"] for x in self.st.values()]:
            try:
                return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0" * 4))[0]
            except OSError:
                pass
        return -1

    def run(self):
        try:
            x = self.r.random()
            if x < 0.08:
                self.devices()
            elif x < 0.16:
                self.concurrent()
            else:
                self.sequential()
        finally:
            self.shim.off()
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.events

    # ------------------------------------------------------------------ one thread
    def sequential(self):
        r = self.r
        self.kind = r.choice(["pipe", "pipe", "fifo"])
        self.big = r.random() < 0.1
        self.holders = []
        if self.kind == "fifo":
            self.path = os.path.join(self.dir, "fifo")
            os.mkfifo(self.path)
            self.holders = [os.open(self.path, os.O_RDWR | os.O_NONBLOCK)]
            ino = os.fstat(self.holders[0]).st_ino
        else:
            self.ends = os.pipe()
            ino = os.fstat(self.ends[0]).st_ino
            self.ends = list(self.ends)
        if self.big:
            fcntl.fcntl(self.holders[0] if self.holders else self.ends[1], 1031, 4096)  # F_SETPIPE_SZ
        self.shim.setup([ino])
        self.ext = bool(self.holders)
        if self.kind == "fifo" and r.random() < 0.5:
            d = self.data(r.choice([1, 5, 20]))
            os.write(self.holders[0], bytes(d))
            self.events.append(dict(ev="foreign", data=d))
        for i in range(r.choice([1, 1, 1, 2])):
            self.open(1)
        for i in range(r.choice([1, 1, 1, 2])):
            self.open(0)
        if self.kind == "pipe":
            for fd in self.ends:
                os.close(fd)
            self.ends = []
        elif r.random() < 0.7:
            for fd in self.holders:
                os.close(fd)
            self.holders = []
            self.ext = False
        for _ in range(r.choice([8, 15, 30, 45])):
            if not self.st:
                break
            self.step()
        if r.random() < 0.8:  # finally, every byte must have been delivered
            for s in [s for s in sorted(self.st) if not self.st[s]["rd"]]:
                self.op(s, "wclose")
        for s in sorted(self.st):
            if self.st[s]["rd"] and (self.nonblocking(self.st[s]["fd"]) or (not self.ext and all(x["rd"] for x in self.st.values()))):
                self.op(s, "read", n=-1)
        for s in sorted(self.st, key=lambda x: self.r.random()):
            self.op(s, "rclose" if self.st[s]["rd"] else "wclose")
        for fd in self.holders:
            os.close(fd)

    def open(self, rd):
        r = self.r
        self.n += 1
        s = self.n
        kind = r.choice(["raw", "raw", "buf", "buf", "text"])
        nb = int(kind != "text" and r.random() < 0.5)
        if self.kind == "pipe":  # the flag belongs to the open file description, shared by duplicates
            if kind == "text" and self.nonblocking(self.ends[1 - rd]):
                kind = "buf"
            if any(y["rd"] == rd and y["kind"] == "text" for y in self.st.values()):
                nb = 0
        fl = r.choice(["R", "R", "RN", "r"]) if rd else r.choice(["W", "WE", "WN", "A", "WS", "w", "a", "WEN", "AE"])
        std = fl.islower()
        fl += ("" if kind == "text" else "b" if std else "B")
        kw = dict(thread_safe=r.random() < 0.3)
        if r.random() < 0.4:
            kw["locking"] = bool(r.random() < 0.5)
        if r.random() < 0.4:
            kw["timeout"] = 0
        kw["buffering"] = 0 if kind == "raw" else r.choice([1, 2, 5, 16, 100, -1]) if kind != "text" else r.choice([2, 5, 16, 100, -1])
        if kind == "text":
            kw.update(encoding="latin-1", newline="\n")
        elif kw["buffering"] == 1:
            kw["buffering"] = 3
        res = "ok"
        try:
            if self.kind == "fifo":
                if not rd and not self.holders:
                    raise AssertionError
                f = rsfile.rsopen(self.path, fl, **kw)
            elif not std or r.random() < 0.8:
                f = rsfile.rsopen(fileno=os.dup(self.ends[1 - rd]), mode=fl, **kw)
            else:
                f = rsfile.rsopen(os.dup(self.ends[1 - rd]), fl, **kw)
        except EnvironmentError as e:
            res = "io " + str(e)
        if res == "ok":
            fd = f.fileno()
            if nb:
                fcntl.fcntl(fd, fcntl.F_SETFL, fcntl.fcntl(fd, fcntl.F_GETFL) | os.O_NONBLOCK)
            self.st[s] = dict(s=s, f=f, rd=rd, kind=kind, fd=fd)
        self.events.append(dict(ev="open", s=s, rd=rd, kind=kind, res=res, q=self.q()))

    def nonblocking(self, fd):
        return int(bool(fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_NONBLOCK))

    def has_ext(self):
        return int(bool(self.holders))

    def step(self):
        r = self.r
        s = r.choice(sorted(self.st))
        x = self.st[s]
        x["nb"] = self.nonblocking(x["fd"])
        q = self.q()
        writers = [y for y in self.st.values() if not y["rd"]]
        readers = [y for y in self.st.values() if y["rd"]]
        if r.random() < 0.06:
            self.op(s, "seekable")
        elif r.random() < 0.08:
            self.op(s, r.choice(["seek", "tell", "truncate", "lock", "unlock"]), n=r.choice([0, 1, 3]))
        elif x["rd"]:
            if r.random() < 0.04:
                return self.op(s, "rclose")
            ext = bool(self.holders)
            eof = not writers and not ext
            raw, text = x["kind"] == "raw", x["kind"] == "text"
            ops = ["read"] * 5 + ["readline"] * 2
            if not text:
                ops += ["readinto"] * 2
            if x["kind"] == "buf":
                ops += ["read1", "peek"] * 2
            if raw:
                ops += ["readall"]
            op = r.choice(ops)
            n = r.choice([0, 1, 1, 2, 3, 7, 20] + ([500, 3000] if self.big else []))
            if op in ("read", "readline", "next") and r.random() < 0.35:
                n = -1
            if op == "readall":
                n = -1
            if not (x["nb"] or eof):
                # it must not block forever
                have = q + x.get("know", 0)
                if raw:
                    if q == 0 or op == "readall" or n < 0 or op == "readline":
                        return
                elif op in ("read1", "peek"):
                    if have == 0:
                        return
                elif n < 0 or op == "readline" or n > q:
                    return
            fault = None
            if r.random() < 0.25 and not text:
                fault = r.choice([(Shim.READ, 0, 1, 0), (Shim.READ, 0, -1, 0), (Shim.READ, 0, r.choice([1, 2, -1]), -r.choice([1, 2, 5])), (Shim.READ, 0, 2, errno.EINTR), (Shim.READ, 0, 1, errno.EAGAIN),
                                  (Shim.READ, 1, 1, errno.EAGAIN)])
            if fault and fault[3] == errno.EAGAIN and not x["nb"]:
                fault = None
            self.op(s, op, n=n, fault=fault)
        else:
            if r.random() < 0.05:
                return self.op(s, "wclose")
            room = (4096 if self.big else 65536) - q
            n = r.choice([0, 1, 1, 2, 3, 7, 20] + ([500, 1500, 3000, 5000] if self.big else []))
            op = "write" if r.random() < 0.8 else "flush"
            if not x["nb"] and q + n + x.get("wb", 0) > (3000 if self.big else 60000):
                return
            if not x["nb"] and self.big:
                return
            fault = None
            if r.random() < 0.25 and readers and (x["kind"] != "text"):
                fault = r.choice([(Shim.WRITE, 0, 1, 0), (Shim.WRITE, 0, -1, 0), (Shim.WRITE, 0, r.choice([1, 2, -1]), -r.choice([1, 2, 5])), (Shim.WRITE, 0, 2, errno.EINTR), (Shim.WRITE, 0, 1, errno.EAGAIN),
                                  (Shim.WRITE, 1, 1, errno.EAGAIN)])
                if fault[3] == errno.EAGAIN and not x["nb"]:
                    fault = None
            self.op(s, op, n=n if op == "write" else 0, data=self.data(n) if op == "write" else [], fault=fault)

    def op(self, s, op, n=0, data=(), fault=None):
        x = self.st[s]
        f, text = x["f"], x["kind"] == "text"
        rext, ext = self.has_ext(), self.has_ext()
        if fault:
            self.shim.arm(*fault)
        out, val, res = [], 0, "ok"
        d = "".join(map(chr, data)) if text else bytes(data)
        buf = None
        nb = self.nonblocking(x["fd"])
        try:
            if op == "read":
                v = f.read(n) if n >= 0 or self.r.random() < 0.5 else f.read()
            elif op == "readall":
                v = f.readall()
            elif op == "readline":
                v = f.readline(n) if n >= 0 else f.readline()
            elif op == "readinto":
                buf = bytearray(n)
                v = f.readinto(buf)
                v = None if v is None else bytes(buf[:v])
            elif op in ("read1", "peek"):
                v = getattr(f, op)(n)
            elif op == "write":
                v = f.write(d)
            elif op == "flush":
                v = f.flush()
            elif op in ("rclose", "wclose"):
                v = f.close()
            elif op == "seekable":
                v = f.seekable()
            elif op == "seek":
                v = f.seek(n, self.r.choice([0, 0, 1, 2]) if not text else 0)
            elif op == "tell":
                v = f.tell()
            elif op == "truncate":
                v = f.truncate(n)
            elif op == "lock":
                v = f.lock_file(timeout=self.r.choice([0, None]), shared=self.r.choice([None, True, False]))
            elif op == "unlock":
                v = f.unlock_file()
            if x["rd"] and op in ("read", "read1", "readall", "readline", "readinto", "peek"):
                if v is None:
                    res = "none"
                else:
                    out = [ord(c) for c in v] if text else list(v)
            elif op == "write":
                if v is None:
                    res = "none"
                else:
                    val = v
            elif op == "seekable":
                val = int(v)
        except BlockingIOError as e:
            res, val = "block", e.characters_written
        except BrokenPipeError:
            res = "pipe"
        except EnvironmentError as e:
            res = "io"
        except Exception as e:
            res = "other " + repr(e)
        fired = self.shim.fired() if fault else 0
        self.shim.disarm()
        q = self.q()
        shut = 0
        if op in ("rclose", "wclose"):
            try:
                os.fstat(x["fd"])
                gone = False
            except OSError:
                gone = True
            shut = int(f.closed and gone)
            del self.st[s]
            q = self.q()
            if q < 0 and op == "wclose" and res == "ok":
                q = 0
        readers_left = any(y["rd"] for y in self.st.values()) or rext
        self.events.append(dict(ev="op", s=s, op=op, n=n, data=list(data), res=res, out=out, val=val, q=q, nb=nb,
                                fault=int(bool(fired) and fault[3] == errno.EAGAIN), shut=shut, ext=ext, rext=rext))
        if op == "wclose" and not readers_left:
            self.events.append(dict(ev="gone", s=s))

    # ------------------------------------------------------------------ real threads, blocking operations
    def concurrent(self):
        r = self.r
        rfd, wfd = os.pipe()
        fcntl.fcntl(wfd, 1031, 4096)
        nw = r.choice([1, 2, 3])
        shared = nw > 1 and r.random() < 0.6
        wbuf = r.choice([0, 0, 7, 100, 5000])
        total = r.choice([300, 3000, 5000])
        ws = []
        for i in range(nw):
            lo = 40 + 30 * i
            chunks, done, k = [], 0, 0
            while done < total // nw:
                c = r.choice([1, 3, 20, 60, 200, 900])
                chunks.append([lo + (k + j) % 20 for j in range(c)])
                k += c
                done += c
            ws.append(dict(lo=lo, c=chunks))
        atomic = int(shared and wbuf > 0)
        streams = []
        if shared:
            f = rsfile.rsopen(fileno=wfd, mode="WB", buffering=wbuf, thread_safe=True)
            streams = [f] * nw
        else:
            for i in range(nw):
                streams.append(rsfile.rsopen(fileno=os.dup(wfd), mode=r.choice(["WB", "AB", "WEB"]), buffering=wbuf, thread_safe=r.random() < 0.5))
            os.close(wfd)
        rbuf = r.choice([0, 0, 5, 64, -1])
        rs = rsfile.rsopen(fileno=rfd, mode="RB", buffering=rbuf, thread_safe=False)
        errs = []

        def writer(i):
            try:
                for c in ws[i]["c"]:
                    b = bytes(c)
                    while b:
                        n = streams[i].write(b)
                        if n < len(b) and atomic:
                            errs.append("short")
                        b = b[n:]
                streams[i].flush()
                if not shared:
                    streams[i].close()
            except Exception as e:
                errs.append(repr(e))

        d = []

        def reader():
            rr = random.Random(r.random())
            try:
                while True:
                    k = rr.choice(["read", "readinto", "readline", "all"])
                    n = rr.choice([1, 7, 100, 3000])
                    if k == "read":
                        v = rs.read(n)
                    elif k == "readinto":
                        bb = bytearray(n)
                        v = bytes(bb[:rs.readinto(bb)])
                    elif k == "readline":
                        v = rs.readline(n)
                    else:
                        if rr.random() < 0.9:
                            continue
                        v = rs.read()
                    if not v:
                        break
                    if len(v) > n and k != "all":
                        errs.append("more than asked")
                    d.extend(v)
            except Exception as e:
                errs.append(repr(e))

        T = threading.Thread
        th = [T(target=writer, args=(i,), daemon=True) for i in range(nw)]
        tr = T(target=reader, daemon=True)
        for t in th + [tr]:
            t.start()
        stuck = 0
        for t in th:
            t.join(20)
            stuck |= t.is_alive()
        if shared and not stuck:
            streams[0].close()
        tr.join(20)
        stuck |= tr.is_alive()
        self.events.append(dict(ev="conc", ws=ws, d=d, stuck=int(stuck), errs=errs, atomic=atomic))

    # ------------------------------------------------------------------ devices and sockets
    def devices(self):
        r = self.r
        for _ in range(6):
            what = r.choice(["/dev/null", "/dev/null", "/dev/zero", "socket"])
            rd = r.random() < 0.5
            mode = (r.choice(["R", "RN"]) if rd else r.choice(["W", "WE", "A", "WN", "WS"])) + "B"
            kw = dict(buffering=r.choice([0, 10, -1]), thread_safe=r.random() < 0.5)
            if r.random() < 0.5:
                kw["locking"] = True
            if r.random() < 0.5:
                kw["timeout"] = 0
            e = dict(ev="dev", res="ok", seekable=0, lock="io", trunc="io", good=0)
            try:
                if what == "socket":
                    a, b = socket.socketpair()
                    f = rsfile.rsopen(fileno=a.detach(), mode=mode, **kw)
                else:
                    f = rsfile.rsopen(what, mode, **kw)
                if r.random() < 0.5 or what == "socket":
                    e["seekable"] = int(f.seekable())
                    for k, fn in (("lock", lambda: f.lock_file(timeout=0)), ("trunc", lambda: f.truncate(0))):
                        try:
                            fn()
                            e[k] = "ok"
                        except EnvironmentError:
                            pass
                if rd:
                    if what == "socket":
                        b.sendall(b"hello\n")
                        e["good"] = int(f.read(3) + f.read(2) == b"hello")
                        b.close()
                        e["good"] &= int(f.read() == b"\n")
                    else:
                        e["good"] = int(f.read(5) == (b"" if what == "/dev/null" else b"\0" * 5))
                else:
                    f.write(b"hello")
                    f.flush()
                    e["good"] = int(what != "socket" or b.recv(10) == b"hello")
                f.close()
            except Exception as exc:
                e["res"] = repr(exc)
            self.events.append(e)


RUNS = {"pipe": PipeRun}
