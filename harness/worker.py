"""Worker process: executes commands of the controller on the real rsfile streams.

Speaks JSON lines over a unix socket.  Every command runs in the thread it names (0 = main loop), so that
blocking operations can stay in flight while the main loop keeps answering probes.
"""
import sys, os, json, socket, threading, queue, gc, fcntl, struct, signal

sys.path.insert(0, os.environ.get("RSFILE_SRC", "/repo/src"))
import rsfile  # noqa

SCRATCH = os.environ["VSCRATCH"]


def classify(exc):
    if isinstance(exc, EnvironmentError):
        return "io"
    if isinstance(exc, RuntimeError):
        return "rte"
    if isinstance(exc, (ValueError, TypeError)):
        return "val"
    return "bug:" + type(exc).__name__


class Worker(object):
    def __init__(self, sockpath, pid):
        self.pid = pid
        self.sockpath = sockpath
        self.streams = {}
        self.cms = {}
        self.probes = {}  # file index -> fd, never closed
        self.threads = {}
        self.connect()

    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.connect(self.sockpath)
        self.rd = self.sock.makefile("r")
        self.wlock = threading.Lock()
        self.send({"hello": self.pid, "ospid": os.getpid()})

    def send(self, obj):
        data = (json.dumps(obj) + "\n").encode()
        with self.wlock:
            self.sock.sendall(data)

    # ------------------------------------------------------------ main loop
    def loop(self):
        while True:
            line = self.rd.readline()
            if not line:
                os._exit(0)
            cmd = json.loads(line)
            if cmd["c"] == "fork":
                self.fork(cmd)
                continue
            if cmd["c"] == "exit":
                self.send({"id": cmd["id"], "res": "ok"})
                if cmd.get("clean"):
                    self.sock.shutdown(socket.SHUT_WR)
                    sys.exit(0)
                os._exit(0)
            t = cmd.get("t", 0)
            if t == 0:
                self.run(cmd)
            else:
                if t not in self.threads:
                    q = queue.Queue()
                    th = threading.Thread(target=self.thread_loop, args=(q,), daemon=True)
                    self.threads[t] = q
                    th.start()
                self.threads[t].put(cmd)

    def thread_loop(self, q):
        while True:
            self.run(q.get())

    def run(self, cmd):
        try:
            out = getattr(self, "do_" + cmd["c"])(cmd) or {}
            out.setdefault("res", "ok")
        except BaseException as e:  # noqa
            out = {"res": classify(e), "msg": repr(e)[:200]}
        out["id"] = cmd["id"]
        self.send(out)

    def fork(self, cmd):
        pid = os.fork()
        if pid == 0:
            self.sock.close()
            self.pid = cmd["p2"]
            self.threads = {}
            self.connect()
            self.send({"id": cmd["id"], "res": "ok"})
            return
        self.send({"id": cmd["id"], "res": "ok", "child": pid})
        self.children = getattr(self, "children", []) + [pid]

    # ------------------------------------------------------------- commands
    def do_prep(self, cmd):
        for f, path in cmd["files"]:
            if f not in self.probes:
                self.probes[f] = os.open(path, os.O_RDWR)
        if cmd.get("options"):
            rsfile.set_rsfile_options(**cmd["options"])

    def do_open(self, cmd):
        kw = dict(cmd["kw"])
        if "opener_path" in kw:
            path = kw.pop("opener_path")
            flags = kw.pop("opener_flags")
            kw["opener"] = lambda n, m: os.open(path, flags)
        if cmd.get("bytes"):
            kw["name"] = os.fsencode(kw["name"])
        f = rsfile.rsopen(**kw)
        self.streams[cmd["s"]] = f
        return {"fd": f.fileno()}

    def do_rawopen(self, cmd):
        fd = os.open(cmd["path"], cmd["flags"])
        return {"fd": fd}

    def do_dup(self, cmd):
        return {"fd": os.dup(cmd["fd"])}

    def do_rawclose(self, cmd):
        os.close(cmd["fd"])

    def do_lock(self, cmd):
        f = self.streams[cmd["s"]]
        if "seek" in cmd:
            f.seek(cmd["seek"])
        cm = f.lock_file(**cmd["kw"])
        if cmd.get("cm"):
            cm.__enter__()
            self.cms[cmd["cm"]] = (cmd["s"], cm)

    def do_unlock(self, cmd):
        f = self.streams[cmd["s"]]
        if "seek" in cmd:
            f.seek(cmd["seek"])
        f.unlock_file(**cmd["kw"])

    def do_cmexit(self, cmd):
        cm = self.cms.pop(cmd["cm"])[1]
        if cmd.get("exc"):
            class Boom(Exception):
                pass
            try:
                raise Boom("boom")
            except Boom as e:
                try:
                    swallowed = cm.__exit__(Boom, e, e.__traceback__)
                except Boom:
                    swallowed = False
            if swallowed:
                return {"res": "bug:swallowed"}
        else:
            cm.__exit__(None, None, None)

    def do_close(self, cmd):
        how = cmd.get("how", "close")
        s = cmd["s"]
        if how == "close":
            self.streams[s].close()
        elif how == "gc":
            for k in [k for k, v in self.cms.items() if v[0] == s]:
                self.cms.pop(k)
            self.streams.pop(s)
            gc.collect()
        elif how == "with":
            f = self.streams[s]
            with f:
                pass
        elif how == "withexc":
            f = self.streams[s]
            try:
                with f:
                    raise KeyError("boom")
            except KeyError:
                pass

    def do_use(self, cmd):
        """operations which have nothing to do with locks"""
        f = self.streams[cmd["s"]]
        what = cmd["what"]
        if what == "read":
            f.seek(0)
            f.read(3)
        elif what == "write":
            f.seek(cmd.get("at", 0))
            f.write("abc" if cmd.get("text") else b"abc")
            f.flush()
        elif what == "stat":
            f.size(), f.unique_id(), f.tell(), f.times()
        elif what == "flush":
            f.flush()
        elif what == "iter":
            f.seek(0)
            for _ in f:
                break

    def do_failopen(self, cmd):
        """an open which must fail; leaves nothing"""
        try:
            f = rsfile.rsopen(**cmd["kw"])
        except (EnvironmentError, ValueError, TypeError, LookupError):
            gc.collect()
            return {"res": "ok"}
        f.close()
        return {"res": "bug:opened"}

    def do_helper(self, cmd):
        if cmd["what"] == "read":
            rsfile.read_from_file(cmd["path"], binary=True, locking=cmd["locking"], timeout=cmd.get("timeout"))
        else:
            rsfile.append_to_file(cmd["path"], b"x", locking=cmd["locking"], timeout=cmd.get("timeout"))

    def do_probe(self, cmd):
        """what the kernel tells this process about locks of *others*: one mode per cell"""
        return {"m": probe(self.probes[cmd["f"]], cmd["B"])}

    def do_fds(self, cmd):
        return {"fds": fd_table(cmd["inode"], exclude=self.probes.values())}

    def do_alias(self, cmd):
        self.streams[cmd["c2"]] = self.streams.pop(cmd["s"])
        for k, v in list(self.cms.items()):
            if v[0] == cmd["s"]:
                self.cms[k] = (cmd["c2"], v[1])

    def do_ping(self, cmd):
        pass


def _getlk(fd, typ, start, length):
    arg = struct.pack("hhqqi4x", typ, os.SEEK_SET, start, length, 0)
    out = fcntl.fcntl(fd, fcntl.F_GETLK, arg)
    return struct.unpack("hhqqi4x", out)[0] != fcntl.F_UNLCK


def probe_range(fd, start, length):
    if not _getlk(fd, fcntl.F_WRLCK, start, length):
        return 0
    return 2 if _getlk(fd, fcntl.F_RDLCK, start, length) else 1


def probe(fd, B):
    """B: increasing boundaries; the last cell goes to infinity. 9 = bytes of one cell differ"""
    res = []
    for i, b in enumerate(B):
        if i + 1 < len(B):
            ends = [b, B[i + 1] - 1]
            rng = (b, B[i + 1] - b)
        else:
            ends = [b, 2 ** 63 - 1]
            rng = (b, 0)
        got = {probe_range(fd, x, 1) for x in ends}
        got.add(probe_range(fd, *rng))
        res.append(got.pop() if len(got) == 1 else 9)
    return res


def fd_table(inode, exclude=()):
    """descriptors of this process which refer to (dev, ino)"""
    exclude = set(exclude)
    out = []
    for name in os.listdir("/proc/self/fd"):
        fd = int(name)
        if fd in exclude:
            continue
        try:
            st = os.fstat(fd)
        except OSError:
            continue
        if [st.st_dev, st.st_ino] == list(inode):
            out.append(fd)
    return sorted(out)


if __name__ == "__main__":
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = Worker(sys.argv[1], int(sys.argv[2]))
    w.loop()
