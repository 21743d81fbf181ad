"""Deterministic scheduler: runs the threads of the code under test one at a time, switching at chosen points.

install() must be called before rsfile is imported: it replaces the locks, the clock and the blocking system calls
that the code can see by versions which are controlled by the scheduler.  Nothing here depends on how rsfile is
written: preemption points are the source lines executed below SRC, lock operations, sleeps and system calls.
"""
import sys, os, _thread, threading, time, fcntl, errno, random

_real_lock = _thread.allocate_lock
_real_time = time.time
_real_sleep = time.sleep
_real_lockf = fcntl.lockf
_real_close = os.close
SRCDIR = os.path.join(os.path.abspath(os.environ.get("RSFILE_SRC", "/repo/src")), "rsfile") + os.sep
SKIP = os.sep + "rstest" + os.sep
EXTRA = set()  # more files whose lines are preemption points

S = None  # the active scheduler, if any
BASE = 1000.0


class Stuck(Exception):
    """raised in threads which can't make progress any more"""


class VT(object):
    __slots__ = ("id", "sem", "cond", "deadline", "done", "prio", "timedout", "name")

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.sem = _real_lock()
        self.sem.acquire()
        self.cond = None
        self.deadline = None
        self.done = False
        self.prio = 0
        self.timedout = False


class Sched(object):
    def __init__(self, rng, policy="rand", p=0.1, depth=3, est=2000, maxsteps=60000, on_point=None, on_tick=None,
                 on_quiet=None, choices=None):
        self.rng = rng
        self.policy = policy
        self.p = p
        self.threads = []
        self.cur = None
        self.vtime = BASE
        self.steps = 0
        self.maxsteps = maxsteps
        self.kver = 0
        self.on_point = on_point or (lambda kind: None)
        self.on_tick = on_tick or (lambda t: None)
        self.on_quiet = on_quiet or (lambda ths: None)
        self.done = _real_lock()
        self.done.acquire()
        self.stuck = False
        self.change = set()
        self.low = 0
        self.est = est
        self.depth = depth
        self.inpoint = False
        self.ident = {}
        # systematic mode: explicit list of (step, thread) preemptions
        self.choices = dict(choices or [])
        self.log = []

    def spawn(self, name, fn):
        t = VT(len(self.threads) + 1, name)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            self.ident[_thread.get_ident()] = t
            sys.settrace(tracer)
            try:
                fn()
            except Stuck:
                pass
            finally:
                sys.settrace(None)
                t.done = True
                self.next_after_done()

        _thread.start_new_thread(body, ())
        return t

    def run(self):
        global S
        if self.policy == "pct":
            for t in self.threads:
                t.prio = 100 + self.rng.random()
            self.change = {self.rng.randrange(self.est) for _ in range(self.depth)}
        S = self
        self.cur = self.pick()
        self.cur.sem.release()
        self.done.acquire()
        S = None

    # ------------------------------------------------------------------ choice
    def runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.cond is None or t.cond():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.vtime:
                out.append(t)
        return out

    def pick(self):
        """next thread to run when the current one can't (or None)"""
        while True:
            r = self.runnable()
            if r:
                if self.policy == "pct":
                    return max(r, key=lambda t: t.prio)
                if self.policy == "sys":
                    return r[0]
                return self.rng.choice(r)
            dl = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not dl or min(dl) > BASE + 3000:
                return None
            nt = min(dl)
            self.on_tick(nt)
            self.vtime = nt

    def handover(self, me, t):
        if t is me:
            return
        self.cur = t
        t.sem.release()
        me.sem.acquire()
        if self.stuck:
            raise Stuck()

    def quiet(self, me):
        """nothing can proceed any more"""
        self.on_quiet([t for t in self.threads if not t.done])
        self.stuck = True
        self.done.release()
        if me is not None:
            me.sem.acquire()  # forever

    def next_after_done(self):
        t = self.pick()
        if t is not None:
            self.cur = t
            t.sem.release()
        elif all(x.done for x in self.threads):
            self.done.release()
        else:
            self.quiet(None)

    def point(self, kind):
        """a possible preemption"""
        me = self.cur
        self.steps += 1
        self.kver += 1
        if self.steps > self.maxsteps:
            self.quiet(me)
        if self.inpoint:
            return
        self.inpoint = True
        try:
            self.on_point(kind)
        finally:
            self.inpoint = False
        if self.policy == "sys":
            want = self.choices.get(self.steps)
            if want is not None and want != me.id:
                for t in self.runnable():
                    if t.id == want:
                        self.handover(me, t)
                        break
            return
        if self.policy == "pct":
            if self.steps in self.change:
                self.low -= 1
                me.prio = self.low
            t = self.pick()
            if t is not None:
                self.handover(me, t)
            return
        p = self.p if kind == "line" else 3 * self.p
        if self.rng.random() < p:
            self.handover(me, self.rng.choice(self.runnable()))

    def block(self, cond, deadline=None):
        """waits until cond() holds (True) or until the deadline (False)"""
        me = self.cur
        me.cond = cond
        me.deadline = deadline
        t = self.pick()
        if t is None:
            self.quiet(me)
        self.handover(me, t)
        ok = cond()
        me.cond = me.deadline = None
        self.kver += 1
        return ok


def active():
    return S is not None and S.ident.get(_thread.get_ident()) is S.cur and S.cur is not None


def tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    if fn.startswith(SRCDIR) and SKIP not in fn or fn in EXTRA:
        return local
    return None


def local(frame, event, arg):
    if event == "line" and active() and not S.inpoint:
        S.point("line")
    return local


# ---------------------------------------------------------------------- replacements
def me():
    return S.cur.id if active() else 0


class VLock(object):
    def __init__(self):
        self._o = None

    def acquire(self, blocking=True, timeout=-1):
        if active():
            S.point("acq")
            if self._o is not None:
                if not blocking or timeout == 0:
                    return False
                dl = None if timeout is None or timeout < 0 else S.vtime + timeout
                if not S.block(lambda: self._o is None, dl):
                    return False
        elif self._o is not None:
            if not blocking or timeout == 0:
                return False
            raise RuntimeError("deadlock outside of the scheduler")
        self._o = me()
        return True

    def release(self):
        if self._o is None:
            raise RuntimeError("release unlocked lock")
        self._o = None
        if active():
            S.point("rel")

    def locked(self):
        return self._o is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._o = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class VRLock(object):
    def __init__(self, *a, **k):
        self._o = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1, block=None):
        if block is not None:
            blocking = block
        i = me()
        if self._o == i:
            self._n += 1
            return True
        if active():
            S.point("acq")
            if self._o is not None:
                if not blocking or timeout == 0:
                    return False
                dl = None if timeout is None or timeout < 0 else S.vtime + timeout
                if not S.block(lambda: self._o is None, dl):
                    return False
        elif self._o is not None:
            if not blocking:
                return False
            raise RuntimeError("deadlock outside of the scheduler")
        self._o = i
        self._n = 1
        return True

    def release(self):
        if self._o != me():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._o = None
            if active():
                S.point("rel")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == me()

    def _release_save(self):
        n, self._n, self._o = self._n, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def _recursion_count(self):
        return self._n if self._o == me() else 0

    def _at_fork_reinit(self):
        self._o = None
        self._n = 0


def vsleep(d):
    if not active():
        return _real_sleep(d)
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    S.block(lambda: False, S.vtime + d)


def vtime():
    return S.vtime if S is not None else BASE


def vlockf(fd, cmd, *a):
    if not active():
        return _real_lockf(fd, cmd, *a)
    S.point("lockf")
    if cmd & fcntl.LOCK_NB or cmd & fcntl.LOCK_UN:
        try:
            return _real_lockf(fd, cmd, *a)
        finally:
            S.kver += 1
            S.point("lockf")
    while True:
        try:
            r = _real_lockf(fd, cmd | fcntl.LOCK_NB, *a)
        except OSError as e:
            if e.errno not in (errno.EAGAIN, errno.EACCES):
                raise
            v = S.kver
            S.block(lambda: S.kver != v)
            S.kver -= 1  # a failed retry changes nothing for others
        else:
            S.point("lockf")
            return r


def wrap_os(name):
    real = getattr(os, name)

    def f(*a, **k):
        if not active() or S.inpoint:
            return real(*a, **k)
        S.point("os")
        try:
            return real(*a, **k)
        finally:
            S.kver += 1
            S.point("os")
    f.__name__ = name
    return f


def install():
    threading._allocate_lock = threading.Lock = VLock
    threading.RLock = threading._RLock = threading._PyRLock = threading._CRLock = VRLock
    import multiprocessing, multiprocessing.context
    multiprocessing.RLock = multiprocessing.Lock = VRLock
    import _pyio, io
    _pyio.Lock = VLock
    time.sleep = vsleep
    time.time = time.monotonic = time.perf_counter = vtime
    threading._time = vtime
    fcntl.lockf = vlockf
    for n in ("open", "close", "read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "fstat"):
        setattr(os, n, wrap_os(n))
