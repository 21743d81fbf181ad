"""Uses of the process-wide options, under virtual time (judged by spec/OptTrace.tla)."""
from conc import *
import conc

ENF, SPIN = "enforced_locking_timeout_value", "default_spinlock_delay"


class OptRun(object):
    def __init__(self, job):
        self.job = job
        self.r = random.Random(job["seed"])
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="o_", dir=os.environ["VSCRATCH"])
        self.path = os.path.join(self.dir, "f")
        with open(self.path, "wb") as fh:
            fh.write(b"0123456789")
        self.streams, self.enf = {}, {}

    def ev(self, **kw):
        self.events.append(kw)

    @staticmethod
    def num(v):
        return -1 if v is None else int(round(v * 1000))

    def get(self, ev="get"):
        d = rsfile.get_rsfile_options()
        self.ev(ev=ev, enf=self.num(d[ENF]), spin=self.num(d[SPIN]), n=len(d))
        self.cur = self.num(d[ENF])
        if ev == "get" and self.r.random() < 0.5:
            d[self.r.choice([ENF, SPIN, "foo"])] = self.r.choice([0.07, 0.9])

    def set(self):
        r = self.r
        kw, unk = {}, 0
        if r.random() < 0.7:
            kw[ENF] = r.choice([None, None, 0.3, 1.0, 0.0])
        if r.random() < 0.5:
            kw[SPIN] = r.choice([0.05, 0.1, 0.25, 0.4])
        if r.random() < 0.25:
            kw[r.choice(["foo", "max_input_load_bytes", "locking_timeout", "enforced_locking_timeout"])] = 1
            unk = 1
        try:
            rsfile.set_rsfile_options(**kw)
            res = "ok"
        except BaseException as e:  # noqa
            res = classify(e)
        self.ev(ev="set", enf=self.num(kw[ENF]) if ENF in kw else -2, spin=self.num(kw[SPIN]) if SPIN in kw else -2, unk=unk, res=res)
        if ENF in kw and not unk:
            self.cur = self.num(kw[ENF])

    def attempt(self, fn, **kw):
        t0 = dsched.S.vtime
        try:
            x = fn()
            res = "ok"
        except dsched.Stuck:
            raise
        except BaseException as e:  # noqa
            res, x = classify(e), None
            e.__traceback__ = None
        self.ev(res=res, dt=int(round((dsched.S.vtime - t0) * 1000)), **kw)
        return x

    def busy(self, how, on):
        if how == "foreign":
            self.foreign.call("lock" if on else "unlock", 0, 0, False)
        elif how == "own":
            (self.owner.lock_file if on else self.owner.unlock_file)()

    def program(self):
        r = self.r
        self.get("init")
        for _ in range(r.choice([6, 12, 18])):
            op = r.choice(["set", "set", "get", "open", "lock", "lock", "olock"])
            if op in ("set", "get"):
                getattr(self, op)()
                continue
            if op == "open" or (op == "lock" and not self.streams):
                s = len(self.streams) + 1
                self.streams[s] = rsfile.rsopen(self.path, r.choice(["RWB", "RW", "WB"]), locking=False, thread_safe=r.random() < 0.3)
                self.enf[s] = self.cur
                self.ev(ev="open", s=s)
                continue
            how = r.choice(["no", "foreign", "foreign", "own", "own"])
            s = r.choice(list(self.streams)) if op == "lock" else None
            to = r.choice([0, 100, 350, -1, -1])
            if to < 0 and how != "no" and (self.enf[s] if s else self.cur) < 0:
                to = 150
            tv = None if to < 0 else to / 1000.0
            self.busy(how, True)
            if op == "lock":
                x = self.attempt(lambda: self.streams[s].lock_file(timeout=tv), ev="lock", s=s, to=to, busy=int(how != "no"))
                if x is not None:
                    self.streams[s].unlock_file()
            else:
                x = self.attempt(lambda: rsfile.rsopen(self.path, "RWB", locking=True, timeout=tv), ev="olock", to=to,
                                 busy=int(how != "no"))
                if x is not None:
                    x.close()
            x = None
            self.busy(how, False)

    def run(self):
        self.foreign = Foreign(self.path)
        try:
            self.owner = rsfile.rsopen(self.path, "RWB", locking=False)
            sch = dsched.Sched(random.Random(self.job["seed"] + 2))
            sch.spawn("T1", self.program)
            sch.run()
        finally:
            self.foreign.stop()
        return self.events


RUNS = {"opt": OptRun}
