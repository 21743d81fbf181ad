"""Client of conc.py (one recorder process per pool process)."""
import subprocess
from common import *


class Conc(object):
    _one = None
    _owner = None
    script = "conc.py"
    preload = True
    extra = {}

    @classmethod
    def get(cls):
        if cls._owner != os.getpid() or cls._one.p.poll() is not None:
            cls._one = cls()
            cls._owner = os.getpid()
        return cls._one

    def __init__(self):
        ctl = os.path.join(scratch(), "shim_%d" % os.getpid())
        with open(ctl, "wb") as fh:
            fh.truncate(200000)
        env = child_env(VSHIM=ctl, LD_PRELOAD=shim_so(), **self.extra) if self.preload else child_env(**self.extra)
        self.p = subprocess.Popen([PY, "-u", os.path.join(VERIF, "harness", self.script)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, text=True, cwd=scratch(),
                                  stderr=open(os.path.join(scratch(), "conc.err"), "a"))

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise MachineryError(self.script + " died:\n" + open(os.path.join(scratch(), "conc.err")).read()[-2000:])
        a = json.loads(line)
        if a.get("hang"):
            return {"hang": True, "job": job}
        with open(a["path"]) as fh:
            out = json.load(fh)
        os.unlink(a["path"])
        if "error" in out:
            raise MachineryError("job %r failed:\n%s" % (job, out["error"]))
        out["job"] = job
        return out


def conc(job):
    return Conc.get().run(job)


class Procs(Conc):
    _one = None
    _owner = None
    script = "procrec.py"
    preload = False


def procs(job):
    return Procs.get().run(job)


class Opens(Conc):
    _one = None
    _owner = None
    script = "openrec.py"
    preload = False


def opens(job):
    return Opens.get().run(job)


class Plain(Conc):
    _one = None
    _owner = None
    script = "plainrec.py"


def plain(job):
    return Plain.get().run(job)


class WinCtypes(Conc):
    """the windows streams over the simulated kernel"""
    _one = None
    _owner = None
    extra = {"VWIN": "ctypes"}


class WinPywin32(Conc):
    _one = None
    _owner = None
    extra = {"VWIN": "pywin32"}


class WinOpens(Opens):
    _one = None
    _owner = None
    extra = {"VWIN": "ctypes"}


class WinOpens2(WinOpens):
    _one = None
    _owner = None
    extra = {"VWIN": "pywin32"}


def win(job):
    if job["kind"] == "open":
        return {"ctypes": WinOpens, "pywin32": WinOpens2}[job["win"]].get().run(job)
    return {"ctypes": WinCtypes, "pywin32": WinPywin32}[job["win"]].get().run(job)
