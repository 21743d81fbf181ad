"""The windows streams over a simulated Win32 kernel (winsim.py), judged by the same specifications as the other ones."""
from checks_streams import *
from checks_lin import LIN
from checks_open import draw
from concdrv import win

ALL = lambda p, c: True  # noqa


def _jobs(kind, n, prof, salt):
    return [{"kind": kind, "seed": SEED * 10000019 + salt * 1000003 + i, "prof": prof, "win": ("ctypes", "pywin32")[i % 2]} for i in range(n)]


def _run(chk, prop, jobs, b, spec, deadline):
    outs = run_jobs(chk, prop, jobs, b, spec + ".tla", spec + ".cfg", deadline, rel=ALL, runner=win)
    chk.notes["windows_executions"] = chk.notes.get("windows_executions", 0) + len(outs)
    for o in outs[:1]:
        if "events" in o:
            chk.sample([{k: v for k, v in e.items() if k not in ("disk", "after", "end", "files")} for e in o["events"]
                        if e["ev"] not in ("view", "fds")][:8])


def locks(chk, prop, b, n, deadline):
    for k, p in enumerate(("C01", "C02", "C04", "C05")):
        _run(chk, prop, _jobs("locks", n, CPROF[p], 10 + k), b, "LockTrace", deadline)


def streams_(chk, prop, b, n, deadline):
    for k, p in enumerate(("C11", "deep", "C08", "C10", "C12", "C16", "closed")):
        _run(chk, prop, _jobs("streams", n, p, 20 + k), b, "StreamTrace", deadline)


def lins(chk, prop, b, n, deadline):
    for k, kind in enumerate(("ts", "helper")):
        _run(chk, prop, _jobs(kind, n, "", 30 + k), b, LIN[0][:-4], deadline)


def opens_(chk, prop, b, rounds, sample, deadline):
    modes = draw(rounds, sample)
    jobs = [{"kind": "open", "seed": SEED * 10000019 + i, "modes": modes[i * 14:(i + 1) * 14], "win": ("ctypes", "pywin32")[i % 2]}
            for i in range(len(modes) // 14)]
    _run(chk, prop, jobs, b, "OpenTrace", deadline)
