"""Concurrent calls judged by spec/LinTrace.tla: equivalent to a sequential history?"""
from checks_conc import *
from concdrv import procs

LIN = ("LinTrace.tla", "LinTrace.cfg")


def lin(chk, prop, kind, n, b, deadline=None, salt=0):
    """threads under the deterministic scheduler"""
    jobs = [{"kind": kind, "seed": SEED * 10000019 + salt * 1000003 + i, "prof": ""} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, *LIN, deadline=deadline, rel=lambda p, c: True)
    chk.notes["scheduled_executions"] = chk.notes.get("scheduled_executions", 0) + len(outs)
    for o in outs[:2]:
        if "events" in o:
            chk.sample(o["events"][:12])


def lin_procs(chk, prop, kind, n, b, deadline=None, salt=0):
    """real processes"""
    jobs = [{"kind": kind, "seed": SEED * 10000019 + salt * 1000003 + i} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, *LIN, deadline=deadline, rel=lambda p, c: True, runner=procs)
    chk.notes["multiprocess_executions"] = chk.notes.get("multiprocess_executions", 0) + len(outs)


def lin_systematic(chk, prop, kind, scenarios, b, per, deadline=None):
    systematic(chk, prop, scenarios, b, kind=kind, prof={}, per=per, deadline=deadline, spec=LIN[0], cfg=LIN[1], rel=lambda p, c: True)
