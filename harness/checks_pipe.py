"""Pipes and devices: recorded executions judged by spec/PipeTrace.tla."""
from checks_conc import *
from concdrv import plain


def pipes(chk, prop, n, b, deadline=None):
    jobs = [{"kind": "pipe", "seed": SEED * 10000019 + i} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, "PipeTrace.tla", "PipeTrace.cfg", deadline, rel=lambda p, c: True, runner=plain)
    evs = [e for o in outs if "events" in o for e in o["events"] if e["ev"] == "op"]
    chk.notes["operations"] = dict(collections.Counter("%s %s" % (e["op"], e["res"]) for e in evs))
    for o in outs[:2]:
        if "events" in o:
            chk.sample(o["events"][:8])
