"""sync(): recorded executions judged by spec/DurTrace.tla."""
from checks_conc import *

DEFECTS = ["NO_FLUSH", "SYNC_FIRST", "SWALLOW", "FALLBACK_ON_LOSS"]


def models(chk):
    chk.model("Durability.tla", "Durability.cfg")
    for d in DEFECTS:
        chk.model("Durability.tla", "Durability_%s.cfg" % d, expect_violation="Invariant Durable is violated")
    chk.model("Durability.tla", "Durability_ALWAYS_DATASYNC.cfg", expect_violation="Invariant MetaDurable is violated")


def syncs(chk, prop, n, b, deadline=None):
    jobs = [{"kind": "dur", "seed": SEED * 10000019 + i} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, "DurTrace.tla", "DurTrace.cfg", deadline, rel=lambda p, c: True)
    evs = [e for o in outs if "events" in o for e in o["events"] if e["ev"] == "op" and (e["op"] == "sync" or e["sync"])]
    chk.notes["syncs"] = dict(collections.Counter(("returned" if e["res"] == "ok" else "raised") + (
        " after a failing system call" if any(not x["ok"] for x in e["sys"]) else "") for e in evs))
    for o in outs[:2]:
        if "events" in o:
            chk.sample(o["events"][:6])
