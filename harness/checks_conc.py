"""Concurrent executions under the deterministic scheduler, judged by trace specifications."""
from checks_locks import *
from concdrv import conc

CPROF = {
    "C01": dict(env=0.7, views=0.03),
    "C02": dict(other=4, openlock=2, close=3, views=0.08, env=0.3),
    "C03": dict(timeouts=[-1, -1, -1, 0, 250], close=2, views=0.01),
    "C04": dict(sharedstream=0.7, env=0.2),
    "C05": dict(options=1, late_options=1, timeouts=[0, -1, -1, 250, 100, 1000], env=0.85, sharedstream=0.1, views=0.0),
    "C07": dict(other=4, openlock=3, close=4, views=0.005, env=0.2),
}


def run_jobs(chk, prop, jobs, b, spec="LockTrace.tla", cfg="LockTrace.cfg", deadline=None, rel=relevant, runner=conc):
    outs = pmap(runner, jobs, deadline=deadline)
    recs = []
    for o in outs:
        if "hang" in o:
            chk.violation("execution never ends", {"job": o["job"]})
        else:
            recs.append((o["events"], o["job"]))
    stats(chk, recs)
    judge(chk, prop, b, recs, spec, cfg, rel)
    return outs


def lock_schedules(chk, prop, n, b, deadline=None):
    jobs = [{"kind": "locks", "seed": SEED * 10000019 + i, "prof": CPROF[prop]} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, deadline=deadline)
    chk.notes["scheduled_executions"] = chk.notes.get("scheduled_executions", 0) + len(outs)
    for o in outs[:1]:
        if "events" in o:
            chk.sample([e for e in o["events"] if e["ev"] not in ("view", "fds")][:12])


def systematic(chk, prop, scenarios, b, kind="locks", prof=None, per=400, deadline=None, spec="LockTrace.tla", cfg="LockTrace.cfg",
               salt=0, rel=relevant):
    """all single preemptions of small programs (then random pairs), if they fit"""
    prof = dict(prof if prof is not None else CPROF[prop])
    prof.update(threads=[2], ops=[2], views=0.0)
    seeds = [SEED * 50021 + salt + i for i in range(scenarios)]
    base = pmap(conc, [{"kind": kind, "seed": s, "prof": prof, "choices": []} for s in seeds])
    jobs = []
    r = random.Random(SEED)
    for s, o in zip(seeds, base):
        if "hang" in o:
            chk.violation("execution never ends", {"job": o["job"]})
            continue
        singles = [[[k, t]] for k in range(1, o["steps"] + 1) for t in range(1, o["threads"] + 1)]
        if len(singles) > per:
            singles = r.sample(singles, per)
        pairs = []
        for _ in range(per - len(singles)):
            k1 = r.randint(1, max(1, o["steps"]))
            pairs.append([[k1, r.randint(1, o["threads"])], [k1 + r.randint(1, 60), r.randint(1, o["threads"])]])
        jobs += [{"kind": kind, "seed": s, "prof": prof, "choices": c} for c in singles + pairs]
    outs = run_jobs(chk, prop, jobs, b, spec, cfg, deadline, rel=rel)
    chk.notes.setdefault("systematic", []).append({"programs": scenarios, "schedules": len(outs)})


def options(chk, prop, n, b, deadline=None):
    jobs = [{"kind": "opt", "seed": SEED * 10000019 + i} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, "OptTrace.tla", "OptTrace.cfg", deadline, rel=lambda p, c: True)
    chk.notes["option_executions"] = len(outs)


def helpers(chk, prop, n, b, deadline=None):
    """sequences of whole-file helpers with all their arguments"""
    jobs = [{"kind": "help", "seed": SEED * 10000019 + i} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, "HelperTrace.tla", "HelperTrace.cfg", deadline, rel=lambda p, c: True)
    chk.notes["helper_sequences"] = len(outs)
    chk.notes["helper_results"] = dict(collections.Counter(e["res"] for o in outs if "events" in o for e in o["events"] if e["ev"] == "h"))
