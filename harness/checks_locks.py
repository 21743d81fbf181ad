"""Checks decided by spec/LockTrace.tla on multi-process histories over the real kernel."""
import collections
from common import *
from pool import pmap
from lockgen import *

ALLP = ("C01", "C02", "C03", "C04", "C06", "C17")
# which properties each clause of LockTrace decides
CLAUSES = {
    "granted lock conflicts with a held lock": ("C01", "C02", "C04", "C06", "C17"),
    "same handle granted overlapping ranges": ("C01", "C04"),
    "a held lock is not protected by the operating system": ALLP,
    "the operating system still holds a lock nobody owns": ("C01", "C03", "C04", "C06", "C17"),
    "lock granted to a call which should fail": ("C01", "C04", "C06", "C17"),
    "lock refused although nothing incompatible is held": ("C03", "C04", "C06", "C17", "C01"),
    "blocking attempt refused": ("C03", "C04", "C05"),
    "RuntimeError without overlap of the same handle": ("C03", "C04", "C06", "C17"),
    "ValueError for valid arguments": ("C04",),
    "unexpected outcome of lock_file": ALLP + ("C05",),
    "unlock_file outcome does not match the locks held": ("C02", "C03", "C04", "C06", "C17"),
    "unlock_file refused valid arguments": ("C04", "C03"),
    "unexpected outcome of unlock_file": ALLP,
    "close() failed": ("C03", "C07", "C16", "C02"),
    "operation on the stream failed": ("C07", "C02", "C06"),
    "descriptor of an open stream is gone": ("C07", "C02"),
    "descriptor leaked": ("C07",),
    "descriptor count below the open streams": ("C07",),
    "a caller stays blocked although nothing incompatible is held": ("C03", "C05", "C01"),
    "a call returned without being reported": ALLP,
}
TIMES = ("timed out too early", "timed out too late", "enforced timeout too early", "enforced timeout too late",
         "lock granted long after it became free", "lock granted long after its timeout")


def relevant(prop, clause):
    if clause in TIMES:
        return prop == "C05"
    if clause.startswith("invariant"):
        return prop in ("C01", "C04")
    return prop in CLAUSES.get(clause, (prop,))


def record(item):
    seed, prof = item
    r = random.Random(seed)
    w = dict(prof.get("w", {}))
    if w.get("wrap") and r.random() < 0.5:
        w["wrap"] = 0
    s = Session(nfiles=r.choice(prof.get("nfiles", [1])), layout=r.choice(prof.get("layouts", range(len(LAYOUTS)))),
                links=prof.get("links", False), roots=prof.get("roots"))
    try:
        g = Gen(r, s, w, r.choice(prof.get("nprocs", [1, 2])), **prof.get("kw", {}))
        g.run(prof.get("steps", 25))
        log = [e for e in s.log if e[1]["c"] not in ("probe", "fds")]
        return s.events, log
    finally:
        s.close()


def judge(chk, prop, b, recs, spec="LockTrace.tla", cfg="LockTrace.cfg", rel=relevant):
    """validates recorded executions and reports rejections"""
    recs = [r for r in recs if r]
    other = collections.Counter()
    for i, m, l, clause in b.validate(spec, cfg, [r[0] for r in recs]):
        ev = recs[i][0]
        if rel(prop, clause):
            chk.violation("%s (at event %d: %s)" % (clause, m, json.dumps(ev[m - 1]) if m and m <= len(ev) else "?"),
                          {"events": ev[:m], "commands": recs[i][1] if len(recs[i]) > 1 else None, "clause": clause})
        else:
            other[clause] += 1
    if other:
        chk.notes["rejected_by_clauses_of_other_properties"] = dict(other)


def stats(chk, recs):
    c = collections.Counter()
    for r in recs:
        for e in r[0]:
            k = e["ev"] + (":" + str(e.get("op") or e.get("res", "")).split(" ")[0] if e["ev"] in ("call", "ret") else "")
            c[k] += 1
    tot = chk.notes.setdefault("events", {})
    for k, v in c.items():
        tot[k] = tot.get(k, 0) + v


PROFILES = {
    # conflict matrix, all paths to one file, wrapped descriptors, several processes
    "C01": dict(w=dict(wrap=4, lock=34, block=6, exit=1), links=True, nprocs=[1, 2, 2, 3], kw=dict(maxstreams=6)),
    # many short-lived neighbours of long-lived locks
    "C02": dict(w=dict(open=22, close=20, wrap=5, failopen=4, helper=6, openlock=10, use=6, block=3, unlock=14), links=True,
                nprocs=[1, 1, 2], nfiles=[1, 1, 2], kw=dict(maxstreams=8), steps=30),
    "C03": dict(w=dict(unlock=20, cmexit=18, close=12, block=14, exit=3, lock=30, openlock=6, wrap=7), nprocs=[1, 2, 2, 3]),
    "C04": dict(w=dict(static=12, badunlock=10, unlock=14, lock=34, open=8, wrap=3, badargs=6), nprocs=[1, 1, 2],
                layouts=[0, 0, 1, 2, 3, 4]),
    "C06": dict(w=dict(fork=6, close=10, unlock=12, badunlock=6, exit=4, openlock=6, block=4, helper=3), nprocs=[1],
                links=True),
    "C07": dict(w=dict(open=20, close=22, failopen=14, wrap=8, helper=6, openlock=10, unlock=14, cmexit=8, exit=0), links=True,
                nprocs=[1, 1, 2], nfiles=[1, 1, 2], kw=dict(maxstreams=8), steps=30),
    "C17": dict(w=dict(open=20, close=8, openlock=8, lock=30, wrap=2), links=True, nfiles=[2], nprocs=[1, 2]),
}


def lock_histories(chk, prop, n, b=None, prof=None, salt=0, deadline=None):
    b = b or Batch()
    prof = prof or PROFILES[prop]
    recs = pmap(record, [((SEED * 7919 + salt) * 1000003 + i, prof) for i in range(n)], deadline=deadline)
    stats(chk, recs)
    judge(chk, prop, b, recs)
    for ev, log in recs[:2]:
        chk.sample([e for e in ev if e["ev"] not in ("view", "fds")][:12])
    return b


def xdev_histories(chk, prop, n, b, procs=4):
    """the same over files of two file systems which number their files alike"""
    outs = [os.path.join(scratch(), "xdev%d.json" % k) for k in range(procs)]
    ps = [subprocess.Popen(["timeout", "300", "unshare", "-Urm", sys.executable, os.path.join(VERIF, "harness", "xdev.py"), prop,
                            str(max(1, n // procs)), str(SEED * 31 + k), outs[k]], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True) for k in range(procs)]
    recs = []
    for p, out in zip(ps, outs):
        _, err = p.communicate()
        try:
            with open(out) as fh:
                recs += [(r[0], r[1]) for r in json.load(fh) or []]
        except OSError:
            if "unshare" not in err:
                raise MachineryError("recorder failed:\n" + err[-2000:])
    chk.notes["executions_across_file_systems"] = len(recs)
    stats(chk, recs)
    judge(chk, prop, b, recs)
