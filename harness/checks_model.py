"""Transition cover of spec/LockModel.tla, replayed on the real code."""
import re
from checks_locks import *

CFG = """SPECIFICATION Spec
CONSTANTS
  NC = %d
  PROC <- ProcDef
  MAXLOCKS = %d
  EMIT = TRUE
  TWOSH = %s
INVARIANTS Safe OwnersOpen ViewSound
PROPERTIES OnlyOwner FailFree Justified
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def transitions(chk, procs, nc, maxlocks, twosh=True):
    """the labelled state graph of the model, by source state"""
    d = tempfile.mkdtemp(prefix="lm_", dir=scratch())
    name = "LockModelGen"
    with open(os.path.join(d, name + ".tla"), "w") as fh:
        fh.write("---- MODULE %s ----\nEXTENDS LockModel\nProcDef == <<%s>>\n====\n" % (name, ", ".join(map(str, procs))))
    with open(os.path.join(d, name + ".cfg"), "w") as fh:
        fh.write(CFG % (nc, maxlocks, str(twosh).upper()))
    rc, out = tlc(os.path.join(d, name + ".tla"), os.path.join(d, name + ".cfg"), workers=1,
                  jopts=["-full", "-DTLA-Library=" + SPEC], heap="4g")
    if "Model checking completed. No error has been found" not in out:
        raise MachineryError("LockModel is broken:\n" + out[-3000:])
    gen, dist = tlc_stats(out)
    chk.cov["states"] += dist
    chk.cov["transitions"] += gen
    chk.notes.setdefault("models", []).append({"spec": "LockModel.tla", "handles": procs, "cells": nc, "max_locks": maxlocks,
                                               "distinct_states": dist, "generated": gen})
    by = {}
    for m in re.finditer(r'<<"T", "(.*)">>', out):
        t = json.loads(m.group(1).replace('\\"', '"'))
        key = json.dumps([sorted(t["o"]), sorted(json.dumps(x, sort_keys=True) for x in t["h"])])
        by.setdefault(key, {"h": t["h"], "o": t["o"], "acts": []})["acts"].append(
            (t["a"], t["h2"] != t["h"] or t["o2"] != t["o"]))
    return [by[k] for k in sorted(by)]


RWKINDS = [k for k in KINDS if k[1] and k[2]]


class Replayer(object):
    """drives one session along the transitions of the model"""

    def __init__(self, rng, procs, layout):
        self.r = rng
        self.procs = procs
        self.x = Session(nfiles=1, layout=layout, links=True)
        self.pid = {}
        for p in sorted(set(procs)):
            self.pid[p] = self.x.spawn()
        self.cur = {}  # handle -> stream
        self.kind = {}

    def do(self, a):
        x = self.x
        if a["op"] == "open":
            kw, rd, wr, text = self.r.choice(RWKINDS)
            kw = dict(kw, thread_safe=self.r.random() < 0.3 and "I" not in kw["mode"])
            self.cur[a["h"]] = x.op_open(self.pid[self.procs[a["h"] - 1]], 1, kw, rd, wr, name=self.r.randrange(8), text=text)
        elif a["op"] == "close":
            x.op_close(self.cur.pop(a["h"]), how=self.r.choice(["close", "with", "withexc", "gc"]))
        elif a["op"] == "lock":
            return x.op_lock(self.cur[a["h"]], a["lo"], a["hi"], sh=a["sh"], timeout=0,
                             form=self.r.choice([None, "short", "zero", "none"]))
        elif a["op"] == "unlock":
            return x.op_unlock(self.cur[a["h"]], a["lo"], a["hi"])

    def lock(self, r):
        self.do({"op": "lock", "h": r["h"], "lo": r["lo"], "hi": r["hi"], "sh": r["sh"]})

    def visit(self, node):
        x = self.x
        for h in node["o"]:
            if h not in self.cur:
                self.do({"op": "open", "h": h})
        for h in list(self.cur):
            if h not in node["o"]:
                self.do({"op": "close", "h": h})
        for r in node["h"]:
            self.lock(r)
        x.observe()
        acts = list(node["acts"])
        self.r.shuffle(acts)
        for a, changes in acts:
            if not changes:
                self.do(a)
        x.observe()
        for a, changes in acts:
            if not changes:
                continue
            self.do(a)
            x.observe()
            # and back
            if a["op"] == "open":
                self.do({"op": "close", "h": a["h"]})
            elif a["op"] == "lock":
                self.do({"op": "unlock", "h": a["h"], "lo": a["lo"], "hi": a["hi"]})
            elif a["op"] == "unlock":
                for r in node["h"]:
                    if r["h"] == a["h"] and (r["lo"], r["hi"]) == (a["lo"], a["hi"]):
                        self.lock(r)
            elif a["op"] == "close":
                self.do({"op": "open", "h": a["h"]})
                for r in node["h"]:
                    if r["h"] == a["h"]:
                        self.lock(r)
        for r in node["h"]:
            self.do({"op": "unlock", "h": r["h"], "lo": r["lo"], "hi": r["hi"]})
        x.observe()


def replay(item):
    seed, procs, nodes, layout = item
    rp = Replayer(random.Random(seed), procs, layout)
    try:
        try:
            for n in nodes:
                rp.visit(n)
        except Died:
            rp.x.ev(ev="call", t=99, op="other", s=0, p=0, wrap=0, tm=-1)
            rp.x.ev(ev="ret", t=99, res="a process died", tm=-1, p=0, f=1, xz=0)
        return rp.x.events, [e for e in rp.x.log if e[1]["c"] not in ("probe", "fds")]
    finally:
        rp.x.close()


def cover(chk, prop, b, procs, nc=3, maxlocks=3, fraction=1.0, deadline=None, twosh=True):
    nodes = transitions(chk, procs, nc, maxlocks, twosh)
    r = random.Random(SEED * 31 + len(nodes))
    r.shuffle(nodes)
    total = sum(len(n["acts"]) for n in nodes)
    nodes = nodes[:max(1, int(len(nodes) * fraction))]
    size = 6
    items = [(SEED * 1009 + i, procs, nodes[i:i + size], r.randrange(len(LAYOUTS))) for i in range(0, len(nodes), size)]
    recs = pmap(replay, items, deadline=deadline)
    done = sum(len(n["acts"]) for it in items[:len(recs)] for n in it[2])
    chk.notes.setdefault("transition_cover", []).append(
        {"handles": procs, "model_transitions": total, "replayed": done})
    stats(chk, recs)
    judge(chk, prop, b, recs)


DESIGN = {  # the precautions of the design, and the property which breaks without them
    "C01": [("no second look", "Enforced")],
    "C02": [("close at once", "Enforced"), ("unlock whole", "Enforced"), ("purge ignores attempts", "Enforced")],
    "C03": [("unlock wakes nobody", "NoLostWakeup"), ("close wakes nobody", "NoLostWakeup"), ("unlock in two steps", "Exactly")],
    "C07": [("never closes", "Descriptors")],
}


def design(chk, prop, deep=False):
    """spec/RsLockDesign.tla: all interleavings of a few threads and processes"""
    if prop == "C05":
        chk.model("RsLockDesignMC.tla", "RsLockDesignLive.cfg")
        chk.model("RsLockDesignMC.tla", "RsLockDesignLive_unlock_wakes_nobody.cfg", expect_violation="counter-example|emporal")
        return
    chk.model("RsLockDesignMC.tla", "RsLockDesign.cfg" if deep else "RsLockDesignSmall.cfg", timeout=3000)
    for bug, what in DESIGN[prop]:
        chk.model("RsLockDesignMC.tla", "RsLockDesign_%s.cfg" % bug.replace(" ", "_"), expect_violation="Invariant %s is violated" % what)
