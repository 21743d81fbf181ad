"""Opening modes: recorded openings judged by spec/OpenTrace.tla."""
import itertools
from checks_conc import *
from concdrv import opens

STD, ADV = "rwax+bt", "RWACN-+SIEBT"


def subsets(s):
    return ["".join(x) for k in range(len(s) + 1) for x in itertools.combinations(s, k)]


def draw(rounds, sample=None):
    """every set of flags (in random orders), plus odd strings"""
    r = random.Random(SEED * 31 + 7)
    modes = []
    for k in range(rounds):
        adv = subsets(ADV)
        if sample and sample < len(adv):
            adv = r.sample(adv, sample)
        ms = subsets(STD) + adv
        # modes which make sense come up more often
        ms += ["r", "rb", "r+", "r+b", "w", "wb", "w+", "w+b", "a", "ab", "a+", "ab+", "x", "xb", "x+", "xb+"] * 12
        acc = ["R", "W", "RW", "A", "RA", "WA", "RWA"]
        ms += ["".join(x) for x in itertools.product(acc, ["", "C", "N", "-", "+"], ["", "E"], ["", "S"], ["", "I"], ["B", "B", "T", ""])]
        for m in r.sample(ms, 300):  # duplicates, mixed cases, unknown characters
            m = list(m)
            m.insert(r.randint(0, len(m)), r.choice(STD + ADV + "UzZ 1é"))
            ms.append("".join(m))
        ms = ["".join(r.sample(m, len(m))) for m in ms]
        r.shuffle(ms)
        modes += ms
    return modes


def openings(chk, prop, b, rounds, sample=None, deadline=None, rel=lambda p, c: True):
    modes = draw(rounds, sample)
    per = 14
    jobs = [{"kind": "open", "seed": SEED * 10000019 + i, "modes": modes[i * per:(i + 1) * per]} for i in range(len(modes) // per + 1)]
    outs = run_jobs(chk, prop, jobs, b, "OpenTrace.tla", "OpenTrace.cfg", deadline, rel=rel, runner=opens)
    chk.notes["openings"] = sum(e["ev"] == "open" for o in outs if "events" in o for e in o["events"])
    res = collections.Counter(e["res"] for o in outs if "events" in o for e in o["events"] if e["ev"] == "open")
    chk.notes["opening_results"] = dict(res)
    for o in outs[:2]:
        if "events" in o:
            chk.sample([{k: v for k, v in e.items() if k not in ("after", "end", "files")} for e in o["events"][:4]])


def std_modes(rounds, seed):
    r = random.Random(seed * 41 + 3)
    good = ["r", "rb", "r+", "r+b", "rb+", "w", "wb", "w+", "w+b", "a", "ab", "a+", "ab+", "x", "xb", "x+", "xb+", "rt", "wt", "at+"]
    out = []
    for _ in range(rounds):
        ms = subsets(STD) + good * 12
        for m in r.sample(ms, 60):
            m = list(m)
            m.insert(r.randint(0, len(m)), r.choice(STD + "UzZ 1é"))
            ms.append("".join(m))
        ms = ["".join(r.sample(m, len(m))) for m in ms]
        r.shuffle(ms)
        out += ms
    return out


def std_openings(chk, prop, b, rounds, deadline=None):
    """open() and FileIO, original or patched"""
    modes = std_modes(rounds, SEED)
    per = 14
    jobs = [{"kind": "open", "seed": SEED * 10000019 + i, "modes": modes[i * per:(i + 1) * per], "apis": 1} for i in range(len(modes) // per)]
    outs = run_jobs(chk, prop, jobs, b, "OpenTrace.tla", "OpenTrace.cfg", deadline, rel=lambda p, c: True, runner=opens)
    chk.notes["standard_openings"] = sum(e["ev"] == "open" for o in outs if "events" in o for e in o["events"])
