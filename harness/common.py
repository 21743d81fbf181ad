"""Shared plumbing: TLC runs, verdicts, evidence, scratch directories."""
import os, sys, json, time, subprocess, tempfile, shutil, re, atexit, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
SRC = os.environ.get("RSFILE_SRC") or os.path.join(REPO, "src")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 4)
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rsv_")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def child_env(**kw):
    env = dict(os.environ)
    env.update(PYTHONPATH=SRC, RSFILE_SRC=SRC, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", PYTHONHASHSEED="0",
               VSCRATCH=scratch())
    env.pop("PYTHONPYCACHEPREFIX", None)
    env.update(kw)
    return env


def shim_so():
    """the interposed library, compiled on demand"""
    so = os.path.join(scratch(), "vshim.so")
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, os.path.join(VERIF, "harness", "shim.c"), "-ldl"], check=True)
        os.rename(tmp, so)
    return so


class MachineryError(Exception):
    pass


class Slow(MachineryError):
    pass


def tlc(spec, cfg, workers=1, env=None, args=(), timeout=800, heap="1500m", jopts=()):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if workers == 1:
        cmd += ["-XX:TieredStopAtLevel=1"] if "-full" not in jopts else []
    cmd += [j for j in jopts if j != "-full"]
    cmd += ["-cp", TLC_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", cfg, *args, spec]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        raise Slow("TLC timed out on %s" % spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def values(x):
    """what TLC can read (the absence of a value is -77)"""
    if x is None:
        return -77
    if isinstance(x, dict):
        return {str(k): values(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [values(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool) and not -2 ** 31 < x < 2 ** 31:
        return -78
    return x if isinstance(x, (int, str, bool)) else str(x)


class Batch(object):
    """Validation of many traces by one trace specification."""

    def __init__(self):
        self.states = self.transitions = self.traces = self.undecided = 0

    def validate(self, spec, cfg, traces, shards=None, timeout=150, extra_env=None, jopts=()):
        """traces: list of lists of events. Returns list of (index, line, clause) for rejected ones."""
        traces = list(traces)
        if not traces:
            return []
        n = shards or max(1, min(NCPU - 1, sum(len(t) for t in traces) // 1500 + 1, len(traces)))
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
        parts = [order[i::n] for i in range(n)]

        def one(part, limit=timeout):
            if not part:
                return [], (0, 0)
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch())
            with os.fdopen(fd, "w") as fh:
                for i in part:
                    fh.write(json.dumps(values(traces[i])) + "\n")
            env = {"TRACEFILE": path}
            env.update(extra_env or {})
            try:
                rc, out = tlc(spec, cfg, 1, env, timeout=limit, jopts=jopts)
            except Slow:
                if len(part) == 1 or limit <= 15:
                    self.undecided += len(part)
                    return [], (0, 0)
                k = len(part) // 2
                r1, (g1, d1) = one(part[:k], limit // 3)
                r2, (g2, d2) = one(part[k:], limit // 3)
                return r1 + r2, (g1 + g2, d1 + d2)
            finally:
                os.unlink(path)
            rej = []
            for m in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*<<\s*(\d+),\s*"([^"]*)"\s*>>\s*>>', out):
                rej.append((part[int(m.group(1)) - 1], int(m.group(2)), int(m.group(3)), m.group(4)))
            if "Model checking completed. No error has been found" not in out and not rej:
                m = re.search(r"Invariant (\w+) is violated", out)
                if m:
                    t = re.findall(r"/\\ tid = (\d+)", out)
                    ll = re.findall(r"/\\ l = (\d+)", out)
                    rej.append((part[int(t[-1]) - 1] if t else part[0], int(ll[-1]) if ll else 0, 0,
                                "invariant " + m.group(1)))
                elif "Finished computing initial states" not in out:
                    raise MachineryError("TLC failed on %s:\n%s" % (spec, out[-3000:]))
                elif "Error: " in out and "java.lang.OutOfMemory" not in out:
                    # the values of some execution have no meaning for the specification: which one
                    if len(part) > 1:
                        k = len(part) // 2
                        r1, (g1, d1) = one(part[:k])
                        r2, (g2, d2) = one(part[k:])
                        if not r1 and not r2:
                            raise MachineryError("TLC failed on %s:\n%s" % (spec, out[out.index("Error: "):][:3000]))
                        return r1 + r2, (g1 + g2, d1 + d2)
                    ll = re.findall(r"/\\ l = (\d+)", out)
                    k = out.index("Error: ")
                    if os.environ.get("VDEBUG"):
                        print(out[k:k + 1500])
                    rej.append((part[0], int(ll[-1]) if ll else 0, 0, "unexpected values"))
                else:
                    raise MachineryError("TLC failed on %s:\n%s" % (spec, out[-3000:]))
            return rej, tlc_stats(out)

        res = []
        with ThreadPoolExecutor(n) as ex:
            for rej, (gen, dist) in ex.map(one, parts):
                res += rej
                self.transitions += gen
                self.states += dist
        self.traces += len(traces)
        return res


class Check(object):
    """One property check: collects coverage, violations, writes evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.findings = load_findings(prop)
        self.notes = {}

    def add_batch(self, b):
        if b.undecided:
            self.notes["undecided_traces"] = b.undecided
            b.traces -= b.undecided
        self.cov["states"] += b.states
        self.cov["transitions"] += b.transitions
        self.cov["traces_validated_against_impl"] += b.traces

    def model(self, spec, cfg, workers=NCPU, expect_violation=None, timeout=800, args=(), env=None):
        """Exhaustive check of a specification; expect_violation = name of the property a mutant must break."""
        rc, out = tlc(spec, cfg, workers, env, args=args, timeout=timeout, heap="6g")
        gen, dist = tlc_stats(out)
        ok = "Model checking completed. No error has been found" in out
        name = os.path.basename(cfg)
        if expect_violation is None:
            if not ok:
                raise MachineryError("specification %s/%s is broken:\n%s" % (spec, cfg, out[-4000:]))
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        else:
            if ok or not re.search(expect_violation, out):
                raise MachineryError("specification %s/%s should violate %s:\n%s" % (spec, cfg, expect_violation, out[-3000:]))
        self.notes.setdefault("models", []).append(
            {"spec": spec, "cfg": name, "distinct_states": dist, "generated": gen,
             "expected_violation": expect_violation})
        return out

    def sample(self, x, n=4):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        for key in self.findings:
            if key and key in json.dumps(replay) + what:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, min(len(self.violations) + 1, 12)))
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "tier": TIER, "replay": replay}, fh, indent=1)
        self.violations.append(what)
        if len(self.violations) <= 5:
            print("# %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d traces validated, %d states, %.1fs, %d violations" % (
            self.prop, cov.get("traces_validated_against_impl", 0), cov.get("states", 0), time.time() - self.t0,
            len(self.violations)))
        return 1 if self.violations else 0


def load_findings(prop):
    """known_findings.txt: 'known: property=<id> key=<substring identifying the failing case> <text>'"""
    keys = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                keys.append(m.group(2))
    except OSError:
        pass
    return keys
