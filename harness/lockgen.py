"""Random histories of lock operations (choice only; what is right is decided by spec/LockTrace.tla)."""
import random, os
from lockdrv import *

KINDS = [  # (kw, readable, writable, text)
    (dict(mode="RB", buffering=0), True, False, False),
    (dict(mode="RWB", buffering=0), True, True, False),
    (dict(mode="WB", buffering=0), False, True, False),
    (dict(mode="RB"), True, False, False),
    (dict(mode="RWB"), True, True, False),
    (dict(mode="WB", buffering=16), False, True, False),
    (dict(mode="RW"), True, True, True),
    (dict(mode="R"), True, False, True),
    (dict(mode="W"), False, True, True),
    (dict(mode="r+b"), True, True, False),
    (dict(mode="rb", buffering=5), True, False, False),
    (dict(mode="r+"), True, True, True),
    (dict(mode="ab"), False, True, False),
    (dict(mode="RAB"), True, True, False),
    (dict(mode="RWSB"), True, True, False),
    (dict(mode="RWIB"), True, True, False),
]

BASE = dict(open=10, wrap=0, lock=30, unlock=12, badunlock=2, badargs=0, cmexit=8, close=6, use=4, failopen=0, fork=0,
            exit=0, block=0, openlock=4, helper=0, static=1)


class Gen(object):
    def __init__(self, rng, sess, weights, nprocs, maxstreams=6, whences=True, spread=0.5, layers=True):
        self.r = rng
        self.x = sess
        w = dict(BASE)
        w.update(weights)
        self.w = w
        self.maxstreams = maxstreams
        self.whences = whences and sess.B[-1] < 2 ** 40
        self.kinds = KINDS if layers else KINDS[:3]
        self.shbias = rng.random()
        for _ in range(nprocs):
            sess.spawn()

    def free_streams(self, open_=True):
        busy = {o["s"] for o in self.x.infl.values()}
        return [s for s, st in self.x.streams.items() if st["open"] == open_ and s not in busy and st["p"] in self.x.pidlive
                and not st.get("dead")]

    def rng_range(self):
        r = self.r
        lo = r.choice([0, 0, 1, 1, 2, 3, 4, 5]) if r.random() < 0.8 else 0
        if r.random() < 0.25 or lo == 5:
            return lo, INF
        return lo, r.randint(lo + 1, 5)

    def step(self):
        w = self.w
        names = list(w)
        for _ in range(30):
            op = self.r.choices(names, [w[n] for n in names])[0]
            if getattr(self, "g_" + op)():
                self.x.poll()
                self.x.observe()
                return op
        return None

    def run(self, n):
        try:
            for _ in range(n):
                if not self.x.pidlive:
                    break
                self.step()
            self.cleanup()
        except Died:
            if self.x.events[-1]["ev"] != "quiet":
                self.x.ev(ev="call", t=99, op="other", s=0, p=0, wrap=0, tm=-1)
                self.x.ev(ev="ret", t=99, res="a process died", tm=-1, p=0, f=1, xz=0)

    def cleanup(self):
        """closes everything: all blocked callers must get their turn, nothing may be left"""
        r = self.r
        for _ in range(200):
            ss = self.free_streams()
            ss = [s for s in ss if not self.x.streams[s]["own"] or not any(
                t["h"] == self.x.streams[s]["h"] and not t["own"] and t["open"] and u != s
                for u, t in self.x.streams.items())]
            if not ss:
                if not self.x.infl:
                    break
                # callers which block one another for ever
                self.x.op_exit(self.x.infl[min(self.x.infl)]["p"])
                self.x.poll()
                continue
            self.x.op_close(r.choice(ss))
            self.x.poll()
        for h in list(self.x.raws):
            raw = self.x.raws.pop(h)
            self.x.ev(ev="rawclose", h=h)
            self.x.handles.pop((raw["p"], raw["fd"]), None)
            self.x.req(raw["p"], {"c": "rawclose", "fd": raw["fd"]})
        self.x.observe()

    # ------------------------------------------------------------------
    def kind(self):
        kw, rd, wr, text = self.r.choice(self.kinds)
        kw = dict(kw)
        if self.r.random() < 0.5 or "I" in kw["mode"]:  # (a shared mutex would also serialize the processes)
            kw["thread_safe"] = False
        return kw, rd, wr, text

    def g_open(self, locking=False):
        x, r = self.x, self.r
        if len([s for s in x.streams if x.streams[s]["open"]]) >= self.maxstreams:
            return False
        kw, rd, wr, text = self.kind()
        p = r.choice(x.pidlive)
        f = r.choice(list(x.files))
        extra = {}
        if r.random() < 0.1:
            extra["bytes"] = True
        x.op_open(p, f, kw, rd, wr, locking=locking, timeout=0, name=r.randrange(8), text=text, extra=extra)
        return True

    def g_openlock(self):
        return self.g_open(True)

    def g_wrap(self):
        x, r = self.x, self.r
        if len([s for s in x.streams if x.streams[s]["open"]]) >= self.maxstreams:
            return False
        p = r.choice(x.pidlive)
        if any(o["p"] == p for o in x.infl.values()):
            return False
        kw, rd, wr, text = self.kind()
        c = r.random()
        own_fds = [st["fd"] for st in x.streams.values() if st["open"] and st["p"] == p and st["own"] and st["rd"] and st["wr"]]
        if c < 0.35:
            h = x.op_raw(p, r.choice(list(x.files)))
        elif c < 0.55 and own_fds:
            fd = r.choice(own_fds)
            f = [st["f"] for st in x.streams.values() if st["open"] and st["p"] == p and st["fd"] == fd][0]
            h = x.op_raw(p, f, dup=fd)
        else:
            hs = [h for h, v in x.raws.items() if v["p"] == p]
            if not hs:
                return True
            h = r.choice(hs)
        busy = [st for st in x.streams.values() if st["open"] and st["h"] == h and st["p"] == p]
        kw["closefd"] = bool(r.random() < 0.4 and not busy)
        kw.pop("buffering", None)
        if "a" in kw["mode"] or "A" in kw["mode"]:
            return True
        x.op_open(p, x.raws[h]["f"], kw, rd, wr, raw=h, text=text)
        return True

    def lockargs(self, s):
        r, x = self.r, self.x
        st = x.streams[s]
        lo, hi = self.rng_range()
        sh = r.choice([None, True, False])
        if st["rd"] and st["wr"]:
            sh = r.random() < self.shbias if r.random() < 0.8 else None
        elif r.random() < 0.9:
            sh = None if r.random() < 0.5 else not st["wr"]
        wh, pos = 0, 0
        if self.whences and r.random() < 0.3:
            wh = r.choice([1, 2])
            if wh == 1:
                pos = r.randint(0, 5)
            else:
                x.sizes[st["f"]] = z = r.randint(0, 5)
                os.truncate(x.files[st["f"]]["names"][0], x.B[z])
        return lo, hi, sh, wh, pos

    def g_lock(self):
        x, r = self.x, self.r
        ss = self.free_streams()
        if not ss:
            return False
        s = r.choice(ss)
        lo, hi, sh, wh, pos = self.lockargs(s)
        x.op_lock(s, lo, hi, sh=sh, timeout=r.choice([0, 0, 0.0]), wh=wh, pos=pos, cm=r.random() < 0.5,
                  form=r.choice([None, "short", "zero", "none"]))
        return True

    def g_static(self):
        """arguments whose refusal does not depend on other locks"""
        x, r = self.x, self.r
        ss = self.free_streams(r.random() < 0.7)
        if not ss:
            return False
        s = r.choice(ss)
        if not x.streams[s]["open"]:
            if r.random() < 0.5:
                x.op_lock(s, 0, INF, timeout=0)
            else:
                x.op_unlock(s, 0, INF)
            return True
        if x.streams[s]["alias"] if "alias" in x.streams[s] else False:
            pass
        c = r.randrange(5)
        lo, hi = self.rng_range()
        if c == 0:
            x.op_lock(s, lo, hi, sh=r.choice([True, False]), timeout=0)
        elif c == 1:
            x.op_lock(s, -1, max(1, r.randint(1, 5)), timeout=0)
        else:
            bad = r.choice([dict(timeout=-1), dict(timeout="x"), dict(length=-1), dict(length="3"), dict(length=2.5),
                            dict(offset="0"), dict(offset=1.5), dict(whence=7), dict(whence="x"), dict(shared="yes"),
                            dict(shared=7), dict(timeout=-0.001), dict(whence=None), dict(offset=[1])])
            if r.random() < 0.7:
                x.op_lock(s, lo, hi, timeout=0, kwmod=bad, bad=1)
            else:
                bad = {k: v for k, v in bad.items() if k in ("length", "offset", "whence")}
                if not bad:
                    bad = r.choice([dict(length=-3), dict(offset=-2), dict(offset="x"), dict(whence=9)])
                x.op_unlock(s, lo, hi, kwmod=bad, bad=1)
        return True

    def g_block(self):
        x, r = self.x, self.r
        if len(x.infl) >= 3:
            return False
        ss = [s for s in self.free_streams()]
        if not ss:
            return False
        s = r.choice(ss)
        lo, hi, sh, wh, pos = self.lockargs(s)
        x.op_lock(s, lo, hi, sh=sh, timeout=None, wh=wh, pos=pos, t=x.fresh("t"), cm=False)
        return True

    def g_unlock(self):
        x, r = self.x, self.r
        free = set(self.free_streams())
        recs = [y for y in x.held if y["s"] in free and "cm" not in y]
        if not recs:
            return False
        y = r.choice(recs)
        same = [s for s in free if x.streams[s]["h"] == y["h"] and x.streams[s]["p"] == y["p"]]
        wh, pos = 0, 0
        if self.whences and r.random() < 0.3:
            wh = 1 if x.sizes[y["f"]] is None else r.choice([1, 2])
            pos = r.randint(0, 5) if wh == 1 else 0
        x.op_unlock(r.choice(same), y["lo"], y["hi"], wh=wh, pos=pos)
        return True

    def g_badunlock(self):
        x, r = self.x, self.r
        ss = self.free_streams()
        if not ss:
            return False
        s = r.choice(ss)
        recs = [y for y in x.held if y["f"] == x.streams[s]["f"]]
        if recs and r.random() < 0.7:
            y = r.choice(recs)
            lo, hi = y["lo"], y["hi"]
            c = r.randrange(4)
            if c == 0 and lo > 0:
                lo -= 1
            elif c == 1:
                hi = INF if hi != INF else 5
            elif c == 2 and hi != INF and hi - lo > 1:
                hi -= 1
            if lo >= 5:
                hi = INF
        else:
            lo, hi = self.rng_range()
        if any(y["h"] == x.streams[s]["h"] and y["lo"] == lo and y["hi"] == hi and "cm" in y for y in x.held):
            return False
        x.op_unlock(s, lo, hi)
        return True

    def g_badargs(self):
        return self.g_static()

    def g_cmexit(self):
        x, r = self.x, self.r
        free = set(self.free_streams())
        recs = [y for y in x.held if y["s"] in free and "cm" in y]
        if not recs:
            return False
        x.op_cmexit(r.choice(recs), exc=r.random() < 0.5)
        return True

    def g_close(self):
        x, r = self.x, self.r
        ss = self.free_streams()
        ss = [s for s in ss if not any(t["h"] == x.streams[s]["h"] and not t["own"] and t["open"] and u != s
                                       for u, t in x.streams.items()) or not x.streams[s]["own"]]
        if not ss:
            return False
        locked = [s for s in ss if any(y["h"] == x.streams[s]["h"] for y in x.held)]
        s = r.choice(locked if locked and r.random() < 0.5 else ss)
        st = x.streams[s]
        if any(y for y in x.infl.values() if y["q"].get("h") == st["h"]):
            return False
        x.op_close(s, how=r.choice(["close", "close", "with", "withexc", "gc"]))
        if not st["open"] and r.random() < 0.2 and x.log[-1][1].get("how") != "gc":
            x.op_close(s)
        elif x.log[-1][1].get("how") == "gc":
            st["dead"] = True
        return True

    def g_use(self):
        x, r = self.x, self.r
        ss = self.free_streams()
        if not ss:
            return False
        s = r.choice(ss)
        st = x.streams[s]
        whats = ["stat", "flush"]
        # (read-ahead buffers of streams sharing one offset - forked, duplicated or wrapped descriptors - would disagree)
        if st["rd"] and (not (self.w["fork"] or self.w["wrap"]) or st["kw"].get("buffering", 1) == 0):
            whats += ["read", "read"]
            # text streams refuse tell() - hence locking calls - in the middle of an iteration, like in the stdlib
            if not st["text"] and not x.sizes[st["f"]]:
                whats += ["iter"]
        if st["wr"] and x.sizes[st["f"]] is None:
            whats += ["write"]
        x.op_other(st["p"], {"c": "use", "s": s, "what": r.choice(whats), "text": st["text"]}, s=s, f=st["f"])
        return True

    def g_failopen(self):
        x, r = self.x, self.r
        p = r.choice(x.pidlive)
        f = r.choice(list(x.files))
        path = x.files[f]["names"][0]
        bad = r.choice([dict(mode="WCB"), dict(mode="x"), dict(mode="R", buffering=0), dict(mode="RB", encoding="utf8"),
                        dict(mode="r", encoding="nosuchcodec"), dict(mode="R", encoding="nosuchcodec"), dict(mode="r", newline="bad"), dict(mode="RWBT"),
                        dict(mode="RE"), dict(mode=""), dict(mode="B"), dict(mode="CNW"),
                        dict(mode="Rb"), dict(mode="R", closefd=False), dict(mode="R", errors=3)])
        kw = dict(name=path, locking=False, **bad)
        x.op_other(p, {"c": "failopen", "kw": kw}, f=f, xz=1)
        return True

    def g_helper(self):
        x, r = self.x, self.r
        p = r.choice(x.pidlive)
        f = r.choice(list(x.files))
        if x.sizes[f] is not None:
            return False
        x.op_other(p, {"c": "helper", "what": r.choice(["read", "append"]), "path": r.choice(x.files[f]["names"]), "locking": False}, f=f,
                   xz=1)
        return True

    def g_fork(self):
        x, r = self.x, self.r
        if len(x.pidlive) >= 3:
            return False
        p = r.choice(x.pidlive)
        if any(o["p"] == p for o in x.infl.values()):
            return False
        x.op_fork(p)
        return True

    def g_exit(self):
        x, r = self.x, self.r
        if len(x.pidlive) < 2:
            return False
        p = r.choice(x.pidlive)
        how = r.choice(["kill", "kill", "quick", "clean"])
        if any(o["p"] == p for o in x.infl.values()):
            how = "kill"
        x.op_exit(p, how)
        return True
