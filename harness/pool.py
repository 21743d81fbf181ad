"""Parallel recording of executions: each item runs in one of NCPU forked processes."""
import multiprocessing, os, time, traceback
from common import *

_fn = None


def _init():
    # every recorder process has its own fork server
    import lockdrv
    lockdrv.Zygote._one = None


def _call(item):
    try:
        return ("ok", _fn(item))
    except BaseException:
        return ("exc", traceback.format_exc())


def pmap(fn, items, deadline=None, procs=NCPU):
    """results in order; items not started before the deadline are dropped"""
    global _fn
    scratch()
    _fn = fn
    t0 = time.time()
    out = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, initializer=_init) as pool:
        try:
            it = pool.imap(_call, items, chunksize=1)
            for _ in range(len(items)):
                try:
                    kind, v = it.next(timeout=400)
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    raise MachineryError("recording got stuck")
                if kind == "exc":
                    raise MachineryError("recorder failed:\n" + v)
                out.append(v)
                if deadline and time.time() - t0 > deadline:
                    break
        finally:
            pool.terminate()
    return out
