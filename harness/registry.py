from common import *
import checks_locks as L
import checks_model as M
import checks_conc as X
import checks_streams as S
import checks_lin as LN
import checks_open as O
import checks_dur as D
import checks_pipe as P
import checks_win as W

QUICK = TIER != "thorough"


SCALE = float(os.environ.get("VSCALE", "1"))  # (development: smaller samples)


def n(quick, thorough):
    q = quick if QUICK else thorough
    return max(1, int(q * SCALE)) if SCALE != 1 and isinstance(q, int) and q >= 100 else q


def C01(chk):
    b = Batch()
    M.design(chk, "C01", deep=not QUICK)
    L.lock_histories(chk, "C01", n(350, 8000), b, deadline=n(40, 600))
    M.cover(chk, "C01", b, *n(([1, 1, 2], 2, 3), ([1, 1, 2], 3, 3)))
    X.lock_schedules(chk, "C01", n(600, 20000), b, deadline=n(30, 700))
    X.systematic(chk, "C01", n(2, 60), b, per=n(200, 900), deadline=n(30, 700))
    chk.add_batch(b)


def C02(chk):
    b = Batch()
    M.design(chk, "C02")
    L.lock_histories(chk, "C02", n(400, 8000), b, deadline=n(40, 600))
    M.cover(chk, "C02", b, *n(([1, 1], 3, 3), ([1, 1, 1], 3, 3)))
    X.lock_schedules(chk, "C02", n(700, 20000), b, deadline=n(30, 700))
    X.systematic(chk, "C02", n(2, 60), b, per=n(200, 900), deadline=n(30, 700))
    chk.add_batch(b)


def C03(chk):
    b = Batch()
    M.design(chk, "C03")
    L.lock_histories(chk, "C03", n(350, 8000), b, deadline=n(40, 600))
    M.cover(chk, "C03", b, *n(([1, 2, 3], 2, 2), ([1, 2, 2], 3, 3)))
    X.lock_schedules(chk, "C03", n(800, 20000), b, deadline=n(30, 700))
    X.systematic(chk, "C03", n(3, 60), b, per=n(300, 900), deadline=n(30, 700))
    chk.add_batch(b)


def C04(chk):
    b = Batch()
    L.lock_histories(chk, "C04", n(500, 8000), b, deadline=n(40, 600))
    M.cover(chk, "C04", b, *n(([1, 1, 1], 2, 3), ([1, 1, 2], 3, 3)))
    X.lock_schedules(chk, "C04", n(500, 15000), b, deadline=n(30, 700))
    chk.add_batch(b)


def C05(chk):
    b = Batch()
    M.design(chk, "C05")
    X.lock_schedules(chk, "C05", n(1500, 40000), b, deadline=n(40, 900))
    X.systematic(chk, "C05", n(3, 60), b, per=n(300, 900), deadline=n(30, 700))
    X.options(chk, "C05", n(400, 8000), b, deadline=n(30, 200))
    chk.add_batch(b)


def C06(chk):
    b = Batch()
    L.lock_histories(chk, "C06", n(600, 15000), b, deadline=n(50, 900))
    chk.add_batch(b)


def C07(chk):
    b = Batch()
    M.design(chk, "C07")
    L.lock_histories(chk, "C07", n(500, 9000), b, deadline=n(40, 600))
    X.lock_schedules(chk, "C07", n(700, 20000), b, deadline=n(30, 700))
    X.systematic(chk, "C07", n(2, 60), b, per=n(300, 900), deadline=n(30, 700))
    O.openings(chk, "C07", b, *n((1, 600), (5, None)), deadline=n(20, 200), rel=lambda p, c: "descriptor" in c and "flags" not in c)
    chk.add_batch(b)


def C08(chk):
    b = Batch()
    S.streams(chk, "C08", n(1500, 40000), b, deadline=n(60, 800))
    chk.add_batch(b)


def C09(chk):
    b = Batch()
    chk.model("OpenModel.tla", n("OpenModelSmall.cfg", "OpenModel.cfg"))
    O.openings(chk, "C09", b, *n((4, None), (40, None)), deadline=n(60, 600), rel=lambda p, c: c != "descriptor leaked")
    chk.add_batch(b)


def C10(chk):
    b = Batch()
    S.streams(chk, "C10", n(1200, 30000), b, deadline=n(60, 800))
    chk.add_batch(b)


def C11(chk):
    b = Batch()
    S.streams(chk, "C11", n(4500, 80000), b, deadline=n(60, 500))
    S.streams(chk, "C11", n(3000, 60000), b, prof="deep", deadline=n(60, 400), salt=1)
    S.streams(chk, "C11", n(1500, 30000), b, prof="short", deadline=n(30, 200), salt=2)
    chk.add_batch(b)


def C12(chk):
    b = Batch()
    S.streams(chk, "C12", n(1800, 60000), b, deadline=n(60, 400))
    LN.lin(chk, "C12", "append", n(1200, 30000), b, deadline=n(30, 200))
    LN.lin_procs(chk, "C12", "append", n(800, 20000), b, deadline=n(30, 200))
    chk.add_batch(b)


def C13(chk):
    b = Batch()
    LN.lin(chk, "C13", "ts", n(3000, 60000), b, deadline=n(40, 400))
    LN.lin_systematic(chk, "C13", "ts", n(6, 80), b, n(150, 700), deadline=n(40, 300))
    LN.lin_procs(chk, "C13", "mutex", n(1500, 30000), b, deadline=n(40, 200))
    chk.add_batch(b)


def C14(chk):
    b = Batch()
    D.models(chk)
    D.syncs(chk, "C14", n(2500, 60000), b, deadline=n(50, 600))
    chk.add_batch(b)


def C15(chk):
    b = Batch()
    LN.lin(chk, "C15", "helper", n(3000, 60000), b, deadline=n(40, 400))
    LN.lin_systematic(chk, "C15", "helper", n(5, 80), b, n(150, 700), deadline=n(40, 300))
    LN.lin_procs(chk, "C15", "helper", n(1200, 20000), b, deadline=n(40, 200))
    X.helpers(chk, "C15", n(800, 20000), b, deadline=n(30, 200))
    chk.add_batch(b)


def C16(chk):
    b = Batch()
    S.streams(chk, "C16", n(2500, 60000), b, deadline=n(60, 500))
    S.streams(chk, "C16", n(1800, 50000), b, prof="closed", deadline=n(60, 400), salt=1)
    chk.add_batch(b)


def C17(chk):
    b = Batch()
    L.lock_histories(chk, "C17", n(500, 12000), b, deadline=n(40, 500))
    L.xdev_histories(chk, "C17", n(200, 4000), b)
    S.streams(chk, "C17", n(1500, 30000), b, deadline=n(40, 250), salt=3)
    chk.add_batch(b)


def C18(chk):
    b = Batch()
    S.streams(chk, "C18", n(2500, 60000), b, deadline=n(60, 700))
    O.std_openings(chk, "C18", b, n(8, 100), deadline=n(40, 150))
    chk.add_batch(b)


def C19(chk):
    b = Batch()
    P.pipes(chk, "C19", n(2500, 80000), b, deadline=n(60, 700))
    chk.add_batch(b)


def C20(chk):
    b = Batch()
    W.locks(chk, "C20", b, n(600, 12000), n(25, 150))
    W.streams_(chk, "C20", b, n(600, 8000), n(25, 120))
    W.lins(chk, "C20", b, n(500, 8000), n(20, 100))
    W.opens_(chk, "C20", b, *n((1, 800), (6, None)), deadline=n(25, 150))
    chk.add_batch(b)


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
