"""Streams over files: recorded executions judged by spec/StreamTrace.tla."""
import checks_locks
from checks_conc import *

DATA = ("C08", "C11", "C12", "C17", "C18")
API = ("C11", "C18")
SCLAUSES = {
    "opening changed the content of the file": ("C10", "C18", "C11"),
    "file erased before being locked": ("C10",),
    "the content of the file is not explained by what was written": DATA,
    "lock released before the data written under it reached the file": ("C08",),
    "locks left behind": ("C16", "C10", "C08", "C18"),
    "a held lock is not protected by the operating system": ("C10",),
    "descriptor closed too early": ("C16", "C10", "C18"),
    "descriptor leaked": ("C16", "C10", "C18"),
    "stream opened although the file is locked": ("C10",),
    "file not erased by its opening": ("C10", "C18", "C12"),
    "opening failed without reason": ("C10", "C18", "C11"),
    "failed opening changed the content of the file": ("C10", "C18"),
    "operation on a closed stream did not raise ValueError": ("C16", "C18"),
    "operation done without the corresponding access right": API,
    "operation on a closed stream changed the file": ("C16", "C18"),
    "write failed": API + ("C12",),
    "wrong number of bytes written": API + ("C12",),
    "raw write did not reach the file": API + ("C12",),
    "line buffered data did not reach the file": API,
    "read failed": API,
    "read returned wrong data": DATA,
    "read returned wrong text": DATA,
    "read returned more than asked": API,
    "read stopped before the end of the file": DATA,
    "read stopped before the end of the line": DATA,
    "wrong line": DATA,
    "wrong lines": DATA,
    "impossible seek accepted": API,
    "seek returned a wrong position": API + ("C12",),
    "seek failed": API,
    "tell failed": API,
    "wrong position": API + ("C12",),
    "one text cookie for two positions": API,
    "size failed": API,
    "wrong size": API,
    "flush failed": API,
    "flushed data did not reach the file": DATA,
    "impossible truncation accepted": API,
    "wrong content after truncation": API + ("C12",),
    "truncate returned a wrong size": API,
    "truncate failed": API,
    "lock granted to a call which should fail": ("C10",),
    "lock refused without reason": ("C10",),
    "data written under a lock did not reach the file before its release": ("C08",),
    "unlock failed": ("C08", "C16"),
    "close failed": API + ("C16",),
    "close() lost data": DATA + ("C16",),
    "detach failed": API + ("C16",),
    "detached stream kept data": DATA + ("C16",),
    "attributes failed": API + ("C17",),
    "unique_id() does not identify the file": ("C17", "C11"),
    "wrong times()": ("C17", "C11"),
    "text accepted although it can't be encoded": API,
    "wrong readable() / writable() / seekable() / closed": API,
}


def srelevant(prop, clause):
    return prop in SCLAUSES.get(clause, (prop,))


def streams(chk, prop, n, b, prof=None, deadline=None, salt=0):
    jobs = [{"kind": "streams", "seed": SEED * 10000019 + salt * 1000003 + i, "prof": prof or prop} for i in range(n)]
    outs = run_jobs(chk, prop, jobs, b, "StreamTrace.tla", "StreamTrace.cfg", deadline, rel=srelevant)
    chk.notes["stream_executions"] = chk.notes.get("stream_executions", 0) + len(outs)
    for o in outs[:2]:
        if "events" in o:
            chk.sample([{k: v for k, v in e.items() if k != "disk"} for e in o["events"]][:12])
