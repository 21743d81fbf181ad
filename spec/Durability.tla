----------------------------- MODULE Durability -----------------------------
(***************************************************************************)
(* Storage under a stream: python buffer -> page cache -> device, with     *)
(* background writeback, failing system calls, and crashes; and the sync() *)
(* of rsfile: flush, then fdatasync() or fsync() with its fallback.        *)
(*                                                                         *)
(* Contract: what a sync() which returned covered survives every crash,    *)
(* unless its loss was reported by an earlier exception.                   *)
(* The constants reintroduce defects: TLC must refute them.                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS PAGES, MAXV,
          FALLBACK_ON_LOSS,   \* an fdatasync() which lost data is followed by a fsync(), which then succeeds
          NO_FLUSH,           \* sync() forgets the python buffer
          SYNC_FIRST,         \* sync() flushes the python buffer after syncing
          ALWAYS_DATASYNC,    \* metadata is ignored
          SWALLOW             \* the failure of fsync() is ignored

VARIABLES app,      \* page -> version written by the application
          buf,      \* pages in the python buffer
          vol, dur, \* page -> version in the page cache, on the device
          dirty,    \* dirty pages of the page cache
          mapp, mdur,      \* version of the metadata, in memory and on the device
          err,      \* a writeback failed: the next fsync() reports it
          pc, meta, \* sync() in progress
          reported, \* pages whose loss was reported
          promised, mpromised,
          goal      \* app when sync() was called

vars == <<app, buf, vol, dur, dirty, mapp, mdur, err, pc, meta, reported, promised, mpromised, goal>>

Zero == [p \in PAGES |-> 0]
Init ==
    /\ app = Zero /\ buf = {} /\ vol = Zero /\ dur = Zero /\ dirty = {} /\ mapp = 0 /\ mdur = 0 /\ err = FALSE
    /\ pc = "idle" /\ meta = TRUE /\ reported = {} /\ promised = Zero /\ mpromised = 0 /\ goal = Zero

Write(p) ==
    /\ pc = "idle" /\ app[p] < MAXV
    /\ app' = [app EXCEPT ![p] = @ + 1] /\ buf' = buf \cup {p}
    /\ reported' = reported \ {p}
    /\ UNCHANGED <<vol, dur, dirty, mapp, mdur, err, pc, meta, promised, mpromised, goal>>

ToCache(ps) ==
    /\ vol' = [p \in PAGES |-> IF p \in ps THEN app[p] ELSE vol[p]]
    /\ dirty' = dirty \cup ps /\ buf' = buf \ ps
    /\ mapp' = IF ps = {} THEN mapp ELSE mapp + 1

\* the buffer overflows
Spill(p) ==
    /\ pc = "idle" /\ p \in buf /\ ToCache({p})
    /\ UNCHANGED <<app, dur, mdur, err, pc, meta, reported, promised, mpromised, goal>>

Writeback(p) ==
    /\ p \in dirty /\ dirty' = dirty \ {p}
    /\ \/ dur' = [dur EXCEPT ![p] = vol[p]] /\ UNCHANGED err
       \/ err' = TRUE /\ UNCHANGED dur \* lost: the page is clean, but not on the device
    /\ UNCHANGED <<app, buf, vol, mapp, mdur, pc, meta, reported, promised, mpromised, goal>>

MetaWriteback == mdur' = mapp /\ mdur # mapp /\ UNCHANGED <<app, buf, vol, dur, dirty, mapp, err, pc, meta, reported, promised, mpromised, goal>>

Begin ==
    /\ pc = "idle" /\ \E m \in BOOLEAN : meta' = m
    /\ pc' = IF NO_FLUSH \/ SYNC_FIRST THEN "sync" ELSE "flush"
    /\ goal' = app
    /\ UNCHANGED <<app, buf, vol, dur, dirty, mapp, mdur, err, reported, promised, mpromised>>

After == IF SYNC_FIRST THEN "ret" ELSE "sync"
Flush ==
    /\ pc = "flush"
    /\ \/ ToCache(buf) /\ pc' = After
       \/ \E ps \in SUBSET buf : ps # buf /\ ToCache(ps) /\ pc' = "raise" \* write() failed half way
    /\ UNCHANGED <<app, dur, mdur, err, meta, reported, promised, mpromised, goal>>

\* a system call which syncs: result "ok", "loss" (EIO...: the dirty pages are forgotten) or "unsupported"
Kernel(data) ==
    \/ /\ ~err
       /\ dur' = [p \in PAGES |-> IF p \in dirty THEN vol[p] ELSE dur[p]] /\ dirty' = {}
       /\ mdur' = (IF data THEN mdur ELSE mapp)
       /\ UNCHANGED err /\ pc' = (IF SYNC_FIRST THEN "flush" ELSE "ret")
    \/ /\ (err \/ dirty # {})
       /\ \E lost \in SUBSET dirty : dur' = [p \in PAGES |-> IF p \in dirty \ lost THEN vol[p] ELSE dur[p]]
       /\ dirty' = {} /\ err' = FALSE /\ UNCHANGED mdur
       /\ pc' = IF SWALLOW THEN "ret" ELSE IF data /\ FALLBACK_ON_LOSS THEN "fsync" ELSE "raise"
    \/ /\ ~err /\ UNCHANGED <<dur, dirty, mdur, err>>
       /\ pc' = IF data THEN "fsync" ELSE "raise"

SyncCall ==
    /\ pc \in {"sync", "fsync"}
    /\ Kernel(pc = "sync" /\ (~meta \/ ALWAYS_DATASYNC))
    /\ UNCHANGED <<app, buf, vol, mapp, meta, reported, promised, mpromised, goal>>

Return ==
    /\ pc = "ret" /\ pc' = "idle"
    /\ promised' = [p \in PAGES |-> IF p \in reported THEN promised[p] ELSE goal[p]]
    /\ mpromised' = IF meta THEN mapp ELSE mpromised
    /\ UNCHANGED <<app, buf, vol, dur, dirty, mapp, mdur, err, meta, reported, goal>>

Raise ==
    /\ pc = "raise" /\ pc' = "idle"
    /\ reported' = PAGES \* the caller knows that what was written may be lost
    /\ UNCHANGED <<app, buf, vol, dur, dirty, mapp, mdur, err, meta, promised, mpromised, goal>>

Next == \/ \E p \in PAGES : Write(p) \/ Spill(p) \/ Writeback(p)
        \/ MetaWriteback \/ Begin \/ Flush \/ SyncCall \/ Return \/ Raise
Spec == Init /\ [][Next]_vars

Bound == mapp <= 4

\* after a crash the device holds dur: nothing promised may be missing
Durable == \A p \in PAGES : dur[p] >= promised[p]
MetaDurable == mdur >= mpromised
=============================================================================
