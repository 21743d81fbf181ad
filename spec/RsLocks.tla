------------------------------ MODULE RsLocks ------------------------------
(***************************************************************************)
(* Abstract byte-range locks of rsfile streams: the vocabulary shared by   *)
(* the exhaustive model (LockModel), the generator of behaviours, the      *)
(* refinement target of the design (RsLockDesign) and the trace            *)
(* specification (LockTrace).                                              *)
(*                                                                         *)
(* Bytes are abstracted into NC cells; the last cell, NC-1, stands for     *)
(* everything up to infinity.  A range is [lo, hi) with hi <= NC-1, or     *)
(* hi = INF.  A lock is a record                                           *)
(*    [h |-> handle, p |-> process, f |-> file, sh |-> shared?, lo, hi].   *)
(* The owner of a lock is a *handle* (a descriptor of one process), not a  *)
(* path nor a thread.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANT NC
INF == 1000000

Cells == 0 .. (NC - 1)

\* cells of a range
Covers(r, c) == r.lo <= c /\ (r.hi = INF \/ c < r.hi)
Overlap(a, b) ==
    /\ (a.hi = INF \/ b.lo < a.hi)
    /\ (b.hi = INF \/ a.lo < b.hi)

Clash(a, b) == a.f = b.f /\ a.h # b.h /\ Overlap(a, b) /\ ~(a.sh /\ b.sh)
SelfOverlap(a, b) == a.f = b.f /\ a.h = b.h /\ Overlap(a, b)

\* request q (same fields as a lock) against a set of held locks
Conflicts(q, locks) == \E r \in locks : Clash(q, r)
Reenters(q, locks)  == \E r \in locks : SelfOverlap(q, r)
Grantable(q, locks) == ~Conflicts(q, locks) /\ ~Reenters(q, locks)

\* the one global safety property of any set of held locks (C01, C04)
Compatible(locks) ==
    \A a, b \in locks : a # b => ~Clash(a, b) /\ ~SelfOverlap(a, b)

\* exact-range release: the records which unlock(range) of handle h designates
Exact(h, f, lo, hi, locks) == {r \in locks : r.h = h /\ r.f = f /\ r.lo = lo /\ r.hi = hi}

Mode(r) == IF r.sh THEN 1 ELSE 2
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* what process q sees on a cell when it asks the operating system: 0 free,
\* 1 somebody else holds a shared lock, 2 somebody else holds an exclusive lock
ModeSeenBy(q, f, c, locks) ==
    Max({0} \cup {Mode(r) : r \in {r \in locks : r.f = f /\ r.p # q /\ Covers(r, c)}})

\* resolution of (offset, whence) - C04
Resolve(off, whence, pos, size) ==
    off + (CASE whence = 0 -> 0 [] whence = 1 -> pos [] whence = 2 -> size)
RangeEnd(lo, len) == IF len = 0 THEN INF ELSE lo + len
============================================================================
