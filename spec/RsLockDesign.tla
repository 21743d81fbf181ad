--------------------------- MODULE RsLockDesign ---------------------------
(***************************************************************************)
(* The design by which rsfile implements the abstract locks of RsLocks on  *)
(* fcntl() locks, which belong to processes (not to handles), get merged,  *)
(* and all vanish as soon as the process closes any descriptor of the      *)
(* file.  Each process keeps a registry of its locks and attempts, the     *)
(* part of them that it owns in the kernel, and descriptors whose closing  *)
(* is put off.  Several threads per process, one file.                     *)
(*                                                                         *)
(* The steps are the ones between which other threads and processes may    *)
(* run; the sections protected by the mutex of the registry are atomic.    *)
(* TLC checks that the locks granted to callers always are a behaviour of  *)
(* the abstract system, and that the kernel enforces exactly these.        *)
(*                                                                         *)
(* Each constant of BUGS removes one precaution of the design; each of     *)
(* these mutants breaks a property (see RsLockDesign_*.cfg).               *)
(***************************************************************************)
EXTENDS RsLocks, TLC

CONSTANTS HPROC,       \* handle -> process
          THANDLE,     \* thread -> handle that it uses
          RANGES, MAXLOCKS, BUGS

Handles == DOMAIN HPROC
Procs == {HPROC[h] : h \in Handles}
Threads == DOMAIN THANDLE
P(t) == HPROC[THANDLE[t]]

VARIABLES
    reg,      \* process -> registered locks and attempts
    conf,     \* process -> those owned in the kernel
    kern,     \* process -> cell -> mode that the kernel knows
    pend,     \* process -> descriptors to be closed later
    open,     \* handles whose stream is open
    fds,      \* handles whose descriptor is open
    pc, rq,   \* thread -> step, request
    held,     \* locks granted to callers, not released yet
    late      \* processes in which an attempt was under way when the last lock was released (see Pending)
vars == <<reg, conf, kern, pend, open, fds, pc, rq, held, late>>

Free == [c \in Cells |-> 0]
None == [h |-> 0]

Init ==
    /\ reg = [p \in Procs |-> {}] /\ conf = reg /\ pend = reg
    /\ kern = [p \in Procs |-> Free]
    /\ open = Handles /\ fds = Handles
    /\ pc = [t \in Threads |-> "idle"] /\ rq = [t \in Threads |-> None]
    /\ held = {} /\ late = {}

Lk(h, r, sh) == [h |-> h, p |-> HPROC[h], f |-> 1, sh |-> sh, lo |-> r[1], hi |-> r[2]]

\* ------------------------------------------------------------------ kernel
Allowed(p, q) == \A p2 \in Procs \ {p}, c \in Cells : Covers(q, c) => (kern[p2][c] = 0 \/ (q.sh /\ kern[p2][c] = 1))
Taken(k, q) == [c \in Cells |-> IF Covers(q, c) THEN Mode(q) ELSE k[c]]
\* bytes of a range that no lock owned in the kernel needs (any more)
Released(k, q, cf) == [c \in Cells |-> IF Covers(q, c) /\ ("unlock whole" \in BUGS \/ \A r \in cf : ~Covers(r, c)) THEN 0 ELSE k[c]]

\* a process without any lock nor attempt closes the descriptors put off (the kernel then forgets all its locks)
Quiet(p, rg, cf) == IF "never closes" \in BUGS THEN FALSE ELSE IF "purge ignores attempts" \in BUGS THEN cf = {} ELSE rg = {}

Purged(p, rg, cf, pd, k, f2, lt) ==
    IF Quiet(p, rg, cf)
    THEN /\ pend' = [pend EXCEPT ![p] = {}]
         /\ kern' = [kern EXCEPT ![p] = IF pd = {} THEN k ELSE Free]
         /\ fds' = f2 \ pd
         /\ late' = lt \ {p}
    ELSE /\ pend' = [pend EXCEPT ![p] = pd]
         /\ kern' = [kern EXCEPT ![p] = k]
         /\ fds' = f2
         /\ late' = IF cf = {} /\ rg # {} THEN lt \cup {p} ELSE lt

Awake(p) == [t \in Threads |-> IF P(t) = p /\ pc[t] = "waiting" THEN "register" ELSE pc[t]]

Forget(t) == rq' = IF pc'[t] = "idle" THEN [rq EXCEPT ![t] = None] ELSE rq

\* ------------------------------------------------------------------ lock
Call(t, r, sh, bl) ==
    /\ pc[t] = "idle" /\ THANDLE[t] \in open
    /\ Cardinality({x \in reg[P(t)] : x.h = THANDLE[t]}) < MAXLOCKS
    /\ pc' = [pc EXCEPT ![t] = "register"]
    /\ rq' = [rq EXCEPT ![t] = [h |-> THANDLE[t], q |-> Lk(THANDLE[t], r, sh), bl |-> bl]]
    /\ UNCHANGED <<reg, conf, kern, pend, open, fds, held, late>>

Register(t) ==
    LET p == P(t) q == rq[t].q IN
    /\ pc[t] = "register"
    /\ IF Reenters(q, reg[p]) THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED reg      \* RuntimeError
       ELSE IF Conflicts(q, reg[p])
       THEN pc' = [pc EXCEPT ![t] = IF rq[t].bl THEN "waiting" ELSE "idle"] /\ UNCHANGED reg
       ELSE reg' = [reg EXCEPT ![p] = @ \cup {q}] /\ pc' = [pc EXCEPT ![t] = "kernel"]
    /\ Forget(t)
    /\ UNCHANGED <<conf, kern, pend, open, fds, held, late>>

Kernel(t) ==
    LET p == P(t) q == rq[t].q IN
    /\ pc[t] = "kernel"
    /\ \/ /\ Allowed(p, q)
          /\ kern' = [kern EXCEPT ![p] = Taken(@, q)] /\ pc' = [pc EXCEPT ![t] = "confirm"]
       \/ /\ ~Allowed(p, q) /\ ~rq[t].bl
          /\ pc' = [pc EXCEPT ![t] = "fail"] /\ UNCHANGED kern
    /\ UNCHANGED <<reg, conf, pend, open, fds, rq, held, late>>

\* the kernel merges the locks of a process: a shared one may have been released along with an overlapping one
Confirm(t) ==
    LET p == P(t) q == rq[t].q IN
    /\ pc[t] = "confirm"
    /\ IF q.sh /\ "no second look" \notin BUGS /\ ~Allowed(p, q)
       THEN /\ kern' = [kern EXCEPT ![p] = Released(@, q, conf[p])]
            /\ pc' = [pc EXCEPT ![t] = IF rq[t].bl THEN "kernel" ELSE "fail"]
            /\ UNCHANGED <<conf, held>>
       ELSE /\ kern' = IF q.sh /\ "no second look" \notin BUGS THEN [kern EXCEPT ![p] = Taken(@, q)] ELSE kern
            /\ conf' = [conf EXCEPT ![p] = @ \cup {q}]
            /\ held' = held \cup {q}
            /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ Forget(t)
    /\ UNCHANGED <<reg, pend, open, fds, late>>

Fail(t) ==
    LET p == P(t) IN
    /\ pc[t] = "fail"
    /\ reg' = [reg EXCEPT ![p] = @ \ {rq[t].q}]
    /\ pc' = [Awake(p) EXCEPT ![t] = "idle"]
    /\ Forget(t)
    /\ UNCHANGED <<conf, kern, pend, open, fds, held, late>>

\* ------------------------------------------------------------------ unlock
Unlock(t) ==
    LET p == P(t) IN
    /\ pc[t] = "idle" /\ THANDLE[t] \in open
    /\ \E q \in held :
         /\ q.h = THANDLE[t]
         /\ held' = held \ {q}
         /\ LET rg == reg[p] \ {q} cf == conf[p] \ {q} IN
            /\ reg' = [reg EXCEPT ![p] = rg] /\ conf' = [conf EXCEPT ![p] = cf]
            /\ IF "unlock in two steps" \in BUGS
               THEN /\ pc' = [Awake(p) EXCEPT ![t] = "unlocking"] /\ rq' = [rq EXCEPT ![t] = [h |-> q.h, q |-> q, bl |-> FALSE]]
                    /\ UNCHANGED <<kern, pend, fds, late>>
               ELSE /\ pc' = IF "unlock wakes nobody" \in BUGS THEN pc ELSE Awake(p)
                    /\ UNCHANGED rq
                    /\ Purged(p, rg, cf, pend[p], Released(kern[p], q, cf), fds, late)
    /\ UNCHANGED open

Unlocking(t) ==
    LET p == P(t) IN
    /\ pc[t] = "unlocking" /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ Purged(p, reg[p], conf[p], pend[p], Released(kern[p], rq[t].q, conf[p]), fds, late)
    /\ Forget(t)
    /\ UNCHANGED <<reg, conf, open, held>>

\* ------------------------------------------------------------------ close
\* (not while another thread is using the same stream)
RECURSIVE ReleaseAll(_, _, _)
ReleaseAll(k, qs, cf) == IF qs = {} THEN k ELSE LET q == CHOOSE q \in qs : TRUE IN ReleaseAll(Released(k, q, cf), qs \ {q}, cf)

Close(t) ==
    LET p == P(t) h == THANDLE[t]
        mine == {q \in reg[p] : q.h = h}
        rg == reg[p] \ mine
        cf == {q \in conf[p] : q.h # h}
        k == ReleaseAll(kern[p], mine, cf) IN
    /\ h \in open /\ \A u \in Threads : THANDLE[u] = h => pc[u] = "idle"
    /\ open' = open \ {h}
    /\ held' = {q \in held : q.h # h}
    /\ reg' = [reg EXCEPT ![p] = rg] /\ conf' = [conf EXCEPT ![p] = cf]
    /\ pc' = IF "close wakes nobody" \in BUGS \/ mine = {} THEN pc ELSE Awake(p)
    /\ IF "close at once" \in BUGS
       THEN /\ kern' = [kern EXCEPT ![p] = Free] /\ fds' = fds \ {h} /\ UNCHANGED <<pend, late>>
       ELSE Purged(p, rg, cf, pend[p] \cup {h}, k, fds, late)
    /\ UNCHANGED rq

\* the same place gets used by a new stream
Reopen(t) ==
    LET h == THANDLE[t] IN
    /\ h \notin open /\ h \notin fds
    /\ open' = open \cup {h} /\ fds' = fds \cup {h}
    /\ UNCHANGED <<reg, conf, kern, pend, pc, rq, held, late>>

Next == \E t \in Threads :
    \/ \E r \in RANGES, sh, bl \in BOOLEAN : Call(t, r, sh, bl)
    \/ Register(t) \/ Kernel(t) \/ Confirm(t) \/ Fail(t) \/ Unlock(t) \/ Unlocking(t) \/ Close(t) \/ Reopen(t)
Spec == Init /\ [][Next]_vars

Fair == \A t \in Threads : /\ WF_vars(Register(t)) /\ SF_vars(Kernel(t)) /\ WF_vars(Confirm(t)) /\ WF_vars(Fail(t))
\* what users must do: release their locks
Users == \A t \in Threads : WF_vars(Unlock(t))
FairSpec == Spec /\ Fair /\ Users

\* ------------------------------------------------------------------ properties
\* C01, C04: what callers own is compatible
Safe == Compatible(held)
\* ... and each step is one of the abstract system (LockModel)
Abstract == [][ \/ \E q \in held' \ held : held' = held \cup {q} /\ Grantable(q, held)
                \/ \E q \in held : held' = held \ {q}
                \/ \E h \in Handles : held' = {q \in held : q.h # h} ]_held
\* C02: as long as it is held, the kernel enforces it
Enforced == \A q \in held, c \in Cells : Covers(q, c) => kern[q.p][c] = Mode(q)
\* C03: what isn't covered by a lock nor by an attempt is free
Exactly == \A p \in Procs, c \in Cells : kern[p][c] # 0 => \E q \in reg[p] : Covers(q, c)
\* the kernel is what makes processes safe from each other
KernelSane == \A p, q \in Procs, c \in Cells : p # q => ~(kern[p][c] = 2 /\ kern[q][c] # 0)
\* C03: nobody waits for a lock that nobody of this process has
NoLostWakeup == \A t \in Threads : pc[t] = "waiting" => Conflicts(rq[t].q, reg[P(t)])
\* C07: open streams have their descriptors, closed ones only keep theirs because of locks (or of attempts, DEVIATION (kept))
Descriptors == /\ open \subseteq fds
               /\ fds = open \cup UNION {pend[p] : p \in Procs}
               /\ \A p \in Procs : pend[p] # {} => conf[p] # {} \/ p \in late
\* C05: blocking attempts end, provided that locks end up being released, and that others don't take them forever
Calling == \E t \in Threads, r \in RANGES, sh, bl \in BOOLEAN : Call(t, r, sh, bl)
Ends == (<>[][~Calling]_vars) => (\A t \in Threads : (pc[t] = "register") ~> (pc[t] = "idle"))
=============================================================================
