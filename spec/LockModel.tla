----------------------------- MODULE LockModel -----------------------------
(***************************************************************************)
(* Exhaustive model of the abstract lock system of RsLocks for a few       *)
(* handles of a few processes on one file.  TLC checks the properties      *)
(* below on every reachable state, and (Emit) prints every transition; the *)
(* harness replays all of them on the real code.                           *)
(***************************************************************************)
EXTENDS RsLocks, TLC, Json

CONSTANTS PROC,      \* handle -> process
          MAXLOCKS, EMIT, TWOSH

Handles == DOMAIN PROC
Rs == {r \in (0 .. NC-1) \X (1 .. NC-1) : r[1] < r[2]} \cup {<<lo, INF>> : lo \in 0 .. NC-1}

VARIABLES held, open, act
vars == <<held, open, act>>
View == <<held, open>>

Lk(h, r, sh) == [h |-> h, p |-> PROC[h], f |-> 1, sh |-> sh, lo |-> r[1], hi |-> r[2]]

Init == held = {} /\ open = {} /\ act = [op |-> "init"]

Open(h) ==
    /\ h \notin open /\ open' = open \cup {h} /\ UNCHANGED held
    /\ act' = [op |-> "open", h |-> h]

\* outcomes allowed to a non-blocking attempt
Outcomes(q) ==
    (IF Grantable(q, held) THEN {"ok"} ELSE {})
    \cup (IF Conflicts(q, held) THEN {"io"} ELSE {})
    \cup (IF Reenters(q, held) THEN {"rte"} ELSE {})

Lock(h, r, sh) ==
    LET q == Lk(h, r, sh) IN
    /\ h \in open
    /\ \E res \in Outcomes(q) :
         /\ res = "ok" => Cardinality(held) < MAXLOCKS
         /\ held' = IF res = "ok" THEN held \cup {q} ELSE held
         /\ act' = [op |-> "lock", h |-> h, lo |-> r[1], hi |-> r[2], sh |-> sh, res |-> res]
    /\ UNCHANGED open

Unlock(h, r) ==
    LET x == Exact(h, 1, r[1], r[2], held) IN
    /\ h \in open
    /\ held' = held \ x
    /\ act' = [op |-> "unlock", h |-> h, lo |-> r[1], hi |-> r[2], res |-> IF x = {} THEN "rte" ELSE "ok"]
    /\ UNCHANGED open

Close(h) ==
    /\ h \in open
    /\ held' = {r \in held : r.h # h}
    /\ open' = open \ {h}
    /\ act' = [op |-> "close", h |-> h]

Next == \E h \in Handles :
    \/ Open(h) \/ Close(h)
    \/ \E r \in Rs : (\E sh \in (IF TWOSH THEN BOOLEAN ELSE {FALSE}) : Lock(h, r, sh)) \/ Unlock(h, r)

Spec == Init /\ [][Next]_vars /\ WF_vars(\E h \in Handles : Close(h))

\* C01 / C04
Safe == Compatible(held)
OwnersOpen == \A r \in held : r.h \in open
\* what another process sees of each byte is exactly what is held by others
ViewSound == \A p \in {PROC[h] : h \in Handles} \cup {0}, c \in Cells :
                ModeSeenBy(p, 1, c, held) = 2 => \E r \in held : r.p # p /\ Covers(r, c) /\ ~r.sh
\* C02: a lock only disappears through its own handle;  C03/C04: exactly the designated ones do
OnlyOwner == [][\A r \in held \ held' : act'.h = r.h /\ act'.op \in {"unlock", "close"}
                    /\ (act'.op = "unlock" => act'.lo = r.lo /\ act'.hi = r.hi)]_vars
\* a failed call changes nothing
FailFree == [][(act'.op \in {"lock", "unlock"} /\ act'.res # "ok") => held' = held]_vars
\* refusals are justified, and whatever is free is granted
Justified == [][act'.op = "lock" => (act'.res = "ok" <=> Grantable(Lk(act'.h, <<act'.lo, act'.hi>>, act'.sh), held))]_vars

Emit == EMIT => PrintT(<<"T", ToJson([h |-> held, o |-> open, a |-> act', h2 |-> held', o2 |-> open'])>>)
=============================================================================
