------------------------------ MODULE OptTrace ------------------------------
(***************************************************************************)
(* The process-wide options, and what they change for locking calls.       *)
(* Times are in milliseconds; enf = -1 means "no enforced timeout".        *)
(*  init  enf spin              what the options are at first              *)
(*  set   enf spin unk res      -2: not given; unk: an unknown name given  *)
(*  get   enf spin n                                                       *)
(*  open  s                     (without locking)                          *)
(*  lock  s to busy res dt      the file being locked by somebody or not   *)
(*  olock to busy res dt        opening with locking                       *)
(* A dictionary obtained from "get" may be modified in between.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l,
          o,      \* options: [enf, spin]
          st      \* stream -> the options when it was opened
vars == <<tid, l, o, st>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max(a, b) == IF a > b THEN a ELSE b

Init ==
    /\ tid \in 1 .. Len(Traces) /\ l = 1
    /\ o = [enf |-> -1, spin |-> 100] /\ st = <<>>
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Start == Is("init") /\ Clause("wrong default options", E.enf = o.enf /\ E.spin = o.spin) /\ Adv /\ UNCHANGED <<o, st>>

Set ==
    /\ Is("set")
    /\ Clause("unknown option accepted", E.unk = 1 => E.res = "val")
    /\ Clause("option refused", E.unk = 0 => E.res = "ok")
    /\ o' = IF E.unk = 1 THEN o
            ELSE [enf |-> IF E.enf = -2 THEN o.enf ELSE E.enf, spin |-> IF E.spin = -2 THEN o.spin ELSE E.spin]
    /\ Adv /\ UNCHANGED st

Get ==
    /\ Is("get")
    /\ Clause("wrong options reported", E.enf = o.enf /\ E.spin = o.spin /\ E.n = 2)
    /\ Adv /\ UNCHANGED <<o, st>>

Open == Is("open") /\ st' = Put(st, E.s, o) /\ Adv /\ UNCHANGED o

Outcome(w) ==
    LET spin == Max(w.spin, o.spin) IN
    IF E.busy = 0 THEN Clause("free lock refused", E.res = "ok") /\ Clause("free lock granted late", E.dt = 0)
    ELSE IF E.to >= 0
    THEN /\ Clause("wrong error for a lock which isn't free", E.res = "io")
         /\ Clause("timed out too early", E.dt >= E.to)
         /\ Clause("timed out too late", E.dt <= E.to + (IF E.to = 0 THEN 0 ELSE spin))
    ELSE /\ Clause("enforced timeout ignored", E.res = "rte")
         /\ Clause("enforced timeout too early", E.dt >= w.enf)
         /\ Clause("enforced timeout too late", E.dt <= w.enf + spin)

Lock == Is("lock") /\ Outcome(st[E.s]) /\ Adv /\ UNCHANGED <<o, st>>
OpenLock == Is("olock") /\ Outcome(o) /\ Adv /\ UNCHANGED <<o, st>>

Next == Start \/ Set \/ Get \/ Open \/ Lock \/ OpenLock
Spec == Init /\ [][Next]_vars
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
