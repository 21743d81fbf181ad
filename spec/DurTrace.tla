------------------------------ MODULE DurTrace ------------------------------
(***************************************************************************)
(* Recorded uses of streams, with the system calls they made (some of them *)
(* failing on purpose), judged by the contract of Durability.              *)
(*  init  c             content of the file, on the device                 *)
(*  open  s wr app sync osync                                              *)
(*  op    s op ... res val sys disk                                        *)
(* sys: the system calls, in order; disk: content of the file afterwards.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l,
          c,       \* what the file contains, for the application
          st,      \* streams
          dd, md   \* the file has data / metadata not on the device
vars == <<tid, l, c, st, dd, md>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max(a, b) == IF a > b THEN a ELSE b

Init ==
    /\ tid \in 1 .. Len(Traces) /\ l = 1
    /\ c = <<>> /\ st = <<>> /\ dd = FALSE /\ md = FALSE
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Start == Is("init") /\ c' = E.c /\ Adv /\ UNCHANGED <<st, dd, md>>

\* the storage, after each system call
Step(s, e) ==
    CASE e.fn = "write" /\ e.ok = 1 /\ e.len > 0 ->
            IF e.osync = 1 THEN s ELSE [s EXCEPT !.d = TRUE, !.m = TRUE]
      [] e.fn = "trunc" /\ e.ok = 1 -> [s EXCEPT !.d = TRUE, !.m = TRUE]
      [] e.fn = "fsync" /\ e.ok = 1 -> [s EXCEPT !.d = FALSE, !.m = FALSE]
      [] e.fn = "fdatasync" /\ e.ok = 1 -> [s EXCEPT !.d = FALSE]
      [] e.fn \in {"fsync", "fdatasync"} /\ e.ok = 0 -> [s EXCEPT !.fail = TRUE, !.lost = @ \/ e.hard = 1]
      [] e.ok = 0 -> [s EXCEPT !.fail = TRUE]
      [] OTHER -> s
RECURSIVE Fold(_, _, _)
Fold(s, q, i) == IF i > Len(q) THEN s ELSE Fold(Step(s, q[i]), q, i + 1)
Storage == Fold([d |-> dd, m |-> md, fail |-> FALSE, lost |-> FALSE], E.sys, 1)

Over(x, pos, d) == [i \in 1 .. Max(Len(x), pos + Len(d)) |->
                      IF i > pos /\ i <= pos + Len(d) THEN d[i - pos] ELSE IF i <= Len(x) THEN x[i] ELSE 0]

Open ==
    /\ Is("open")
    /\ Clause("stream asked to be synchronized is not", E.sync = 1 => E.osync = 1)
    /\ st' = Put(st, E.s, [pos |-> IF E.app = 1 THEN Len(c) ELSE 0, app |-> E.app = 1])
    /\ Adv /\ UNCHANGED <<c, dd, md>>

Op ==
    /\ Is("op")
    /\ LET s == Storage
           me == st[E.s]
           ok == E.res = "ok"
           synced == ok /\ (E.op = "sync" \/ (E.op \in {"hwrite", "happend"} /\ E.sync = 1))
       IN
       /\ dd' = s.d /\ md' = s.m
       /\ CASE E.op = "write" ->
                 IF ok THEN LET pos == IF me.app THEN Len(c) ELSE me.pos IN
                      /\ c' = Over(c, pos, SubSeq(E.data, 1, E.val))
                      /\ st' = Put(st, E.s, [me EXCEPT !.pos = pos + E.val])
                 ELSE Clause("write failed without reason", s.fail) /\ UNCHANGED <<c, st>>
            [] E.op = "seek" -> ok /\ st' = Put(st, E.s, [me EXCEPT !.pos = E.n]) /\ UNCHANGED c
            [] E.op = "truncate" ->
                 /\ ok /\ UNCHANGED st
                 /\ c' = [i \in 1 .. E.n |-> IF i <= Len(c) THEN c[i] ELSE 0]
            [] E.op = "flush" -> Clause("flush failed without reason", ok \/ s.fail) /\ UNCHANGED <<c, st>>
            [] E.op = "sync" ->
                 /\ Clause("sync failed without reason", ok \/ s.fail) /\ UNCHANGED <<c, st>>
            [] E.op = "close" -> c' = (IF ok THEN c ELSE E.disk) /\ UNCHANGED st
            [] E.op = "hwrite" -> c' = (IF ok THEN E.data ELSE E.disk) /\ UNCHANGED st
            [] E.op = "happend" -> c' = (IF ok THEN c \o E.data ELSE E.disk) /\ UNCHANGED st
       /\ Clause("sync returned before all data written had reached the file", synced => E.disk = c')
       /\ Clause("sync returned although data was lost", synced => ~s.lost)
       /\ Clause("sync returned before the data was on the device", synced => ~s.d)
       /\ Clause("sync returned before the metadata was on the device", synced /\ E.meta = 1 => ~s.m)
    /\ Adv

Next == Start \/ Open \/ Op
Spec == Init /\ [][Next]_vars
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
