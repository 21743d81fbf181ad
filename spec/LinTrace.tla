------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Concurrent calls by several threads (or processes): every recorded      *)
(* history must be equivalent to some sequential one.  Each call takes     *)
(* effect at one instant between its "call" and "ret" events: the action   *)
(* Lin, invisible in the trace, which TLC places in every possible way.    *)
(*                                                                         *)
(* The sequential objects: one file (a content, or no file at all), and    *)
(* streams on it (position, access rights, lock), or whole-file helpers.   *)
(*                                                                         *)
(* Events                                                                  *)
(*  init  c ex streams                                                     *)
(*  call  t s op ... res val   (the outcome, known afterwards, prunes)     *)
(*  ret   t                                                                *)
(*  enter t s / exit t s       a thread holds the public mutex of a stream *)
(*  final c ex                 content of the file in the end              *)
(*  quiet                      threads are blocked forever                 *)
(***************************************************************************)
EXTENDS RsFile, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tid, l,
          c, ex,   \* content and existence of the file
          st,      \* streams
          pend,    \* thread -> calls which have not taken effect yet
          fin,     \* threads whose call has taken effect, but not returned
          own      \* <<thread, stream>>: mutexes held

vars == <<tid, l, c, ex, st, pend, fin, own>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init ==
    /\ tid \in 1 .. Len(Traces)
    /\ l = 1
    /\ c = <<>> /\ ex = 0 /\ st = <<>> /\ pend = <<>> /\ fin = {} /\ own = {}
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Start ==
    /\ Is("init")
    /\ c' = E.c /\ ex' = E.ex
    /\ st' = [i \in DOMAIN E.streams |->
                [pos |-> 0, open |-> TRUE, rd |-> E.streams[i].rd = 1, wr |-> E.streams[i].wr = 1, app |-> E.streams[i].app = 1,
                 lk |-> 0]]
    /\ Adv /\ UNCHANGED <<pend, fin, own>>

Call ==
    /\ Is("call")
    /\ pend' = Put(pend, E.t, E)
    /\ Adv /\ UNCHANGED <<c, ex, st, fin, own>>

Ret ==
    /\ Is("ret")
    /\ Clause("no sequential order of the calls explains their results", E.t \in fin)
    /\ fin' = fin \ {E.t}
    /\ Adv /\ UNCHANGED <<c, ex, st, pend, own>>

Enter ==
    /\ Is("enter")
    /\ Clause("two threads hold the same mutex", \A o \in own : o[2] = E.s => o[1] = E.t)
    /\ own' = own \cup {<<E.t, E.s>>}
    /\ Adv /\ UNCHANGED <<c, ex, st, pend, fin>>
Exit ==
    /\ Is("exit")
    /\ own' = own \ {<<E.t, E.s>>}
    /\ Adv /\ UNCHANGED <<c, ex, st, pend, fin>>

Final ==
    /\ Is("final")
    /\ pend = <<>> /\ fin = {}
    /\ Clause("no sequential order of the calls explains the content of the file", ex = E.ex /\ (ex = 1 => c = E.c))
    /\ Adv /\ UNCHANGED <<c, ex, st, pend, fin, own>>

-----------------------------------------------------------------------------
PutAll(a, p, d) == Apply(a, Entries(p, d), Len(d))
ToEof(p) == IF p >= Len(c) THEN <<>> ELSE SubSeq(c, p + 1, Len(c))
Take(p, n) == IF n < 0 THEN ToEof(p) ELSE IF p >= Len(c) THEN <<>> ELSE SubSeq(c, p + 1, Min2(Len(c), p + n))
LineAt(p, n) == ReadLine(c, p, n, 2, 0)[1]

\* the sequential semantics: m takes effect with its recorded outcome
StreamOp(m) ==
    LET s == m.s x == st[s]
        ok == m.res = "ok"
        same == UNCHANGED <<c, ex>>
        to(q) == st' = [st EXCEPT ![s].pos = q]
    IN
    /\ \A o \in own : o[2] = s => o[1] = m.t
    /\ IF ~x.open
       THEN /\ IF m.op = "close" THEN ok ELSE m.res = "val"
            /\ same /\ UNCHANGED st
       ELSE CASE m.op \in {"read", "readinto"} ->
                   LET r == Take(x.pos, m.n) IN ok /\ m.val = r /\ to(x.pos + Len(r)) /\ same
              [] m.op \in {"readline", "next"} ->
                   LET r == LineAt(x.pos, m.n) IN
                   /\ IF m.op = "next" /\ r = <<>> THEN m.res = "stop" ELSE ok /\ m.val = r
                   /\ to(x.pos + Len(r)) /\ same
              [] m.op = "lines" ->
                   /\ ok /\ m.val = ReadLines(c, x.pos, 2, 0) /\ to(Max2(x.pos, Len(c))) /\ same
              [] m.op = "write" ->
                   LET p == IF x.app THEN Len(c) ELSE x.pos IN
                   /\ ok /\ m.val = Len(m.data)
                   /\ c' = PutAll(c, p, m.data) /\ UNCHANGED ex /\ to(p + Len(m.data))
              [] m.op = "writelines" ->
                   LET p == IF x.app THEN Len(c) ELSE x.pos IN
                   /\ ok /\ c' = PutAll(c, p, m.data) /\ UNCHANGED ex /\ to(p + Len(m.data))
              [] m.op = "seek" ->
                   LET q == CASE m.wh = 0 -> m.off [] m.wh = 1 -> x.pos + m.off [] OTHER -> Len(c) + m.off IN
                   /\ IF q < 0 THEN m.res = "io" /\ UNCHANGED st ELSE ok /\ m.val = q /\ to(q)
                   /\ same
              [] m.op = "tell" -> ok /\ m.val = x.pos /\ same /\ UNCHANGED st
              [] m.op = "size" -> ok /\ m.val = Len(c) /\ same /\ UNCHANGED st
              [] m.op = "flush" -> ok /\ same /\ UNCHANGED st
              [] m.op = "truncate" -> ok /\ m.val = m.n /\ c' = Resize(c, m.n) /\ UNCHANGED <<ex, st>>
              [] m.op = "lock" ->
                   /\ IF x.lk = 1 THEN m.res = "rte" ELSE ok
                   /\ st' = [st EXCEPT ![s].lk = 1] /\ same
              [] m.op = "unlock" ->
                   /\ ok \/ (x.lk = 0 /\ m.res = "rte")
                   /\ st' = [st EXCEPT ![s].lk = 0] /\ same
              [] m.op = "close" ->
                   /\ ok /\ st' = [st EXCEPT ![s].open = FALSE, ![s].lk = 0] /\ same

\* whole-file helpers.  Creating a missing file is a step of its own.
Busy(m) == \E t \in (DOMAIN pend \cup fin) : t # m.t      \* something else may hold the lock
Late(m) == m.to >= 0 /\ m.dt > m.to + (IF m.to = 0 THEN 0 ELSE m.spin)
NoLock(m) == m.res = "io" /\ m.to >= 0 /\ m.dt >= m.to /\ (Busy(m) \/ m.other = 1)
HelperOp(m) ==
    /\ UNCHANGED st
    /\ ~Late(m)
    /\ CASE m.op = "hread" ->
              /\ UNCHANGED <<c, ex>>
              /\ IF ex = 0 THEN m.res = "io"
                 ELSE \/ m.res = "ok" /\ m.val = c
                      \/ NoLock(m)
         [] m.op \in {"hwrite", "happend"} ->
              LET exists == ex = 1 /\ (m.made = 0)
                  refused == (m.cr = 1 /\ exists) \/ (m.nocr = 1 /\ ex = 0)
              IN IF refused THEN m.res = "io" /\ UNCHANGED <<c, ex>>
                 ELSE /\ ex = 1
                      /\ \/ /\ m.res = "ok"
                            /\ c' = IF m.op = "hwrite" THEN m.data ELSE c \o m.data
                            /\ UNCHANGED ex
                         \/ /\ NoLock(m)
                            /\ UNCHANGED <<c, ex>>

Create(t) ==
    LET m == pend[t] IN
    /\ m.op \in {"hwrite", "happend"}
    /\ m.made = 0 /\ m.nocr = 0 /\ ex = 0
    /\ ex' = 1 /\ c' = <<>>
    /\ pend' = [pend EXCEPT ![t].made = 1]
    /\ UNCHANGED <<tid, l, st, fin, own>>

Lin(t) ==
    LET m == pend[t] IN
    /\ IF m.op \in {"hread", "hwrite", "happend"} THEN HelperOp(m) ELSE StreamOp(m)
    /\ pend' = Del(pend, t)
    /\ fin' = fin \cup {t}
    /\ UNCHANGED <<tid, l, own>>

Next == Start \/ Call \/ Ret \/ Enter \/ Exit \/ Final \/ (\E t \in DOMAIN pend : Lin(t) \/ Create(t))

Spec == Init /\ [][Next]_vars

Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
