---------------------------- MODULE HelperTrace ----------------------------
(***************************************************************************)
(* Uses of read_from_file / write_to_file / append_to_file on one path,    *)
(* one after the other, with all their arguments, the file being there or  *)
(* not, locked or not by this process or another one.  Times in ms.        *)
(*  init c                 c: <<content>>, or <<>> if there is no file     *)
(*  env  c                 somebody changed / created / removed the file   *)
(*  hold who on sh         "own" (a stream of this process) / "other"      *)
(*  h op kind nl enc data cr nocr locking to bad res val dt c busy fds     *)
(*     busy: protection by locks of this process that another one sees     *)
(*     fds: number of descriptors of this process on the file              *)
(*     bad: 1 wrong arguments, refused at once, 2 refused later on          *)
(***************************************************************************)
EXTENDS RsFile, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l,
          c,       \* <<content>> or <<>>
          own, other  \* locks on the whole file: 0 none, 1 shared, 2 exclusive
vars == <<tid, l, c, own, other>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid

Init ==
    /\ tid \in 1 .. Len(Traces) /\ l = 1
    /\ c = <<>> /\ own = 0 /\ other = 0
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Start == Is("init") /\ c' = E.c /\ Adv /\ UNCHANGED <<own, other>>
Env == Is("env") /\ c' = E.c /\ Adv /\ UNCHANGED <<own, other>>
Level == IF E.on = 0 THEN 0 ELSE IF E.sh = 1 THEN 1 ELSE 2
Hold ==
    /\ Is("hold") /\ Adv /\ UNCHANGED c
    /\ IF E.who = "own" THEN own' = Level /\ UNCHANGED other ELSE other' = Level /\ UNCHANGED own

-----------------------------------------------------------------------------
(* utf-16 (enc 9): a mark at the beginning of the file only *)
Units(u) == IF u < 65536 THEN <<u % 256, u \div 256>>
            ELSE LET v == u - 65536 h == 55296 + v \div 1024 w == 56320 + (v % 1024) IN
                 <<h % 256, h \div 256, w % 256, w \div 256>>
RECURSIVE Enc16(_)
Enc16(t) == IF t = <<>> THEN <<>> ELSE Units(Head(t)) \o Enc16(Tail(t))
Mark == <<255, 254>>
RECURSIVE Dec16(_, _)
Dec16(b, i) ==
    IF i + 1 > Len(b) THEN <<>>
    ELSE LET u == b[i] + 256 * b[i + 1] IN
         IF u >= 55296 /\ u < 56320 /\ i + 3 <= Len(b)
         THEN <<65536 + (u - 55296) * 1024 + (b[i + 2] + 256 * b[i + 3] - 56320)>> \o Dec16(b, i + 4)
         ELSE <<u>> \o Dec16(b, i + 2)

\* what the given data is in the file, if it starts at byte p (the mark comes with the empty string too)
Data(p) == IF E.kind = "bin" THEN E.data
           ELSE IF E.enc = 9 THEN (IF p = 0 THEN Mark ELSE <<>>) \o Enc16(EncodeAll(E.data, E.nl, 0))
           ELSE EncodeAll(E.data, E.nl, E.enc)
Text(b) == IF E.enc = 9 THEN LET t == Dec16(b, 3) IN ReadText(t, 0, -1, E.nl, 0)[1] ELSE ReadText(b, 0, -1, E.nl, E.enc)[1]
Unreadable(b) == E.kind = "text" /\ E.enc = 4 /\ \E i \in DOMAIN b : b[i] > 127
Unwritable == E.kind = "text" /\ E.enc # 9 /\ TextRefused(E.data, E.enc)

Missing == c = <<>>
Was == IF Missing THEN <<>> ELSE c[1]
Blocked == E.locking = 1 /\ (IF E.op = "read" THEN own = 2 \/ other = 2 ELSE own # 0 \/ other # 0)
Absent == Missing /\ (E.op = "read" \/ E.nocr = 1)
Present == ~Missing /\ E.cr = 1

Helper ==
    /\ Is("h")
    /\ Clause("locks left behind by a helper", E.busy <= own)
    /\ Clause("a helper dropped the lock of another stream", E.busy >= own)
    /\ Clause("descriptor leaked by a helper", own = 0 => E.fds = 0)
    /\ IF E.bad = 1
       THEN /\ Clause("wrong arguments accepted", E.res = "val")
            /\ Clause("refused helper changed the file", E.c = c)
       ELSE IF E.bad = 2 \* (noticed once the file is open)
       THEN /\ Clause("wrong arguments accepted", E.res \in {"val", "io"})
            /\ Clause("refused helper changed the file",
                      E.c = c \/ (~Absent /\ ~Present /\ ~Blocked /\ E.c = <<<<>>>> /\ (Missing \/ E.op = "write")))
       ELSE IF Absent \/ Present
       THEN /\ Clause("must_create / must_not_create / absence of the file ignored", E.res = "io")
            /\ Clause("refused helper changed the file", E.c = c)
       ELSE IF Blocked
       THEN /\ Clause("helper done although the file is locked", E.res = "io")
            /\ Clause("refused helper changed the file", E.c = c)
            /\ Clause("timed out too early", E.dt >= E.to)
            /\ Clause("timed out too late", E.dt <= E.to + (IF E.to = 0 THEN 0 ELSE 110))
       ELSE /\ Clause("helper waited without reason", E.dt = 0)
            /\ IF E.op = "read"
               THEN /\ Clause("reading changed the file", E.c = c)
                    /\ Clause("undecodable text accepted", Unreadable(Was) => E.res = "val")
                    /\ Clause("helper failed", Unreadable(Was) \/ E.res = "ok")
                    /\ Clause("wrong data read", E.res = "ok" => E.val = (IF E.kind = "bin" THEN Was ELSE Text(Was)))
               ELSE IF Unwritable
               THEN /\ Clause("text accepted although it can't be encoded", E.res = "val")
                    /\ Clause("wrong content after a failed helper",
                              E.c \in {<<Was>>} \cup (IF E.op = "write" THEN {<<<<>>>>} ELSE {}))
               ELSE /\ Clause("helper failed", E.res = "ok")
                    /\ Clause("wrong content",
                              E.c = <<IF E.op = "write" THEN Data(0) ELSE Was \o Data(Len(Was))>>)
    /\ c' = E.c /\ Adv /\ UNCHANGED <<own, other>>

Next == Start \/ Env \/ Hold \/ Helper
Spec == Init /\ [][Next]_vars
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
