------------------------------ MODULE PipeTrace ------------------------------
(***************************************************************************)
(* Recorded uses of pipes (anonymous, named, sockets), blocking or not,     *)
(* through several reading and writing streams.                             *)
(*  open   s rd kind res q          a stream gets opened on an end          *)
(*  op     s op n data res out val q nb fault shut                          *)
(*  conc   ws d                     real concurrent use of blocking streams *)
(* q: number of bytes in the pipe after the operation (from the kernel).    *)
(* Bytes accepted by a writing stream are either in the pipe or waiting in  *)
(* this stream; bytes taken from the pipe are either delivered or waiting   *)
(* in a reading stream: nothing is lost, duplicated, reordered or invented. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l, pipe, st
vars == <<tid, l, pipe, st>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
From(s, n) == SubSeq(s, n + 1, Len(s))
Upto(s, n) == SubSeq(s, 1, n)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Readers == {s \in DOMAIN st : st[s].rd}
Writers == {s \in DOMAIN st : ~st[s].rd}
NL == 10

Init ==
    /\ tid \in 1 .. Len(Traces) /\ l = 1
    /\ pipe = <<>> /\ st = <<>>
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

\* Opening: whatever the mode, nothing is erased, and no lock is attempted (that would fail)
Open ==
    /\ Is("open")
    /\ Clause("pipe refused", E.res = "ok")
    /\ Clause("opening changed the content of the pipe", E.q = Len(pipe))
    /\ st' = Put(st, E.s, [rd |-> E.rd = 1, kind |-> E.kind, b |-> <<>>])
    /\ Adv /\ UNCHANGED pipe

\* bytes written straight to the pipe, by somebody who doesn't use RSFile
Foreign ==
    /\ Is("foreign")
    /\ pipe' = pipe \o E.data
    /\ Adv /\ UNCHANGED st

-----------------------------------------------------------------------------
Eof == Writers = {} /\ E.ext = 0
Short == E.fault = 1  \* the system said that nothing was available (or no room)

Read ==
    /\ Is("op") /\ E.op \in {"read", "read1", "readall", "readinto", "readline", "peek", "next"}
    /\ LET me == st[E.s]
           took == Len(pipe) - E.q
           avail == me.b \o Upto(pipe, took)         \* what the stream had or took
           d == E.out
           rest == IF E.op = "peek" THEN avail ELSE From(avail, Len(d))
           drained == rest = <<>> /\ E.q = 0
           raw == me.kind = "raw"
           \* the only reasons to deliver less than asked
           may == (drained \/ Short) /\ (Eof \/ (E.nb = 1) \/ Short)
           lim == E.n >= 0
       IN
       /\ Clause("reading added data to the pipe", took >= 0)
       /\ Clause("operation failed", E.res \in {"ok", "none"})
       /\ Clause("data lost, altered or reordered", Prefix(d, avail))
       /\ Clause("unbuffered stream kept data", raw => rest = <<>>)
       /\ Clause("more data than asked", lim /\ E.op # "peek" => Len(d) <= E.n)
       /\ Clause("nothing delivered although data is available",
                 E.res = "none" => (Short \/ ((E.nb = 1) /\ ~Eof)) /\ rest = <<>> /\ d = <<>> /\ (E.q = 0 \/ Short))
       /\ Clause("end of file reported too early",
                 E.res = "ok" /\ d = <<>> /\ E.n # 0 => avail = <<>> /\ (E.q = 0 \/ Short) /\
                   (Eof \/ (E.op \in {"readline", "peek", "read1", "next"} /\ ((E.nb = 1) \/ Short)) ))
       /\ Clause("delivered less than asked",
                 E.res = "ok" =>
                 CASE E.op = "readall" \/ (E.op \in {"read", "readline"} /\ ~lim /\ E.op = "read") -> may
                   [] E.op = "read" /\ me.kind \in {"buf", "text"} -> Len(d) = E.n \/ may
                   [] E.op = "readinto" /\ me.kind = "buf" -> Len(d) = E.n \/ may
                   [] E.op \in {"readline", "next"} -> (d # <<>> /\ d[Len(d)] = NL) \/ (lim /\ Len(d) = E.n) \/ may
                   [] OTHER -> TRUE)
       /\ Clause("line contains several lines",
                 E.op \in {"readline", "next"} => \A i \in 1 .. Len(d) - 1 : d[i] # NL)
       /\ pipe' = From(pipe, took)
       /\ st' = Put(st, E.s, [me EXCEPT !.b = rest])
    /\ Adv

-----------------------------------------------------------------------------
\* some of the data waiting in the writing stream goes to the pipe
Moved(w, x) == [pipe |-> pipe \o Upto(w, x), b |-> From(w, x)]
Write ==
    /\ Is("op") /\ E.op \in {"write", "flush", "wclose"}
    /\ LET me == st[E.s]
           acc == CASE E.op # "write" -> 0
                    [] E.res \in {"ok", "block"} -> E.val
                    [] OTHER -> 0
           w == me.b \o Upto(E.data, acc)
           x == E.q - Len(pipe)
           m == Moved(w, x)
           raw == me.kind = "raw"
           last == Readers = {} /\ E.rext = 0
       IN
       /\ Clause("writing removed data from the pipe", x >= 0 \/ last)
       /\ Clause("more data in the pipe than was written", x <= Len(w) \/ last)
       /\ Clause("wrong number of bytes accepted", acc <= Len(E.data) /\ (raw \/ E.res # "ok" => TRUE)
                 /\ (E.op = "write" /\ ~raw /\ E.res = "ok" => acc = Len(E.data))
                 /\ (E.op = "write" /\ raw /\ E.res = "ok" /\ E.data # <<>> => acc > 0))
       /\ Clause("write into a pipe that nobody reads", last /\ raw /\ E.op = "write" /\ E.data # <<>> => E.res # "ok")
       /\ Clause("unexpected failure",
                 CASE E.res = "ok" -> TRUE
                   [] E.res = "none" -> raw /\ E.op = "write" /\ ((E.nb = 1) \/ Short) /\ (Short \/ pipe # <<>>) /\ x = 0
                   [] E.res = "block" -> ~raw /\ ((E.nb = 1) \/ Short) /\ (Short \/ E.q > 0)
                   [] E.res = "pipe" -> last
                   [] OTHER -> FALSE)
       /\ IF last THEN pipe' = (IF E.q <= 0 THEN <<>> ELSE pipe) /\ UNCHANGED st
          ELSE
          /\ Clause("unbuffered stream kept data", raw => m.b = <<>>)
          /\ Clause("data still not in the pipe", E.op \in {"flush", "wclose"} /\ E.res = "ok" => m.b = <<>>)
          /\ pipe' = m.pipe
          /\ st' = IF E.op = "wclose" THEN [y \in DOMAIN st \ {E.s} |-> st[y]] ELSE Put(st, E.s, [me EXCEPT !.b = m.b])
       /\ Clause("stream or descriptor not closed", E.op = "wclose" => E.shut = 1)
    /\ Adv
\* closing with no reader left: the stream is gone as well
Gone ==
    /\ Is("gone")
    /\ st' = [y \in DOMAIN st \ {E.s} |-> st[y]] /\ UNCHANGED pipe /\ Adv

Rclose ==
    /\ Is("op") /\ E.op = "rclose"
    /\ Clause("closing failed", E.res = "ok")
    /\ Clause("stream or descriptor not closed", E.shut = 1)
    /\ Clause("closing changed the content of the pipe", E.q < 0 \/ E.q = Len(pipe) \/ Readers = {E.s})
    /\ pipe' = (IF Readers = {E.s} /\ E.rext = 0 THEN <<>> ELSE pipe)
    /\ st' = [y \in DOMAIN st \ {E.s} |-> st[y]]
    /\ Adv

\* positioning, truncation and locking make no sense there
Last == Readers = {} /\ E.rext = 0
Refused ==
    /\ Is("op") /\ E.op \in {"seek", "tell", "truncate", "lock", "unlock"}
    /\ LET me == st[E.s]
           x == E.q - Len(pipe)
       IN
       /\ Clause("operation not refused", E.res \in {"io", "pipe", "block"})
       /\ Clause("data disappeared from the pipe", x >= 0 \/ Last)
       /\ IF Last THEN UNCHANGED <<pipe, st>>
          ELSE IF me.rd THEN Clause("refused operation changed the pipe", x = 0) /\ UNCHANGED <<pipe, st>>
          ELSE /\ Clause("more data in the pipe than was written", x <= Len(me.b))
               /\ pipe' = Moved(me.b, x).pipe
               /\ st' = Put(st, E.s, [me EXCEPT !.b = Moved(me.b, x).b])
    /\ Adv
Query ==
    /\ Is("op") /\ E.op = "seekable"
    /\ Clause("pipe said seekable", E.val = 0)
    /\ Clause("query changed the pipe", E.q = Len(pipe) \/ Last)
    /\ Adv /\ UNCHANGED <<pipe, st>>

\* blocking streams used by real threads: bytes of each writing thread are those of no other one
RECURSIVE Flat(_, _)
Flat(c, i) == IF i > Len(c) THEN <<>> ELSE c[i] \o Flat(c, i + 1)
\* number of changes of writing thread in the data received
Runs(d, lo, hi) == Cardinality({i \in 1 .. Len(d) : d[i] >= lo /\ d[i] < hi /\ (i = 1 \/ d[i - 1] < lo \/ d[i - 1] >= hi)})
Conc ==
    /\ Is("conc")
    /\ Clause("threads are stuck", E.stuck = 0)
    /\ Clause("operation failed", E.errs = <<>>)
    /\ \A w \in 1 .. Len(E.ws) :
          LET lo == E.ws[w].lo hi == E.ws[w].lo + 20
              got == SelectSeq(E.d, LAMBDA x : x >= lo /\ x < hi) IN
          /\ Clause("data lost, duplicated or reordered", got = Flat(E.ws[w].c, 1))
          /\ Clause("write on a thread-safe stream isn't atomic", E.atomic = 1 => Runs(E.d, lo, hi) <= Len(E.ws[w].c))
    /\ Clause("data from nowhere",
              \A i \in 1 .. Len(E.d) : \E w \in 1 .. Len(E.ws) : E.d[i] >= E.ws[w].lo /\ E.d[i] < E.ws[w].lo + 20)
    /\ Adv /\ UNCHANGED <<pipe, st>>

\* devices: usable, never erased, locked or positioned on opening
Dev ==
    /\ Is("dev")
    /\ Clause("device refused", E.res = "ok")
    /\ Clause("device said seekable", E.seekable = 0)
    /\ Clause("locking of a device not refused", E.lock = "io" /\ E.trunc = "io")
    /\ Clause("wrong data from device", E.good = 1)
    /\ Adv /\ UNCHANGED <<pipe, st>>

Next == Open \/ Foreign \/ Read \/ Write \/ Gone \/ Rclose \/ Refused \/ Query \/ Conc \/ Dev
Spec == Init /\ [][Next]_vars
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
