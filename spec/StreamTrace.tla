---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Trace specification of streams over files: contents, positions,         *)
(* buffers, append mode, erasing, locks as far as data is concerned,       *)
(* errors.  Calls are sequential, several streams (and foreign processes)  *)
(* work on the same files.                                                 *)
(*                                                                         *)
(* Events                                                                  *)
(*  init  disk               contents of the files                         *)
(*  call  op s ...           an operation starts                           *)
(*  obs   disk prot          files and lock protection seen by another     *)
(*                           process while the operation goes on           *)
(*  ret   res val disk       it returns                                    *)
(*  env   f disk             another process changed file f                *)
(*  envlk f on               another process locked / unlocked file f      *)
(*  free  f busy             does a process see locks of ours on f         *)
(*  fds   f n                number of descriptors of ours on f            *)
(***************************************************************************)
EXTENDS RsFile, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tid, l,
          disk,    \* contents of files
          st,      \* streams
          cur,     \* operation in progress
          elk      \* files locked by another process

vars == <<tid, l, disk, st, cur, elk>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev

Clause(n, c) ==
    IF c THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid
None == [op |-> "none"]

Init ==
    /\ tid \in 1 .. Len(Traces)
    /\ l = 1
    /\ disk = <<>> /\ st = <<>> /\ cur = None /\ elk = {}
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Start == Is("init") /\ disk' = E.disk /\ Adv /\ UNCHANGED <<st, cur, elk>>

-----------------------------------------------------------------------------
UNKNOWN == -2      \* position which nobody relies on
ATEND == -1        \* append mode with unflushed data

Unwritable(x, a) == x.kind = "text" /\ TextRefused(a, x.enc)
Bytes(x, a) == IF Unwritable(x, a) THEN <<>> ELSE IF x.kind = "text" THEN EncodeAll(a, x.nl, x.enc) ELSE a
\* text streams decode what they have read in advance too
Unreadable(x, c, p) == x.kind = "text" /\ x.enc = 4 /\ (p = UNKNOWN \/ \E i \in p + 1 .. Len(c) : c[i] > 127)
Plain(x) == x.kind # "text" \/ (x.enc = 0 /\ x.nl = 2)

\* stream s sends its first k pending bytes to the file, which becomes d
After(s, k, d) ==
    LET x == st[s]
        res == Resolved(x.pend, k, Len(disk[x.f])) IN
    [y \in DOMAIN st |->
        IF y = s THEN [x EXCEPT !.pend = SubSeq(x.pend, k + 1, Len(x.pend)),
                                !.old = {Apply(c, res, k) : c \in x.old},
                                !.pos = IF x.pos = ATEND /\ k = Len(x.pend) /\ k > 0 THEN Len(d) ELSE x.pos]
        ELSE IF st[y].f = x.f /\ st[y].kind # "raw" /\ d # disk[x.f]
             THEN [st[y] EXCEPT !.old = @ \cup {disk[x.f]}] ELSE st[y]]

\* everything stream s knows to be in its file
View(s) == Apply(disk[st[s].f], st[s].pend, Len(st[s].pend))

Overlap(a, b) == a.lo < b.hi /\ b.lo < a.hi
LockedByOthers(s, f, q) == f \in elk \/ \E y \in DOMAIN st : y # s /\ st[y].f = f
                              /\ \E r \in st[y].lk : Overlap(q, r) /\ ~(q.sh /\ r.sh)

-----------------------------------------------------------------------------
Call ==
    /\ Is("call")
    /\ cur' = E
    \* the data of a write is pending as soon as the call starts
    /\ IF E.op \in {"write", "writelines"} /\ st[E.s].open /\ st[E.s].wr
       THEN LET x == st[E.s]
                b == Bytes(x, E.data)
                p == IF x.app THEN ATEND ELSE x.pos
            IN Clause("write at a position the specification does not know", p # UNKNOWN) /\ st' = [st EXCEPT ![E.s].pend = x.pend \o Entries(p, b),
                                ![E.s].pos = IF b = <<>> THEN x.pos
                                             ELSE IF x.app THEN ATEND ELSE x.pos + Len(b)]
       ELSE UNCHANGED st
    /\ Adv /\ UNCHANGED <<disk, elk>>

Others(f) == \A g \in DOMAIN disk : g # f => Clause("an unrelated file changed", E.disk[g] = disk[g])

\* seen in the middle of an operation
Obs ==
    /\ Is("obs") /\ cur # None
    /\ IF cur.op = "open"
       THEN LET d == E.disk[cur.f] IN
            /\ Others(cur.f)
            /\ d # disk[cur.f] =>
                 /\ Clause("opening changed the content of the file", cur.er = 1 /\ d = <<>>)
                 /\ Clause("file erased before being locked", cur.lock = 1 => E.prot = 2)
            /\ disk' = E.disk
            /\ st' = [y \in DOMAIN st |-> IF st[y].f = cur.f /\ st[y].kind # "raw" /\ d # disk[cur.f]
                                          THEN [st[y] EXCEPT !.old = @ \cup {disk[cur.f]}] ELSE st[y]]
            /\ UNCHANGED cur
       ELSE LET s == cur.s x == st[s] d == E.disk[x.f] IN
            /\ Others(x.f)
            /\ \/ /\ Clause("the content of the file is not explained by what was written",
                            Flushed(disk[x.f], d, x.pend, 0) # {} \/ cur.op = "truncate")
                  /\ \E k \in Flushed(disk[x.f], d, x.pend, 0) :
                       /\ Clause("lock released before the data written under it reached the file",
                                 (cur.op \in {"unlock", "close"} /\ x.lk # {} /\ E.prot = 0 /\ cur.fault = 0) => k = Len(x.pend))
                       /\ st' = After(s, k, d)
                  /\ UNCHANGED cur
               \/ /\ cur.op = "truncate"
                  /\ LET v == View(s)
                         n == IF cur.none = 0 THEN cur.n ELSE IF x.pos = ATEND THEN Len(v) ELSE x.pos
                         st1 == After(s, Len(x.pend), d) IN
                     /\ n >= 0 /\ d = Resize(v, n)
                     /\ st' = [st1 EXCEPT ![s].old = {Resize(c, n) : c \in st1[s].old}]
                  /\ UNCHANGED cur
            /\ disk' = E.disk
    /\ Adv /\ UNCHANGED elk

Env ==
    /\ Is("env")
    /\ disk' = E.disk
    /\ st' = [y \in DOMAIN st |-> IF st[y].f = E.f /\ st[y].kind # "raw"
                                  THEN [st[y] EXCEPT !.old = @ \cup {disk[E.f]}] ELSE st[y]]
    /\ Adv /\ UNCHANGED <<cur, elk>>

EnvLk ==
    /\ Is("envlk")
    /\ elk' = IF E.on = 1 THEN elk \cup {E.f} ELSE elk \ {E.f}
    /\ Adv /\ UNCHANGED <<disk, st, cur>>

Free ==
    /\ Is("free")
    /\ LET any == \E y \in DOMAIN st : st[y].f = E.f /\ st[y].lk # {} IN
       /\ Clause("locks left behind", E.busy = 1 => any)
       /\ Clause("a held lock is not protected by the operating system", any => E.busy = 1)
    /\ Adv /\ UNCHANGED <<disk, st, cur, elk>>

Fds ==
    /\ Is("fds")
    /\ LET n == Cardinality({y \in DOMAIN st : st[y].f = E.f /\ (st[y].open \/ st[y].noclose)})
           any == \E y \in DOMAIN st : st[y].f = E.f /\ st[y].lk # {}
       IN /\ Clause("descriptor closed too early", E.n >= n)
          /\ Clause("descriptor leaked", ~any => E.n <= n)
    /\ Adv /\ UNCHANGED <<disk, st, cur, elk>>

-----------------------------------------------------------------------------
Ret(op) == Is("ret") /\ cur.op = op
Done == cur' = None /\ disk' = E.disk /\ Adv

RetOpen ==
    /\ Ret("open")
    /\ LET f == cur.f d == E.disk[f]
           q == [lo |-> 0, hi |-> 1000000, sh |-> cur.wr = 0]
           blocked == cur.lock = 1 /\ LockedByOthers(cur.s, f, q)
       IN /\ Others(f)
          /\ \/ /\ E.res = "ok"
                /\ Clause("stream opened although the file is locked", ~blocked)
                /\ Clause("file not erased by its opening", cur.er = 1 => d = <<>>)
                /\ Clause("opening changed the content of the file", cur.er = 0 => d = disk[f])
                /\ st' = Put([y \in DOMAIN st |-> IF st[y].f = f /\ st[y].kind # "raw" /\ d # disk[f]
                                                  THEN [st[y] EXCEPT !.old = @ \cup {disk[f]}] ELSE st[y]],
                             cur.s, [f |-> f, open |-> TRUE, kind |-> cur.kind, rd |-> cur.rd = 1, wr |-> cur.wr = 1,
                                     app |-> cur.app = 1, nl |-> cur.nl, enc |-> cur.enc, lb |-> cur.lb = 1,
                                     pos |-> IF cur.app = 1 THEN Len(d) ELSE cur.pos,
                                     pend |-> <<>>, old |-> {}, lk |-> IF cur.lock = 1 THEN {q} ELSE {}, ck |-> <<>>,
                                     noclose |-> cur.noclose = 1])
             \/ /\ E.res # "ok"
                /\ Clause("opening failed without reason", E.res = "io" /\ (blocked \/ cur.fault = 1))
                /\ Clause("failed opening changed the content of the file", d = disk[f])
                /\ st' = IF cur.noclose = 1
                         THEN Put(st, cur.s, [f |-> f, open |-> FALSE, kind |-> cur.kind, rd |-> FALSE, wr |-> FALSE,
                                     app |-> FALSE, nl |-> 0, enc |-> 0, lb |-> FALSE, pos |-> 0,
                                     pend |-> <<>>, old |-> {}, lk |-> {}, ck |-> <<>>, noclose |-> TRUE])
                         ELSE st
    /\ Done /\ UNCHANGED elk

S == cur.s
X == st[S]
D == E.disk[X.f]
\* an operation on an open stream which has the right to do it
Normal(need) ==
    /\ Is("ret") /\ cur # None /\ cur.op # "open"
    /\ X.open
    /\ need = "rd" => X.rd
    /\ need = "wr" => X.wr
    /\ Others(X.f)

\* ... which changes the file at most by flushing
K(kk) == Flushed(disk[X.f], D, X.pend, 0)
SomeFlush == Clause("the content of the file is not explained by what was written", K(0) # {})
Fin == Done /\ UNCHANGED elk

Failed ==  \* closed stream, missing right: nothing happens
    /\ Is("ret") /\ cur # None /\ cur.op # "open"
    /\ cur.op # "close"
    /\ LET need == CASE cur.op \in {"read", "readinto", "readline", "lines", "read1", "peek"} -> "rd"
                     [] cur.op \in {"write", "writelines", "truncate"} -> "wr"
                     [] OTHER -> "no"
       IN /\ (~X.open \/ (need = "rd" /\ ~X.rd) \/ (need = "wr" /\ ~X.wr))
          /\ Clause("operation on a closed stream did not raise ValueError", ~X.open => (E.res = "val" \/ (E.res = "io" /\ ((need = "rd" /\ ~X.rd) \/ (need = "wr" /\ ~X.wr)))
                                            \/ (cur.op = "readline" /\ cur.n = 0 /\ E.res = "ok" /\ E.val = <<>>)))
          /\ Clause("operation done without the corresponding access right", X.open => E.res \in {"io", "val"}
                                            \/ (need = "rd" /\ cur.n = 0 /\ E.res = "ok" /\ E.val = <<>>))
          /\ Others(X.f)
          /\ IF X.open THEN SomeFlush /\ \E k \in K(0) : st' = After(S, k, D)
             ELSE Clause("operation on a closed stream changed the file", D = disk[X.f]) /\ UNCHANGED st
    /\ Fin

\* a text stream whose position is not in the file anymore
Lost == ~Plain(X) /\ X.pos = UNKNOWN

AllFlushed(what) == Clause(what, Len(X.pend) \in K(0))

HasNl(a) == \E i \in DOMAIN a : a[i] \in {10, 13}

RetWrite ==
    /\ Ret("write") \/ Ret("writelines")
    /\ Normal("wr")
    /\ Clause("write failed", E.res = "ok" \/ cur.fault = 1 \/ Unwritable(X, cur.data))
    /\ Clause("text accepted although it can't be encoded", Unwritable(X, cur.data) => E.res = "val")
    /\ IF Unwritable(X, cur.data) THEN SomeFlush /\ \E k \in K(0) : st' = After(S, k, D)
       ELSE IF E.res = "ok"
       THEN /\ IF X.kind = "raw" /\ cur.op = "write" /\ E.val # Len(cur.data)
               THEN \* a short write
                    /\ Clause("wrong number of bytes written", cur.fault # 0 /\ E.val >= 0 /\ E.val < Len(cur.data))
                    /\ Clause("the content of the file is not explained by what was written", E.val \in K(0))
                    /\ LET a == After(S, E.val, D) IN
                       st' = [a EXCEPT ![S].pend = <<>>,
                                       ![S].pos = IF X.app THEN (IF E.val > 0 THEN Len(D) ELSE UNKNOWN)
                                                  ELSE X.pos - (Len(cur.data) - E.val)]
               ELSE /\ Clause("wrong number of bytes written", cur.op = "write" => E.val = Len(cur.data))
                    /\ SomeFlush
                    /\ X.kind = "raw" => AllFlushed("raw write did not reach the file")
                    /\ LET tail == IF X.lb /\ HasNl(cur.data) THEN Len(X.pend) - Len(Bytes(X, cur.tail)) ELSE 0 IN
                       /\ Clause("line buffered data did not reach the file", \E k \in K(0) : k >= tail)
                       /\ \E k \in K(0) :
                         /\ k >= tail
                         /\ X.kind = "raw" => k = Len(X.pend)
                         /\ st' = After(S, k, D)
       ELSE \* failed: what was accepted is unknown
            /\ SomeFlush
            /\ \E k \in K(0) : \E drop \in (IF cur.op = "write" THEN {0, Len(Bytes(X, cur.data)), Len(X.pend) - k}
                                           ELSE 0 .. Len(Bytes(X, cur.data))) :
                 /\ drop <= Min2(Len(X.pend) - k, Len(Bytes(X, cur.data)))
                 /\ X.kind = "raw" => drop = Len(X.pend) - k
                 /\ LET a == After(S, k, D) IN
                    st' = [a EXCEPT ![S].pend = SubSeq(@, 1, Len(@) - drop), ![S].pos = UNKNOWN]
    /\ Fin

\* position from which a read happens, once the own appended data is flushed
PosNow(k) == IF X.pos = ATEND THEN (IF k = Len(X.pend) /\ k > 0 THEN Len(D) ELSE UNKNOWN) ELSE X.pos

Current(k) == Apply(D, SubSeq(X.pend, k + 1, Len(X.pend)), Len(X.pend) - k)
Old(k) == {Apply(c, Resolved(X.pend, Len(X.pend), Len(disk[X.f])), Len(X.pend)) : c \in X.old}

\* r is what can be read from p (n: maximal size, or -1)
BytesOk(r, p, c, old) ==
    \A i \in DOMAIN r :
       \/ p + i <= Len(c) /\ c[p + i] = r[i]
       \/ \E o \in old : p + i <= Len(o) /\ o[p + i] = r[i]
StopsAt(p, c) == p >= Len(c)

RetRead ==
    /\ \/ Ret("read") \/ Ret("readinto") \/ Ret("read1") \/ Ret("peek") \/ Ret("readline") \/ Ret("lines")
    /\ Normal("rd")
    /\ SomeFlush
    /\ \E k \in K(0) :
         LET p == PosNow(k) c == Current(k) old == Old(k) r == E.val
             a == After(S, k, D)
             to(q) == st' = [a EXCEPT ![S].pos = q]
         IN IF ~Clause("read failed", E.res = "ok" \/ cur.fault = 1
                                      \/ (E.res = "val" /\ (Unreadable(X, c, p) \/ \E o \in old : Unreadable(X, o, p))))
            THEN FALSE
            ELSE IF E.res # "ok" THEN to(UNKNOWN)
            ELSE IF p = UNKNOWN \/ (~Plain(X) /\ old # {}) THEN to(IF cur.op = "peek" THEN p ELSE UNKNOWN)
            ELSE CASE cur.op \in {"read", "readinto"} /\ Plain(X) ->
                      /\ Clause("read returned wrong data", BytesOk(r, p, c, old))
                      /\ Clause("read returned more than asked", cur.n >= 0 => Len(r) <= cur.n)
                      /\ Clause("read stopped before the end of the file",
                                cur.n = Len(r) \/ StopsAt(p + Len(r), c)
                                \/ (cur.fault = 2 /\ X.kind = "raw" /\ cur.n > 0 /\ Len(r) > 0))
                      /\ to(p + Len(r))
                   [] cur.op = "read1" ->
                      /\ Clause("read returned wrong data", BytesOk(r, p, c, old))
                      /\ Clause("read returned more than asked", cur.n >= 0 => Len(r) <= cur.n)
                      /\ Clause("read stopped before the end of the file", cur.n = 0 \/ Len(r) > 0 \/ StopsAt(p, c))
                      /\ to(p + Len(r))
                   [] cur.op = "peek" ->
                      /\ Clause("read returned wrong data", BytesOk(r, p, c, old))
                      /\ Clause("read stopped before the end of the file", Len(r) > 0 \/ StopsAt(p, c))
                      /\ to(p)
                   [] cur.op = "readline" /\ Plain(X) ->
                      /\ Clause("read returned wrong data", BytesOk(r, p, c, old))
                      /\ Clause("read returned more than asked", cur.n >= 0 => Len(r) <= cur.n)
                      /\ Clause("wrong line", \A i \in 1 .. Len(r) - 1 : r[i] # 10)
                      /\ Clause("read stopped before the end of the line",
                                cur.n = Len(r) \/ (r # <<>> /\ r[Len(r)] = 10) \/ StopsAt(p + Len(r), c)
                                \/ (cur.fault = 2 /\ X.kind = "raw"))
                      /\ to(p + Len(r))
                   [] cur.op = "lines" /\ (X.kind # "text" \/ (Plain(X) /\ old # {})) ->
                      LET all == ReadLines(c, p, 2, 0) IN
                      /\ Clause("wrong lines", old = {} => r = all)
                      /\ to(IF old = {} THEN Max2(p, Len(c)) ELSE UNKNOWN)
                   [] cur.op = "lines" /\ X.kind = "text" ->
                      /\ Clause("wrong lines", r = ReadLines(c, p, X.nl, X.enc))
                      /\ to(Max2(p, Len(c)))
                   [] cur.op = "read" ->
                      LET t == ReadText(c, p, cur.n, X.nl, X.enc) IN
                      /\ Clause("read returned wrong text", r = t[1]) /\ to(t[2])
                   [] cur.op = "readline" ->
                      LET t == ReadLine(c, p, cur.n, X.nl, X.enc) IN
                      /\ Clause("wrong line", r = t[1]) /\ to(t[2])
    /\ Fin

\* cookies of text streams
Known(c) == c \in DOMAIN X.ck
Learn(a, c, p) == IF p = UNKNOWN THEN a ELSE [a EXCEPT ![S].ck = Put(@, c, p)]

RetSeek ==
    /\ Ret("seek") /\ Normal("no")
    /\ SomeFlush
    /\ \E k \in K(0) :
         LET c == Current(k) p == PosNow(k) a == After(S, k, D)
             target == CASE cur.wh = 0 /\ Plain(X) -> cur.off
                         [] cur.wh = 0 -> IF cur.off = 0 THEN 0 ELSE IF Known(cur.off) THEN X.ck[cur.off] ELSE UNKNOWN
                         [] cur.wh = 1 -> IF p = UNKNOWN THEN UNKNOWN ELSE p + cur.off
                         [] cur.wh = 2 -> Len(c) + cur.off
             bad == (X.kind = "text" /\ cur.wh # 0 /\ cur.off # 0) \/ cur.wh > 2 \/ (target < 0 /\ target # UNKNOWN)
                    \/ (target = UNKNOWN /\ cur.off < 0)
         IN IF E.res = "ok"
            THEN /\ Clause("impossible seek accepted", ~bad \/ (target = UNKNOWN))
                 /\ Clause("seek returned a wrong position",
                           (Plain(X) /\ target # UNKNOWN) => E.val = target)
                 /\ LET q == IF target = UNKNOWN /\ Plain(X) THEN E.val ELSE target IN
                    st' = [Learn(a, E.val, q) EXCEPT ![S].pos = q]
            ELSE \* (a text stream can't come back to a place which no longer exists)
                 /\ Clause("seek failed", bad \/ target = UNKNOWN \/ cur.fault = 1 \/ (~Plain(X) /\ target > Len(c)))
                 /\ st' = [a EXCEPT ![S].pos = IF cur.fault = 1 THEN UNKNOWN ELSE p]
    /\ Fin

RetTell ==
    /\ Ret("tell") /\ Normal("no")
    /\ Clause("tell failed", E.res = "ok" \/ cur.fault = 1 \/ Lost)
    /\ SomeFlush
    /\ \E k \in K(0) :
         LET p == PosNow(k) a == After(S, k, D) IN
         IF E.res # "ok" THEN st' = a
         ELSE IF p = UNKNOWN THEN st' = [a EXCEPT ![S].pos = IF X.pos = ATEND THEN ATEND ELSE UNKNOWN]
         ELSE /\ Clause("wrong position", Plain(X) => E.val = p)
              /\ Clause("one text cookie for two positions", (~Plain(X) /\ Known(E.val)) => X.ck[E.val] = p)
              /\ st' = Learn([a EXCEPT ![S].pos = p], E.val, p)
    /\ Fin

RetSize ==
    /\ Ret("size") /\ Normal("no")
    /\ Clause("size failed", E.res = "ok" \/ cur.fault = 1)
    /\ SomeFlush
    /\ \E k \in K(0) :
         /\ Clause("wrong size", E.res = "ok" => E.val = Len(Current(k)))
         /\ st' = After(S, k, D)
    /\ Fin

RetFlush ==
    /\ Ret("flush") /\ Normal("no")
    /\ Clause("flush failed", E.res = "ok" \/ cur.fault = 1)
    /\ SomeFlush
    /\ E.res = "ok" => AllFlushed("flushed data did not reach the file")
    /\ \E k \in K(0) :
         /\ E.res = "ok" => k = Len(X.pend)
         /\ st' = LET a == After(S, k, D) IN IF E.res = "ok" THEN a ELSE [a EXCEPT ![S].pos = UNKNOWN]
    /\ Fin

RetTruncate ==
    /\ Ret("truncate") /\ Normal("wr")
    /\ LET v == View(S)
           p == IF X.pos = ATEND THEN (IF X.pend # <<>> THEN Len(v) ELSE UNKNOWN) ELSE X.pos
           n == IF cur.none = 1 THEN p ELSE cur.n IN
       IF E.res = "ok"
       THEN /\ Clause("impossible truncation accepted", n >= 0 \/ n = UNKNOWN)
            /\ IF n = UNKNOWN THEN st' = [After(S, Len(X.pend), D) EXCEPT ![S].pend = <<>>, ![S].pos = UNKNOWN]
               ELSE /\ Clause("wrong content after truncation", D = Resize(v, n))
                    /\ Clause("truncate returned a wrong size", E.val = n)
                    /\ LET a == After(S, Len(X.pend), v) IN
                       st' = [y \in DOMAIN a |->
                                IF y = S THEN [a[y] EXCEPT !.old = {Resize(c, n) : c \in @},
                                                           !.pos = IF X.pos = ATEND \/ ~Plain(X) THEN UNKNOWN ELSE X.pos]
                                ELSE IF a[y].f = X.f /\ a[y].kind # "raw" /\ D # disk[X.f]
                                     THEN [a[y] EXCEPT !.old = @ \cup {disk[X.f], v}] ELSE a[y]]
       ELSE /\ Clause("truncate failed", n < 0 \/ cur.fault = 1)
            /\ SomeFlush
            /\ \E k \in K(0) : st' = [After(S, k, D) EXCEPT ![S].pos = IF cur.fault = 1 THEN UNKNOWN ELSE @]
    /\ Fin

\* the range designated by a locking call, its data being flushed up to the k-th pending write
LockRange(k) ==
    LET p == IF cur.wh = 1 THEN PosNow(k) ELSE Len(Current(k))
        lo == IF cur.wh = 0 \/ p = UNKNOWN THEN cur.lo ELSE p + cur.off
    IN [lo |-> lo, hi |-> IF cur.hi = 1000000 THEN cur.hi ELSE lo + cur.hi - cur.lo]

RetLock ==
    /\ Ret("lock") /\ Normal("no")
    /\ SomeFlush
    /\ \E k \in K(0) :
          LET a == After(S, k, D)
              g == LockRange(k)
              q == [lo |-> g.lo, hi |-> g.hi, sh |-> cur.sh = 1 \/ (cur.sh = 2 /\ ~X.wr)]
              noright == (q.sh /\ ~X.rd) \/ (~q.sh /\ ~X.wr)
              own == \E r \in X.lk : Overlap(q, r)
              others == LockedByOthers(S, X.f, q)
          IN
          IF E.res = "ok"
          THEN /\ Clause("lock granted to a call which should fail", ~noright /\ ~own /\ ~others)
               \* nothing read before may be served from now on
               /\ st' = [a EXCEPT ![S].lk = @ \cup {q}, ![S].old = {}]
          ELSE /\ Clause("lock refused without reason", noright \/ own \/ others \/ cur.fault = 1 \/ Lost)
               /\ st' = IF cur.fault = 1 THEN [a EXCEPT ![S].pos = UNKNOWN] ELSE a
    /\ Fin

RetUnlock ==
    /\ Ret("unlock") /\ Normal("no")
    /\ LET g == LockRange(Len(X.pend)) q == {r \in X.lk : r.lo = g.lo /\ r.hi = g.hi} IN
       IF E.res = "ok"
       THEN /\ SomeFlush
            /\ q # {} => AllFlushed("data written under a lock did not reach the file before its release")
            /\ \E k \in K(0) : /\ q # {} => k = Len(X.pend)
                               /\ st' = [After(S, k, D) EXCEPT ![S].lk = @ \ q]
       ELSE /\ Clause("unlock failed", q = {} \/ cur.fault = 1 \/ Lost)
            /\ SomeFlush
            /\ \E k \in K(0), rel \in BOOLEAN :
                 LET a == After(S, k, D) IN
                 \* leaving a "with" block releases the lock even when the data could not be written
                 /\ rel => cur.fault = 1
                 /\ (cur.cm = 1 /\ q # {}) => rel
                 /\ st' = [a EXCEPT ![S].lk = IF rel THEN @ \ q ELSE @, ![S].pos = IF cur.fault = 1 THEN UNKNOWN ELSE @]
    /\ Fin

RetClose ==
    /\ Ret("close")
    /\ Others(X.f)
    /\ Clause("close failed", E.res = "ok" \/ (cur.fault = 1 /\ E.res = "io" /\ X.open))
    /\ IF ~X.open THEN Clause("operation on a closed stream changed the file", D = disk[X.f]) /\ UNCHANGED st
       ELSE /\ SomeFlush
            /\ E.res = "ok" => AllFlushed("close() lost data")
            /\ \E k \in K(0) :
                 /\ E.res = "ok" => k = Len(X.pend)
                 /\ st' = [After(S, k, D) EXCEPT ![S].open = FALSE, ![S].lk = {}, ![S].pend = <<>>]
    /\ Fin

\* the lower layer takes over (read-ahead data is lost with the upper one)
RetDetach ==
    /\ Ret("detach") /\ Normal("no")
    /\ Clause("detach failed", E.res = "ok")
    /\ SomeFlush /\ AllFlushed("detached stream kept data")
    /\ st' = [After(S, Len(X.pend), D) EXCEPT ![S].kind = IF @ = "text" THEN "buf" ELSE "raw", ![S].lb = FALSE, ![S].ck = <<>>,
                                              ![S].old = IF X.kind = "text" THEN @ ELSE {},
                                              ![S].pos = UNKNOWN]
    /\ Fin

\* attributes of an open stream
RetAttrs ==
    /\ Ret("attrs") /\ Normal("no")
    /\ Clause("attributes failed", E.res = "ok")
    /\ Clause("wrong readable() / writable() / seekable() / closed",
              SubSeq(E.val, 1, 4) = <<IF X.rd THEN 1 ELSE 0, IF X.wr THEN 1 ELSE 0, 1, 0>>)
    /\ Clause("unique_id() does not identify the file", E.val[5] = X.f)
    /\ Clause("wrong times()", E.val[6] = 1)
    /\ SomeFlush /\ \E k \in K(0) : st' = After(S, k, D)
    /\ Fin

Next ==
    \/ Start \/ Call \/ Obs \/ Env \/ EnvLk \/ Free \/ Fds
    \/ RetOpen \/ Failed \/ RetWrite \/ RetRead \/ RetSeek \/ RetTell \/ RetSize \/ RetFlush \/ RetTruncate
    \/ RetLock \/ RetUnlock \/ RetClose \/ RetAttrs \/ RetDetach

Spec == Init /\ [][Next]_vars

Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
