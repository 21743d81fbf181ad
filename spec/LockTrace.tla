----------------------------- MODULE LockTrace -----------------------------
(***************************************************************************)
(* Trace specification for locks and descriptors.  A batch of recorded     *)
(* executions of the real code is read from the file named by TRACEFILE    *)
(* (one JSON array of events per line); each is accepted iff it is a       *)
(* behaviour of the abstract lock system of RsLocks.                       *)
(*                                                                         *)
(* Events                                                                  *)
(*  open   s h p f own rd wr      a stream exists (no lock requested)      *)
(*  call   t op ...               an operation starts in thread t          *)
(*  ret    t res tm               ... and returns                          *)
(*  view   q f m                  lock table of file f as seen by q        *)
(*  fds    p f cnt alive          descriptors of process p on file f       *)
(*  quiet  blocked                nothing can run any more but these       *)
(*                                threads are still inside lock_file       *)
(*  fork   p p2 map               process p2 is a copy of p                *)
(*  exit   p                      process p is gone                        *)
(*  raw    h p f / rawclose h     descriptor opened/closed by the user     *)
(***************************************************************************)
EXTENDS RsLocks, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tid, l,
          held,     \* set of locks
          st,       \* streams: id -> [h, p, f, own, rd, wr, open, fd]
          hs,       \* open handles: set of [h, p, f]
          zomb,     \* [p, f] -> upper bound of kept-open descriptors
          infl      \* thread -> operation in flight

vars == <<tid, l, held, st, hs, zomb, infl>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev

\* named clauses: remember the furthest failing one of each trace
Clause(n, c) ==
    IF c THEN TRUE
    ELSE /\ LET cur == TLCGet(2 * tid + 1) IN
              IF cur[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE

Adv == l' = l + 1 /\ UNCHANGED tid

Init ==
    /\ tid \in 1 .. Len(Traces)
    /\ l = 1
    /\ held = {} /\ st = <<>> /\ hs = {} /\ zomb = <<>> /\ infl = <<>>
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Legacy(p, f) == IF <<p, f, 1>> \in DOMAIN zomb THEN zomb[<<p, f, 1>>] ELSE 0
Zomb(p, f) == IF <<p, f>> \in DOMAIN zomb THEN zomb[<<p, f>>] ELSE 0

LocksOf(p, f, locks) == {r \in locks : r.p = p /\ r.f = f}
\* lock attempts currently in flight in process p on file f
Attempts(p, f) == {t \in DOMAIN infl : infl[t].op = "lock" /\ infl[t].q.p = p /\ infl[t].q.f = f
                                        /\ infl[t].status = "pend"}

(* When the last lock of a process on a file goes, every kept-open          *)
(* descriptor goes.  DEVIATION (kept): an attempt in flight at that moment  *)
(* delays this until the next release or close.                            *)
ZombAfter(p, f, locks, extra) ==
    IF LocksOf(p, f, locks) = {} /\ Attempts(p, f) = {}
    THEN Put(zomb, <<p, f>>, 0)
    ELSE Put(zomb, <<p, f>>, Zomb(p, f) + extra)

-----------------------------------------------------------------------------
Open ==
    /\ Is("open")
    /\ Clause("fresh stream id", E.s \notin DOMAIN st)
    /\ st' = Put(st, E.s, [h |-> E.h, p |-> E.p, f |-> E.f, own |-> E.own, rd |-> E.rd, wr |-> E.wr,
                           open |-> TRUE])
    /\ hs' = hs \cup {[h |-> E.h, p |-> E.p, f |-> E.f]}
    /\ Adv /\ UNCHANGED <<held, zomb, infl>>

Raw ==
    /\ Is("raw")
    /\ hs' = hs \cup {[h |-> E.h, p |-> E.p, f |-> E.f]}
    /\ Adv /\ UNCHANGED <<held, st, zomb, infl>>

RawClose ==
    /\ Is("rawclose")
    /\ hs' = {x \in hs : x.h # E.h}
    /\ Adv /\ UNCHANGED <<held, st, zomb, infl>>

\* operation records ------------------------------------------------------
NoQ == [h |-> 0, p |-> 0, f |-> 0, sh |-> FALSE, lo |-> 0, hi |-> 0]

LockReq(e) ==
    LET x == st[e.s]
        lo == Resolve(e.off, e.wh, e.pos, e.size)
        sh == IF e.sh = 2 THEN ~x.wr ELSE e.sh = 1
    IN [h |-> x.h, p |-> x.p, f |-> x.f, sh |-> sh, lo |-> lo, hi |-> RangeEnd(lo, e.len)]

\* errors that do not depend on other locks; several may apply to one call
StaticErrs(e) ==
    LET x == st[e.s] q == LockReq(e) IN
      (IF ~x.open THEN {"val"} ELSE {})
      \cup (IF e.bad = 1 THEN {"val"} ELSE {})
      \cup (IF q.lo < 0 THEN {"val"} ELSE {})
      \cup (IF (q.sh /\ ~x.rd) \/ (~q.sh /\ ~x.wr) THEN {"io"} ELSE {})

CallLock ==
    /\ Is("call") /\ E.op = "lock"
    /\ infl' = Put(infl, E.t, [op |-> "lock", s |-> E.s, q |-> LockReq(E), errs |-> StaticErrs(E),
                               to |-> E.to, enf |-> E.enf, spin |-> E.spin, tm |-> E.tm, conf |-> E.tm, wrap |-> E.wrap,
                               status |-> IF StaticErrs(E) # {} THEN "static" ELSE "pend"])
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

\* opening with locking=True: the stream and its handle appear only on return
CallOpenLock ==
    /\ Is("call") /\ E.op = "openlock"
    /\ infl' = Put(infl, E.t, [op |-> "lock", s |-> 0 - E.s,
                               q |-> [h |-> E.h, p |-> E.p, f |-> E.f, sh |-> ~E.wr, lo |-> 0, hi |-> INF],
                               errs |-> {}, to |-> E.to, enf |-> E.enf, spin |-> E.spin, tm |-> E.tm,
                               conf |-> E.tm, wrap |-> 0,
                               status |-> "pend"])
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

CallRel ==   \* unlock, or exit of a "with lock_file()" block
    /\ Is("call") /\ E.op = "unlock"
    /\ infl' = Put(infl, E.t, [op |-> "unlock", s |-> E.s, q |-> LockReq(E), bad |-> E.bad,
                               wrap |-> E.wrap, tm |-> E.tm, status |-> "pend"])
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

CallClose ==
    /\ Is("call") /\ E.op = "close"
    /\ infl' = Put(infl, E.t, [op |-> "close", s |-> E.s, q |-> [NoQ EXCEPT !.p = E.p], wrap |-> E.wrap,
                               left |-> {}, tm |-> E.tm, status |-> "pend"])
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

CallOther ==  \* any operation which has no business with locks (read, failed open, stat...)
    /\ Is("call") /\ E.op = "other"
    /\ infl' = Put(infl, E.t, [op |-> "other", s |-> E.s, q |-> [NoQ EXCEPT !.p = E.p], wrap |-> E.wrap,
                               tm |-> E.tm, status |-> "pend"])
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

\* silent linearization points ---------------------------------------------
SetStatus(t, s) == infl' = [infl EXCEPT ![t].status = s]
Stay == UNCHANGED <<tid, l>>

\* conflicts with anything which blocks it: a held lock, or (DEVIATION, kept) another
\* attempt in flight of the same process, which reserves its range while it tries
PendClash(t) == \E u \in DOMAIN infl : u # t /\ infl[u].op = "lock" /\ infl[u].status = "pend"
                                       /\ infl[u].q.p = infl[t].q.p
                                       /\ (Clash(infl[t].q, infl[u].q) \/ SelfOverlap(infl[t].q, infl[u].q))

LinGrant(t) ==
    /\ infl[t].op = "lock" /\ infl[t].status = "pend"
    /\ Clause("granted lock conflicts with a held lock", ~Conflicts(infl[t].q, held))
    /\ Clause("same handle granted overlapping ranges", ~Reenters(infl[t].q, held))
    /\ held' = held \cup {infl[t].q}
    \* those who try right now may be blocked by it, however short it lasts
    /\ infl' = [u \in DOMAIN infl |->
                  IF u = t THEN [infl[u] EXCEPT !.status = "ok"]
                  ELSE IF E.ev = "ret" /\ infl[u].op = "lock" /\ infl[u].status = "pend" /\ infl[u].conf < E.tm
                          /\ (Clash(infl[u].q, infl[t].q) \/ SelfOverlap(infl[u].q, infl[t].q))
                  THEN [infl[u] EXCEPT !.conf = E.tm] ELSE infl[u]]
    /\ Stay /\ UNCHANGED <<st, hs, zomb>>

LinRefuse(t) ==
    /\ infl[t].op = "lock" /\ infl[t].status = "pend"
    /\ Conflicts(infl[t].q, held) \/ PendClash(t)
    /\ SetStatus(t, "io")
    /\ Stay /\ UNCHANGED <<held, st, hs, zomb>>

LinReenter(t) ==
    /\ infl[t].op = "lock" /\ infl[t].status = "pend"
    /\ \/ Reenters(infl[t].q, held)
       \/ \E u \in DOMAIN infl : u # t /\ infl[u].op = "lock" /\ infl[u].status = "pend" /\ SelfOverlap(infl[t].q, infl[u].q)
    /\ SetStatus(t, "rte")
    /\ Stay /\ UNCHANGED <<held, st, hs, zomb>>

LinUnlock(t) ==
    LET q == infl[t].q x == Exact(q.h, q.f, q.lo, q.hi, held) IN
    /\ infl[t].op = "unlock" /\ infl[t].status = "pend" /\ st[infl[t].s].open /\ infl[t].bad = 0
    /\ x # {}
    /\ held' = held \ x
    /\ zomb' = ZombAfter(q.p, q.f, held \ x, 0)
    /\ SetStatus(t, "ok")
    /\ Stay /\ UNCHANGED <<st, hs>>

LinUnlockBad(t) ==
    LET q == infl[t].q x == Exact(q.h, q.f, q.lo, q.hi, held) IN
    /\ infl[t].op = "unlock" /\ infl[t].status = "pend" /\ st[infl[t].s].open /\ infl[t].bad = 0
    /\ x = {}
    /\ \/ SetStatus(t, "rte")
       \* DEVIATION (kept): nothing to unlock at all on this file is silently accepted
       \/ LocksOf(q.p, q.f, held) = {} /\ SetStatus(t, "ok")
    /\ Stay /\ UNCHANGED <<held, st, hs, zomb>>

LinClose(t) ==
    LET x == st[infl[t].s] IN
    /\ infl[t].op = "close" /\ infl[t].status = "pend"
    /\ IF ~x.open THEN UNCHANGED <<held, st, hs, zomb>> /\ SetStatus(t, "ok")
       ELSE LET left == {r \in held : ~(r.h = x.h /\ r.f = x.f)} IN
            /\ held' = left
            /\ st' = [st EXCEPT ![infl[t].s].open = FALSE]
            /\ hs' = IF x.own THEN {y \in hs : y.h # x.h} ELSE hs
            /\ zomb' = ZombAfter(x.p, x.f, left, IF x.own THEN 1 ELSE 0)
            /\ infl' = [infl EXCEPT ![t].status = "ok", ![t].left = held \ left]
    /\ Stay

Silent == l <= Len(Tr) /\ E.ev \in {"ret", "quiet", "exit"} /\ \E t \in DOMAIN infl :
            LinGrant(t) \/ LinRefuse(t) \/ LinReenter(t) \/ LinUnlock(t) \/ LinUnlockBad(t) \/ LinClose(t)

\* returns -----------------------------------------------------------------
\* time bookkeeping: the last instant at which attempt t could not be granted
Timed(o) == o.tm >= 0
RetLock ==
    /\ Is("ret") /\ E.t \in DOMAIN infl /\ infl[E.t].op = "lock"
    /\ LET o == infl[E.t] IN
       /\ \/ /\ E.res = "ok"
             /\ Clause("lock granted to a call which should fail", o.status = "ok")
          \/ /\ E.res = "io"
             /\ Clause("lock refused although nothing incompatible is held", o.status = "io" \/ "io" \in o.errs)
             /\ Clause("blocking attempt refused", o.status = "io" => o.to >= 0)
          \/ /\ E.res = "rte"
             /\ Clause("RuntimeError without overlap of the same handle",
                       o.status = "rte" \/ (o.status = "io" /\ o.to < 0 /\ o.enf >= 0))
          \/ /\ E.res = "val"
             \* (the stream may have been closed by another thread during the call)
             /\ Clause("ValueError for valid arguments", "val" \in o.errs \/ (o.s > 0 /\ ~st[o.s].open))
          \/ /\ Clause("unexpected outcome of lock_file", E.res \in {"ok", "io", "rte", "val"}) /\ FALSE
       /\ (Timed(o) /\ E.res = "io" /\ o.status = "io") =>
             /\ Clause("timed out too early", E.tm - o.tm >= o.to)
             /\ Clause("timed out too late", E.tm - o.tm <= (IF o.to = 0 THEN 0 ELSE o.to + o.spin))
       /\ (Timed(o) /\ E.res = "rte" /\ o.status = "io") =>
             /\ Clause("enforced timeout too early", E.tm - o.tm >= o.enf)
             /\ Clause("enforced timeout too late", E.tm - o.tm <= o.enf + o.spin)
       /\ (Timed(o) /\ E.res = "ok") =>
             /\ Clause("lock granted long after it became free", E.tm <= o.conf + o.spin)
             /\ Clause("lock granted long after its timeout", o.to >= 0 => E.tm - o.tm <= o.to + o.spin)
       /\ IF o.s < 0   \* opening
          THEN IF E.res = "ok"
               THEN /\ st' = Put(st, 0 - o.s, [h |-> o.q.h, p |-> o.q.p, f |-> o.q.f, own |-> TRUE,
                                               rd |-> E.rd, wr |-> E.wr, open |-> TRUE])
                    /\ hs' = hs \cup {[h |-> o.q.h, p |-> o.q.p, f |-> o.q.f]}
                    /\ UNCHANGED zomb
               ELSE /\ zomb' = Put(zomb, <<o.q.p, o.q.f>>,
                                   IF LocksOf(o.q.p, o.q.f, held) = {} /\ Attempts(o.q.p, o.q.f) = {} THEN 0
                                   ELSE Zomb(o.q.p, o.q.f) + 1)
                    /\ UNCHANGED <<st, hs>>
          ELSE UNCHANGED <<st, hs, zomb>>
    /\ infl' = Del(infl, E.t)
    /\ Adv /\ UNCHANGED held

RetUnlock ==
    /\ Is("ret") /\ E.t \in DOMAIN infl /\ infl[E.t].op = "unlock"
    /\ LET o == infl[E.t] x == st[o.s] IN
       \/ /\ E.res \in {"ok", "rte"}
          /\ Clause("unlock_file outcome does not match the locks held", o.status = E.res)
       \/ /\ E.res = "val"
          /\ Clause("unlock_file refused valid arguments", ~x.open \/ o.bad = 1 \/ o.q.lo < 0)
       \/ /\ Clause("unexpected outcome of unlock_file", E.res \in {"ok", "rte", "val"}) /\ FALSE
    /\ infl' = Del(infl, E.t)
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

RetClose ==
    /\ Is("ret") /\ E.t \in DOMAIN infl /\ infl[E.t].op = "close"
    /\ Clause("close() failed", E.res = "ok")
    /\ infl[E.t].status = "ok"
    /\ infl' = Del(infl, E.t)
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

\* an "other" operation: an open that fails (xz = 1 extra descriptor may be kept), a read...
RetOther ==
    /\ Is("ret") /\ E.t \in DOMAIN infl /\ infl[E.t].op = "other"
    /\ Clause("operation on the stream failed", E.res = "ok")
    /\ zomb' = IF E.xz = 1 /\ (LocksOf(E.p, E.f, held) # {} \/ Attempts(E.p, E.f) # {})
               THEN Put(zomb, <<E.p, E.f>>, Zomb(E.p, E.f) + 1) ELSE zomb
    /\ infl' = Del(infl, E.t)
    /\ Adv /\ UNCHANGED <<held, st, hs>>

-----------------------------------------------------------------------------
(* What the operating system shows.  Locks of calls in flight may or may    *)
(* not be there; everything held must, nothing else may.                   *)
Releasing == {r \in held : \E t \in DOMAIN infl :
                 \/ infl[t].op = "unlock" /\ infl[t].status = "pend" /\ r \in Exact(infl[t].q.h, infl[t].q.f, infl[t].q.lo, infl[t].q.hi, held)
                 \/ infl[t].op = "close" /\ infl[t].status = "pend" /\ infl[t].s \in DOMAIN st /\ r.h = st[infl[t].s].h}
Acquiring == {infl[t].q : t \in {t \in DOMAIN infl : infl[t].op = "lock" /\ infl[t].status = "pend"}}
\* close() gives back the locks of its stream one after the other
Closing == UNION {infl[t].left : t \in {t \in DOMAIN infl : infl[t].op = "close"}}

View ==
    /\ Is("view")
    /\ \A c \in Cells :
         LET lo == ModeSeenBy(E.q, E.f, c, held \ Releasing)
             up == ModeSeenBy(E.q, E.f, c, held \cup Acquiring \cup Closing)
         IN /\ Clause("a held lock is not protected by the operating system", E.m[c + 1] >= lo)
            /\ Clause("the operating system still holds a lock nobody owns", E.m[c + 1] <= up)
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb, infl>>

Fds ==
    /\ Is("fds")
    /\ LET live == {x.h : x \in {x \in hs : x.p = E.p /\ x.f = E.f}}
           busy == Cardinality({t \in DOMAIN infl : infl[t].op = "close"})
           opening == Cardinality({t \in DOMAIN infl : infl[t].op = "other" \/ infl[t].s < 0})
           alive == {E.alive[i] : i \in DOMAIN E.alive}
           closing == {st[infl[t].s].h : t \in {t \in DOMAIN infl : infl[t].op = "close"}}
       IN /\ Clause("descriptor of an open stream is gone", (live \ closing) \subseteq alive)
          /\ Clause("descriptor leaked", E.cnt <= Cardinality(live) + Zomb(E.p, E.f) + Legacy(E.p, E.f) + busy + opening)
          /\ Clause("descriptor count below the open streams", E.cnt >= Cardinality(live) - busy)
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb, infl>>

(* Quiescence: every thread still inside lock_file must be kept there by a *)
(* held lock, by an attempt (itself justified) of its own process, or by   *)
(* the mutex of its own thread-safe stream (wrap).                         *)
RECURSIVE Justified(_)
Justified(J) ==
    LET more == {t \in DOMAIN infl \ J :
                   \/ infl[t].op = "lock" /\ Conflicts(infl[t].q, held)
                   \/ infl[t].op = "lock" /\ \E u \in J : infl[u].op = "lock" /\ infl[u].q.p = infl[t].q.p
                                     /\ (Clash(infl[t].q, infl[u].q) \/ SelfOverlap(infl[t].q, infl[u].q))
                   \/ infl[t].wrap # 0 /\ \E u \in J : infl[u].wrap = infl[t].wrap}
    IN IF more = {} THEN J ELSE Justified(J \cup more)
Quiet ==
    /\ Is("quiet")
    /\ LET B == {E.blocked[i] : i \in DOMAIN E.blocked} IN
       /\ Clause("a call returned without being reported", B = DOMAIN infl)
       /\ \A t \in B : infl[t].status = "pend"
       /\ Clause("a caller stays blocked although nothing incompatible is held", B \subseteq Justified({}))
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb, infl>>

(* Virtual time goes on: attempts which are blocked now remember it.       *)
Tick ==
    /\ Is("tick")
    /\ infl' = [t \in DOMAIN infl |->
                  IF infl[t].op = "lock" /\ infl[t].status = "pend"
                     /\ (Conflicts(infl[t].q, held \cup Releasing) \/ PendClash(t))
                  THEN [infl[t] EXCEPT !.conf = E.tm] ELSE infl[t]]
    /\ Adv /\ UNCHANGED <<held, st, hs, zomb>>

Fork ==
    /\ Is("fork")
    \* map: sequence of <<parent stream, child stream, parent handle, child handle>>
    /\ LET M == E.map IN
       /\ st' = [x \in DOMAIN st \cup {M[i].c : i \in DOMAIN M} |->
                   IF x \in DOMAIN st THEN st[x]
                   ELSE LET i == CHOOSE i \in DOMAIN M : M[i].c = x IN
                        [st[M[i].s] EXCEPT !.p = E.p2, !.h = M[i].ch]]
       /\ hs' = hs \cup {[h |-> M[i].ch, p |-> E.p2, f |-> st[M[i].s].f] : i \in {i \in DOMAIN M : st[M[i].s].open}}
                   \cup {[h |-> E.raws[i].ch, p |-> E.p2, f |-> E.raws[i].f] : i \in DOMAIN E.raws}
       \* descriptors kept open in the parent are inherited and never needed by the child: unknown count
       /\ zomb' = [x \in DOMAIN zomb \cup {<<E.p2, f, 1>> : f \in {st[s].f : s \in DOMAIN st}} |->
                     IF x[1] = E.p2 THEN Zomb(E.p, x[2]) + Legacy(E.p, x[2]) ELSE zomb[x]]
    /\ Adv /\ UNCHANGED <<held, infl>>

Exit ==
    /\ Is("exit")
    /\ held' = {r \in held : r.p # E.p}
    /\ hs' = {x \in hs : x.p # E.p}
    /\ st' = [s \in DOMAIN st |-> IF st[s].p = E.p THEN [st[s] EXCEPT !.open = FALSE] ELSE st[s]]
    /\ infl' = [t \in {t \in DOMAIN infl : infl[t].q.p # E.p} |-> infl[t]]
    /\ Adv /\ UNCHANGED zomb

Next ==
    \/ Open \/ Raw \/ RawClose
    \/ CallLock \/ CallOpenLock \/ CallRel \/ CallClose \/ CallOther
    \/ Silent
    \/ RetLock \/ RetUnlock \/ RetClose \/ RetOther
    \/ View \/ Fds \/ Quiet \/ Tick \/ Fork \/ Exit

Spec == Init /\ [][Next]_vars

\* invariants of the abstract system, evaluated along every real execution
SafeLocks == Compatible(held)
\* register the progress of each trace (needs -workers 1)
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE

Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
