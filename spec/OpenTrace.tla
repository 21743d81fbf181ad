----------------------------- MODULE OpenTrace -----------------------------
(***************************************************************************)
(* Recorded openings, judged by OpenModes.                                 *)
(*  fs    files                     (set up by the recorder)               *)
(*  umask v                                                                *)
(*  open  m a res obs after                                                *)
(* The stream is read, written and closed at once; "after" is what the     *)
(* files have become just after the opening, "end" after the closing.      *)
(***************************************************************************)
EXTENDS OpenModes, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l, fs, umask
vars == <<tid, l, fs, umask>>
Tr == Traces[tid]
E == Tr[l]
Is(ev) == l <= Len(Tr) /\ E.ev = ev
Clause(n, b) ==
    IF b THEN TRUE
    ELSE /\ LET cc == TLCGet(2 * tid + 1) IN
              IF cc[1] <= l THEN TLCSet(2 * tid + 1, <<l, n>>) ELSE TRUE
         /\ FALSE
Adv == l' = l + 1 /\ UNCHANGED tid

Init ==
    /\ tid \in 1 .. Len(Traces)
    /\ l = 1 /\ fs = <<>> /\ umask = 18
    /\ TLCSet(2 * tid, 0) /\ TLCSet(2 * tid + 1, <<0, "start">>)

SetFs == Is("fs") /\ fs' = E.files /\ Adv /\ UNCHANGED umask
SetUmask == Is("umask") /\ umask' = E.v /\ Adv /\ UNCHANGED fs

Refusals == {"value", "exists", "missing", "isdir", "os"}

Success(o) ==
    LET a == E.a
        obs == E.obs
        mm0 == Meaning(E.m)
        mm == IF mm0.ok THEN mm0 ELSE [mm0 EXCEPT !.ok = TRUE]
        wrap == a.src \in {"fd", "namefd", "handle"}
        t == Target(a.name)
        f == o.fs[t]
        regular == f.k = "file"
        size == Len(f.d)
        pos0 == IF mm.app THEN size ELSE IF wrap THEN a.pos ELSE 0
        canr == mm.rd /\ (~wrap \/ a.acc \in {"r", "rw"})
        canw == mm.wr /\ (~wrap \/ a.acc \in {"w", "rw"})
        oapp == IF wrap /\ a.win = 0 THEN a.oapp = 1 ELSE mm.app
        rd == IF pos0 < size THEN SubSeq(f.d, pos0 + 1, size) ELSE <<>>
        pos1 == IF canr /\ pos0 < size THEN size ELSE pos0
        wpos == IF oapp THEN size ELSE pos1
        new == [i \in 1 .. (IF wpos + Len(a.w) > size THEN wpos + Len(a.w) ELSE size) |->
                  IF i > wpos /\ i <= wpos + Len(a.w) THEN a.w[i - wpos] ELSE IF i <= size THEN f.d[i] ELSE 0]
    IN /\ Clause("wrong kind of stream", obs.kind = Kind(mm, a.buffering) /\ obs.ts = a.ts)
       /\ Clause("wrong readable() or writable()", (obs.rd = 1) = mm.rd /\ (obs.wr = 1) = mm.wr)
       /\ Clause("wrong mode attribute", ~mm.std \/ obs.mode = (IF obs.kind = "text" THEN E.mode ELSE ModeAttr(mm)))
       /\ Clause("wrong descriptor flags",
                 wrap \/ (/\ obs.acc = (IF mm.rd /\ mm.wr THEN "rw" ELSE IF mm.wr THEN "w" ELSE "r")
                          /\ ((obs.app = 1) = mm.app \/ a.win = 1) /\ ((obs.sync = 1) = mm.sync \/ (a.win = 1 /\ a.src = "opener"))))
       /\ Clause("wrong flags given to the opener",
                 a.src = "opener" =>
                    /\ obs.flags.acc = (IF mm.rd /\ mm.wr THEN "rw" ELSE IF mm.wr THEN "w" ELSE "r") /\ (obs.flags.app = 1) = mm.app
                    /\ (obs.flags.creat = 1) = (mm.create # "not") /\ (obs.flags.excl = 1) = (mm.create = "must")
                    /\ (obs.flags.trunc = 1) = (mm.erase /\ a.locking = 0)
                    /\ obs.flags.cloexec = 1)
       /\ Clause("wrong inheritability",
                 IF a.src = "path" THEN (obs.inh = 1) = mm.inh ELSE IF wrap THEN obs.inh = a.inh ELSE TRUE)
       /\ Clause("wrong seekable()", (obs.seek = 1) = regular)
       /\ Clause("wrong initial position", ~regular \/ obs.pos = pos0)
       /\ Clause("reading not as allowed",
                 ~regular \/ (IF canr THEN obs.rres = "ok" /\ obs.rdata = rd ELSE obs.rres = (IF mm.rd THEN "os" ELSE "unsup")))
       /\ Clause("writing not as allowed",
                 ~regular \/ obs.wres = (IF canw THEN "ok" ELSE IF mm.wr THEN "os" ELSE "unsup"))
       /\ Clause("wrong content after writing",
                 LET x == IF regular /\ canw THEN [o.fs EXCEPT ![t].d = new] ELSE o.fs IN E.end = x)
       /\ fs' = E.end
       /\ Clause("wrapped descriptor not closed, or closed despite closefd=False", ~wrap \/ (obs.fdopen = 1) = (a.closefd = 0))

Open ==
    /\ Is("open")
    /\ LET os == Outcomes(E.m, E.a, umask, fs) IN
       /\ Clause("opening did not succeed or fail as documented", \E o \in os : o.res = E.res)
       /\ \E o \in os :
            /\ o.res = E.res
            /\ Clause(IF E.res = "ok" THEN "opening did not create, erase or leave alone the file as documented"
                      ELSE "refused opening changed files", E.after = o.fs)
            /\ IF E.res = "ok" THEN Success(o) ELSE fs' = o.fs
       /\ Clause("descriptor leaked", E.leak = 0 \/ (E.a.src = "opener" /\ E.res = "isdir"))
    /\ Adv /\ UNCHANGED umask

Next == SetFs \/ SetUmask \/ Open
Spec == Init /\ [][Next]_vars
Progress == IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE
Verdict ==
    \A t \in 1 .. Len(Traces) :
       LET m == TLCGet(2 * t) ok == m = Len(Traces[t]) + 1 IN
       IF ok THEN TRUE ELSE PrintT(<<"REJECTED", t, m, TLCGet(2 * t + 1)>>)
=============================================================================
