----------------------------- MODULE OpenModel -----------------------------
(***************************************************************************)
(* Exhaustive exploration of OpenModes: every set of flags, every kind of  *)
(* path, every way to designate the file, in every reachable state of the  *)
(* files.  The documented guarantees are checked as action properties.     *)
(***************************************************************************)
EXTENDS OpenModes, TLC

CONSTANT ADVFLAGS
VARIABLES fs, act
vars == <<fs, act>>
View == fs

SetToMode(s) == LET RECURSIVE F(_) F(x) == IF x = {} THEN <<>> ELSE LET y == CHOOSE y \in x : TRUE IN <<y>> \o F(x \ {y}) IN F(s)
Modes == {SetToMode(s) : s \in SUBSET Std \cup SUBSET ADVFLAGS}
Names == {"f", "m", "d", "l", "x"}
Args == [src : {"path", "opener", "fd"}, name : Names, bad : {0}, textargs : {0, 1}, buffering : {0, -1}, locking : {0, 1},
         acc : {"r", "rw"}, perm : {511, 384}, operm : {438}, win : {0}]
UMASK == 18

Init ==
    /\ fs \in [{"f", "m"} -> {[k |-> "none", d |-> <<>>, p |-> 0], [k |-> "file", d |-> <<>>, p |-> 420],
                              [k |-> "file", d |-> <<1>>, p |-> 420]}]
    /\ fs["m"].k = "none"
    /\ act = [op |-> "init"]

FullFs == [n \in {"f", "m", "d"} |-> IF n = "d" THEN [k |-> "dir", d |-> <<>>, p |-> 0] ELSE fs[n]]

Open ==
    \E m \in Modes, a \in Args :
      /\ a.src = "fd" => (a.name = "f" /\ fs["f"].k = "file" /\ a.perm = 511)
      /\ a.src # "fd" => a.acc = "r"
      /\ \E o \in Outcomes(m, a, UMASK, FullFs) :
           /\ act' = [op |-> "open", m |-> m, a |-> a, res |-> o.res]
           /\ fs' = [n \in {"f", "m"} |-> o.fs[n]]

Next == Open
Spec == Init /\ [][Next]_vars

\* --- guarantees ---
A == act'.a
MM == Meaning(act'.m)
Touched(n) == fs'[n] # fs[n]
\* a refused or failed opening leaves files alone (apart from unbuffered text, whose refusal comes late, like in the stdlib)
FailFree == [][act'.res # "ok" => (UNCHANGED fs \/ (A.buffering = 0 /\ ~MM.bin))]_vars
\* data only disappears when erasing was asked for, with write access, for a path (or an opener without locking)
EraseOnlyAsked == [][\A n \in {"f", "m"} : (fs[n].k = "file" /\ fs'[n].d # fs[n].d) =>
                        MM.erase /\ MM.wr /\ A.src # "fd" /\ fs'[n].d = <<>> /\ MM.create # "must"]_vars
\* files are never removed, their permissions never changed by an opening, and creation is never done with "N" or "r"
NoRemoval == [][\A n \in {"f", "m"} : fs[n].k = "file" => fs'[n].k = "file" /\ fs'[n].p = fs[n].p]_vars
CreateOnlyAllowed == [][\A n \in {"f", "m"} : (fs[n].k = "none" /\ fs'[n].k # "none") =>
                        MM.create # "not" /\ A.src # "fd" /\ Target(A.name) = n /\ fs'[n].p \in {Mask(A.perm, UMASK, 1), Mask(A.operm, UMASK, 1)}]_vars
\* exclusive creation never succeeds on something existing, be it a dangling link
Exclusive == [][(act'.res = "ok" /\ MM.create = "must" /\ A.src # "fd") => fs[A.name].k = "none"]_vars
\* "must exist" never succeeds on something missing
MustExist == [][(act'.res = "ok" /\ MM.create = "not" /\ A.src # "fd") => fs[Target(A.name)].k = "file"]_vars
\* a successful stream is readable or writable
Access == [][act'.res = "ok" => MM.rd \/ MM.wr]_vars

\* --- the documented table: standard modes and their advanced counterparts ---
Same(x, y) == LET a == Meaning(x) b == Meaning(y) IN a.ok /\ b.ok /\ [a EXCEPT !.std = FALSE] = b
ASSUME \A t \in {<<>>, <<"b">>} : LET T == IF t = <<>> THEN <<>> ELSE <<"B">> IN
    /\ Same(<<"r">> \o t, <<"R", "N">> \o T)
    /\ Same(<<"r", "+">> \o t, <<"R", "W", "N">> \o T)
    /\ Same(<<"w">> \o t, <<"W", "E">> \o T)
    /\ Same(<<"w", "+">> \o t, <<"R", "W", "E">> \o T)
    /\ Same(<<"a">> \o t, <<"A">> \o T)
    /\ Same(<<"a", "+">> \o t, <<"R", "A">> \o T)
    /\ Same(<<"x">> \o t, <<"W", "C">> \o T)
    /\ Same(<<"x", "+">> \o t, <<"R", "W", "C">> \o T)
\* deprecated spellings, useless flags
ASSUME \A s \in SUBSET (Advanced \ {"C", "-"}) : Meaning(SetToMode(s \cup {"C"})) = Meaning(SetToMode(s \cup {"-"}))
ASSUME \A s \in SUBSET (Advanced \ {"N", "+"}) : s \cap {"R", "W", "A"} # {} => Meaning(SetToMode(s \cup {"N"})) = Meaning(SetToMode(s \cup {"+"}))
ASSUME \A s \in SUBSET (Advanced \ {"A", "W"}) : Meaning(SetToMode(s \cup {"A"})) = Meaning(SetToMode(s \cup {"A", "W"}))
=============================================================================
