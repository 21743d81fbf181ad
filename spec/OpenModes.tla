----------------------------- MODULE OpenModes -----------------------------
(***************************************************************************)
(* What opening modes mean (documentation of rsopen(): table of advanced   *)
(* flags, table of standard modes) and what opening does to files.         *)
(* A mode is a sequence of one-character strings.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Std == {"x", "a", "r", "w", "+", "b", "t"}
Advanced == {"R", "W", "A", "C", "-", "N", "+", "S", "I", "E", "B", "T"}
Range(m) == {m[i] : i \in DOMAIN m}

Invalid == [ok |-> FALSE, std |-> FALSE, rd |-> FALSE, wr |-> FALSE, app |-> FALSE, create |-> "may", erase |-> FALSE,
            sync |-> FALSE, inh |-> FALSE, bin |-> FALSE, vague |-> FALSE]

StdMeaning(s) ==
    LET upd == "+" \in s
        a == s \cap {"r", "w", "a", "x"}
    IN IF Cardinality(a) # 1 \/ {"b", "t"} \subseteq s THEN Invalid
       ELSE [ok |-> TRUE, std |-> TRUE, rd |-> "r" \in s \/ upd, wr |-> "r" \notin s \/ upd, app |-> "a" \in s,
             create |-> IF "x" \in s THEN "must" ELSE IF "r" \in s THEN "not" ELSE "may",
             erase |-> "w" \in s, sync |-> FALSE, inh |-> FALSE, bin |-> "b" \in s, vague |-> FALSE]

AdvMeaning(s) ==
    LET must == s \cap {"C", "-"} # {}
        nocr == s \cap {"N", "+"} # {}
        wr == s \cap {"W", "A"} # {}
        erase == "E" \in s /\ ~must
    IN IF (must /\ nocr) \/ (~wr /\ "R" \notin s) \/ {"B", "T"} \subseteq s \/ (erase /\ ~wr)
       THEN \* whether "E" without write access is refused or ignored for wrapped descriptors is not said
            [Invalid EXCEPT !.vague = ~((must /\ nocr) \/ (~wr /\ "R" \notin s) \/ {"B", "T"} \subseteq s),
                            !.rd = "R" \in s, !.bin = "B" \in s]
       ELSE [ok |-> TRUE, std |-> FALSE, rd |-> "R" \in s, wr |-> wr, app |-> "A" \in s,
             create |-> IF must THEN "must" ELSE IF nocr THEN "not" ELSE "may",
             erase |-> erase, sync |-> "S" \in s, inh |-> "I" \in s, bin |-> "B" \in s, vague |-> FALSE]

Meaning(m) ==
    LET s == Range(m) IN
    IF m = <<>> \/ Len(m) # Cardinality(s) THEN Invalid
    ELSE IF s \subseteq Std THEN StdMeaning(s)
    ELSE IF s \subseteq Advanced THEN AdvMeaning(s)
    ELSE Invalid

(***************************************************************************)
(* Files: name -> [k: kind, d: data, p: permissions].  Link names lead to  *)
(* another name.                                                           *)
(***************************************************************************)
Target(n) == CASE n = "l" -> "f" [] n = "x" -> "m" [] OTHER -> n
IsLink(n) == n \in {"l", "x"}

Bit(n, i) == (n \div i) % 2
RECURSIVE Mask(_, _, _)
Mask(p, u, i) == IF i > 2048 THEN 0 ELSE (IF Bit(p, i) = 1 /\ Bit(u, i) = 0 THEN i ELSE 0) + Mask(p, u, 2 * i)
\* (windows only knows the right of writing)
Win == 512 * 512
Created(perm, umask) == [k |-> "file", d |-> <<>>,
                         p |-> IF umask = Win THEN (IF Bit(perm, 128) = 1 THEN 420 ELSE 292) ELSE Mask(perm, umask, 1)]

\* open(2) done for path n according to mm; erasing is done or not
OpenPath(mm, n, erase, perm, umask, fs) ==
    LET t == Target(n)
        o == fs[t]
    IN IF o.k = "nodir" THEN [res |-> "missing", fs |-> fs]
       ELSE IF mm.create = "must" /\ (IsLink(n) \/ o.k # "none") THEN [res |-> "exists", fs |-> fs]
       ELSE IF o.k = "dir" THEN [res |-> IF umask = Win THEN "os" ELSE "isdir", fs |-> fs]
       ELSE IF umask = Win /\ o.k = "file" /\ mm.wr /\ Bit(o.p, 128) = 0 THEN [res |-> "os", fs |-> fs]
       ELSE IF o.k = "none"
            THEN IF mm.create = "not" THEN [res |-> "missing", fs |-> fs]
                 ELSE [res |-> "ok", fs |-> [fs EXCEPT ![t] = Created(perm, umask)]]
       ELSE [res |-> "ok", fs |-> IF erase /\ o.k = "file" THEN [fs EXCEPT ![t].d = <<>>] ELSE fs]

\* everything an opening may do: set of [res, fs]
Outcomes(m, a, umask0, fs) ==
    LET mm == Meaning(m)
        umask == IF a.win = 1 THEN Win ELSE umask0
        refused == [res |-> "value", fs |-> fs]
        wrap == a.src \in {"fd", "namefd", "handle"}
        opened(q) == CASE a.src = "path" -> {OpenPath(q, a.name, q.erase, a.perm, umask, fs)}
                       [] a.src = "opener" -> {OpenPath(q, a.name, q.erase /\ a.locking = 0, a.operm, umask, fs)}
                       [] OTHER -> {IF a.locking = 1 /\ a.win = 0 /\ ~(IF q.wr THEN a.acc \in {"w", "rw"} ELSE a.acc \in {"r", "rw"})
                                    THEN [res |-> "os", fs |-> fs] ELSE [res |-> "ok", fs |-> fs]}
    IN IF a.bad = 1 THEN {refused}
       ELSE IF a.src = "namefd" /\ ~mm.std THEN {refused}
       ELSE IF ~mm.ok THEN {refused} \cup (IF mm.vague /\ wrap THEN opened(mm) ELSE {})
       ELSE IF mm.bin /\ a.textargs = 1 THEN {refused}
       ELSE IF ~mm.bin /\ a.buffering = 0
            THEN {refused} \cup {[res |-> IF x.res = "ok" THEN "value" ELSE x.res, fs |-> x.fs] : x \in opened(mm)}
       ELSE \* buffered streams which are both readable and writable need a position
            {[res |-> IF x.res = "ok" /\ a.buffering # 0 /\ mm.rd /\ mm.wr /\ fs[Target(a.name)].k = "fifo" THEN "value" ELSE x.res,
              fs |-> x.fs] : x \in opened(mm)}

Kind(mm, buffering) ==
    IF buffering = 0 THEN "raw" ELSE IF ~mm.bin THEN "text"
    ELSE IF mm.rd /\ mm.wr THEN "brandom" ELSE IF mm.wr THEN "bwriter" ELSE "breader"

\* the "mode" attribute of binary streams, as in the standard library
ModeAttr(mm) ==
    IF mm.create = "must" THEN (IF mm.rd THEN "xb+" ELSE "xb")
    ELSE IF mm.app THEN (IF mm.rd THEN "ab+" ELSE "ab")
    ELSE IF mm.wr THEN (IF mm.rd THEN "rb+" ELSE "wb") ELSE "rb"
=============================================================================
