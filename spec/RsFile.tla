------------------------------- MODULE RsFile -------------------------------
(***************************************************************************)
(* Contents of files, and what streams do to them.  A content is a         *)
(* sequence of bytes.  Data written to a stream is a sequence of pending   *)
(* byte writes <<offset, byte>> (offset -1 in append mode: the end of the  *)
(* file at the moment when the byte reaches it), which go to the file in   *)
(* order, some prefix at a time.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Resize(c, n) == IF n = Len(c) THEN c
                ELSE IF n < Len(c) THEN SubSeq(c, 1, n)
                ELSE c \o [i \in 1 .. n - Len(c) |-> 0]

PutByte(c, w) == IF w[1] < 0 \/ w[1] = Len(c) THEN Append(c, w[2])
                 ELSE IF w[1] < Len(c) THEN [c EXCEPT ![w[1] + 1] = w[2]]
                 ELSE Append(Resize(c, w[1]), w[2])

RECURSIVE Apply(_, _, _)
Apply(c, p, k) == IF k = 0 THEN c ELSE Apply(PutByte(c, Head(p)), Tail(p), k - 1)

\* the numbers of pending bytes which may have reached the file, to turn c into d
RECURSIVE Flushed(_, _, _, _)
Flushed(c, d, p, j) == (IF c = d THEN {j} ELSE {})
                       \cup (IF j = Len(p) THEN {} ELSE Flushed(PutByte(c, p[j + 1]), d, p, j + 1))

Entries(pos, bytes) == [i \in 1 .. Len(bytes) |-> <<IF pos < 0 THEN -1 ELSE pos + i - 1, bytes[i]>>]
\* appended bytes, once their place is known
Resolved(p, k, base) == [i \in 1 .. k |-> IF p[i][1] < 0 THEN <<base + i - 1, p[i][2]>> ELSE p[i]]

-----------------------------------------------------------------------------
(* Text: enc 0 = one byte per character, 1 = utf-8, and with error handlers *)
(*   ascii:   2 "ignore", 3 "replace", 4 strict, 8 "surrogateescape"        *)
(*   latin-1: 5 strict, 6 "replace", 7 "ignore"                             *)
(* (utf-8 is like ascii on bytes which are never valid in it)               *)
(* nl 0 = universal (None), 1 = "", 2 = "\n", 3 = "\r", 4 = "\r\n"          *)
INVALID == -9
Decoded(b, enc) == IF b < 128 THEN b ELSE IF enc = 3 THEN 65533 ELSE IF enc = 4 THEN INVALID ELSE IF enc = 8 THEN 56320 + b ELSE b
CharLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
CharAt(c, p, enc) ==
    LET b == c[p + 1] n == IF enc # 1 THEN 1 ELSE CharLen(b) IN
    IF p + n > Len(c) THEN <<-1, Len(c) - p>>
    ELSE IF n = 1 THEN <<Decoded(b, enc), 1>>
    ELSE IF n = 2 THEN <<(b % 32) * 64 + (c[p + 2] % 64), 2>>
    ELSE IF n = 3 THEN <<(b % 16) * 4096 + ((c[p + 2] % 64)) * 64 + (c[p + 3] % 64), 3>>
    ELSE <<(b % 8) * 262144 + ((c[p + 2] % 64)) * 4096 + ((c[p + 3] % 64)) * 64 + (c[p + 4] % 64), 4>>
ByteIs(c, p, b) == p < Len(c) /\ c[p + 1] = b
NextChar(c, p, nl, enc) ==
    IF nl = 0 /\ c[p + 1] = 13 THEN <<10, IF ByteIs(c, p + 1, 10) THEN 2 ELSE 1>> ELSE CharAt(c, p, enc)

\* a character that the encoding has not, and the error handler refuses
Refused(u, enc) == \/ enc = 4 /\ u > 127
                   \/ enc = 5 /\ u > 255
                   \/ enc = 8 /\ u > 127 /\ ~(u > 56447 /\ u < 56576)
Encode(u, enc) ==
    IF enc = 0 \/ u < 128 THEN <<u>>
    ELSE IF enc \in {5, 6, 7} /\ u < 256 THEN <<u>>
    ELSE IF enc \in {2, 7} THEN <<>>
    ELSE IF enc \in {3, 6} THEN <<63>>
    ELSE IF enc = 8 THEN <<u - 56320>>
    ELSE IF u < 2048 THEN <<192 + u \div 64, 128 + (u % 64)>>
    ELSE IF u < 65536 THEN <<224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64)>>
    ELSE <<240 + u \div 262144, 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
EncodeNl(u, nl, enc) == IF u = 10 /\ nl = 3 THEN <<13>> ELSE IF u = 10 /\ nl = 4 THEN <<13, 10>> ELSE Encode(u, enc)
TextRefused(t, enc) == \E i \in DOMAIN t : Refused(t[i], enc)
RECURSIVE EncodeAll(_, _, _)
EncodeAll(t, nl, enc) == IF t = <<>> THEN <<>> ELSE EncodeNl(Head(t), nl, enc) \o EncodeAll(Tail(t), nl, enc)

\* n characters (all of them if n < 0) from byte position p: <<characters, new position>>
RECURSIVE ReadText(_, _, _, _, _)
ReadText(c, p, n, nl, enc) ==
    IF n = 0 \/ p >= Len(c) THEN <<<<>>, p>>
    ELSE LET x == NextChar(c, p, nl, enc) r == ReadText(c, p + x[2], n - 1, nl, enc) IN <<<<x[1]>> \o r[1], r[2]>>

\* the character which starts at p ends a line (read from position "from")
EndsLine(c, p, nl, from) ==
    CASE nl = 0 -> c[p + 1] \in {10, 13}
      [] nl = 1 -> c[p + 1] = 10 \/ (c[p + 1] = 13 /\ ~ByteIs(c, p + 1, 10))
      [] nl = 2 -> c[p + 1] = 10
      [] nl = 3 -> c[p + 1] = 13
      [] nl = 4 -> c[p + 1] = 10 /\ p > from /\ c[p] = 13
RECURSIVE LineFrom(_, _, _, _, _, _)
LineFrom(c, p, n, nl, enc, from) ==
    IF n = 0 \/ p >= Len(c) THEN <<<<>>, p>>
    ELSE LET x == NextChar(c, p, nl, enc) IN
         IF EndsLine(c, p, nl, from) THEN <<<<x[1]>>, p + x[2]>>
         ELSE LET r == LineFrom(c, p + x[2], n - 1, nl, enc, from) IN <<<<x[1]>> \o r[1], r[2]>>
ReadLine(c, p, n, nl, enc) == LineFrom(c, p, n, nl, enc, p)
RECURSIVE ReadLines(_, _, _, _)
ReadLines(c, p, nl, enc) ==
    IF p >= Len(c) THEN <<>>
    ELSE LET r == ReadLine(c, p, -1, nl, enc) IN <<r[1]>> \o ReadLines(c, r[2], nl, enc)
=============================================================================
