------------------------------ MODULE ByteSeq ------------------------------
(* Byte strings are sequences of integers 0..255.  Scans are written with   *)
(* sets instead of recursion so that TLC can evaluate them on lines of      *)
(* thousands of bytes.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
IMin(a, b) == IF a <= b THEN a ELSE b
IMax(a, b) == IF a >= b THEN a ELSE b

Range(s) == {s[i] : i \in 1..Len(s)}
(* Index of the first byte >= from in set S, or Len(s)+1. *)
FirstIn(s, S, from) ==
  LET hits == {i \in from..Len(s) : s[i] \in S}
  IN  IF hits = {} THEN Len(s) + 1 ELSE MinOf(hits)
(* Index of the first byte >= from not in S, or Len(s)+1. *)
FirstNotIn(s, S, from) ==
  LET hits == {i \in from..Len(s) : s[i] \notin S}
  IN  IF hits = {} THEN Len(s) + 1 ELSE MinOf(hits)
RECURSIVE LastNotInFrom(_, _, _)
LastNotInFrom(s, S, n) == IF n = 0 THEN 0 ELSE IF s[n] \notin S THEN n ELSE LastNotInFrom(s, S, n - 1)
LastNotIn(s, S) == LastNotInFrom(s, S, Len(s))
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Contains(s, S) == \E i \in 1..Len(s) : s[i] \in S

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = << >> THEN << >>
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o Join(Tail(ss), sep)
(* Split on a single byte; always at least one segment. *)
RECURSIVE SplitOn(_, _)
SplitOn(s, b) ==
  LET i == FirstIn(s, {b}, 1)
  IN  IF i > Len(s) THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitOn(From(s, i + 1), b)
(* SubSeq makes TLC evaluate the sequence once, here, instead of on each use. *)
MapSeq(F(_), s) == SubSeq([i \in 1..Len(s) |-> F(s[i])], 1, Len(s))
Filter(s, P(_)) == SelectSeq(s, P)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Lower == 97..122
Upper == 65..90
Digit == 48..57
Alpha == Lower \cup Upper
ToUpper(s) == MapSeq(LAMBDA b : IF b \in Lower THEN b - 32 ELSE b, s)
ToLower(s) == MapSeq(LAMBDA b : IF b \in Upper THEN b + 32 ELSE b, s)

(* Lexicographic byte order, as the derived Ord of byte strings. *)
LexLess(a, b) ==
  LET n == IMin(Len(a), Len(b))
      d == {i \in 1..n : a[i] # b[i]}
  IN  IF d = {} THEN Len(a) < Len(b) ELSE a[MinOf(d)] < b[MinOf(d)]

(* UTF-8 well-formedness (RFC 3629 / Unicode table 3-7). *)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           c(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
           cont(x) == x \in 128..191
       IN  IF b < 128 THEN Utf8From(s, FirstNotIn(s, 0..127, i))
           ELSE IF b \in 194..223 THEN cont(c(1)) /\ Utf8From(s, i + 2)
           ELSE IF b = 224 THEN c(1) \in 160..191 /\ cont(c(2)) /\ Utf8From(s, i + 3)
           ELSE IF b = 237 THEN c(1) \in 128..159 /\ cont(c(2)) /\ Utf8From(s, i + 3)
           ELSE IF b \in 225..239 THEN cont(c(1)) /\ cont(c(2)) /\ Utf8From(s, i + 3)
           ELSE IF b = 240 THEN c(1) \in 144..191 /\ cont(c(2)) /\ cont(c(3)) /\ Utf8From(s, i + 4)
           ELSE IF b \in 241..243 THEN cont(c(1)) /\ cont(c(2)) /\ cont(c(3)) /\ Utf8From(s, i + 4)
           ELSE IF b = 244 THEN c(1) \in 128..143 /\ cont(c(2)) /\ cont(c(3)) /\ Utf8From(s, i + 4)
           ELSE FALSE
IsUtf8(s) == Utf8From(s, 1)
=============================================================================
