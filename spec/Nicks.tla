------------------------------- MODULE Nicks -------------------------------
(* Nickname generators.  A generator is a sequence of atoms tried in order;  *)
(* the empty sequence means there are no nicks left.  Atoms:                 *)
(*   [t "nick",  nick]                 one nick                              *)
(*   [t "iter",  nicks]                a finite list                         *)
(*   [t "cycle", nicks, k]             an endless iterator                   *)
(*   [t "seq",   prefix, sufs, k, lim] sequential suffixes, k given out      *)
(*   [t "rng",   prefix, sufs, k]      pseudorandom suffixes, k given out    *)
(* What a pseudorandom atom yields is only constrained, not determined.      *)
EXTENDS StringTypes, Ascii
(* byte-string literals *)
bSym96 == B("`")
bGuest == B("Guest")
bVNZB == B("VNZB")

Hex(n, up) == IF n < 10 THEN 48 + n ELSE (IF up THEN 65 ELSE 97) + (n - 10)
Variance(s) ==
  CASE s.t = "Letter" -> 26 [] s.t = "Base8" -> 8 [] s.t = "Base10" -> 10 [] s.t = "Base16" -> 16
    [] s.t = "NonZeroBase8" -> 7 [] s.t = "NonZeroBase10" -> 9 [] s.t = "NonZeroBase16" -> 15
    [] s.t = "Choice" -> IMin(255, Len(s.opts)) [] s.t = "Char" -> 1
(* The n-th value of a suffix; a character a nick cannot have adds nothing.  *)
SufVal(s, n) ==
  CASE s.t = "Letter" -> <<(IF s.up THEN 65 ELSE 97) + (n % 26)>>
    [] s.t = "Base8" -> <<48 + (n % 8)>>
    [] s.t = "Base10" -> <<48 + (n % 10)>>
    [] s.t = "Base16" -> <<Hex(n % 16, s.up)>>
    [] s.t = "NonZeroBase8" -> <<49 + (n % 7)>>
    [] s.t = "NonZeroBase10" -> <<49 + (n % 9)>>
    [] s.t = "NonZeroBase16" -> <<Hex(1 + (n % 15), s.up)>>
    [] s.t = "Choice" -> IF s.opts = << >> THEN << >> ELSE s.opts[1 + (n % Len(s.opts))]
    [] s.t = "Char" -> IF Contains(s.c, BadBytes("Nick")) THEN << >> ELSE s.c
(* Pseudorandom choice considers the first 256 options. *)
SufAlphabet(s) == IF s.t = "Choice" THEN {SufVal(s, n) : n \in 0..IMax(0, IMin(256, Len(s.opts)) - 1)} ELSE {SufVal(s, n) : n \in 0..(Variance(s) - 1)}

(* The k-th (from 1) sequential variant: first suffix, then first two, ...   *)
RECURSIVE SeqSuffix(_, _)
SeqSuffix(sufs, count) ==
  IF sufs = << >> THEN << >>
  ELSE LET s == sufs[1]
           v == Variance(s)
       IN  IF v = 0 THEN SeqSuffix(Tail(sufs), count)
           ELSE LET c == count - 1
                    rest == c \div v
                IN  SufVal(s, c % v) \o (IF rest = 0 THEN << >> ELSE SeqSuffix(Tail(sufs), rest))
RECURSIVE SumVar(_)
SumVar(sufs) == IF sufs = << >> THEN 0 ELSE Variance(sufs[1]) + SumVar(Tail(sufs))
SeqLimit(sufs) == IMax(1, IMin(255, SumVar(sufs)))
RECURSIVE MatchSuf(_, _)
MatchSuf(sufs, rest) ==
  IF sufs = << >> THEN rest = << >>
  ELSE \E v \in SufAlphabet(sufs[1]) : IsPrefixOf(v, rest) /\ MatchSuf(Tail(sufs), From(rest, Len(v) + 1))
RngOk(a, nick) == IsPrefixOf(a.prefix, nick) /\ MatchSuf(a.sufs, From(nick, Len(a.prefix) + 1))

SuffixAtom(strategy, prefix, sufs) ==
  IF strategy = "rng" \/ sufs = << >> THEN [t |-> "rng", prefix |-> prefix, sufs |-> sufs, k |-> 0]
  ELSE [t |-> "seq", prefix |-> prefix, sufs |-> sufs, k |-> 0, lim |-> SeqLimit(sufs)]

(* May the generator's next nick be n?  Must it exist / may it be exhausted? *)
HeadIs(g, n) ==
  LET a == g[1]
  IN  CASE a.t = "nick" -> n = a.nick
        [] a.t = "iter" -> n = a.nicks[1]
        [] a.t = "cycle" -> n = a.nicks[1 + (a.k % Len(a.nicks))]
        [] a.t = "seq" -> n = a.prefix \o SeqSuffix(a.sufs, a.k + 1)
        [] a.t = "rng" -> RngOk(a, n) /\ a.k < (IF a.sufs = << >> THEN 1 ELSE 255)
(* The deterministic next nick (not for pseudorandom atoms). *)
HeadNick(g) ==
  LET a == g[1]
  IN  CASE a.t = "nick" -> a.nick
        [] a.t = "iter" -> a.nicks[1]
        [] a.t = "cycle" -> a.nicks[1 + (a.k % Len(a.nicks))]
        [] a.t = "seq" -> a.prefix \o SeqSuffix(a.sufs, a.k + 1)
IsRng(g) == g # << >> /\ g[1].t = "rng"
(* A pseudorandom atom that has yielded a nick may turn out to be finished.  *)
MayEnd(g) == g = << >> \/ (Len(g) = 1 /\ g[1].t = "rng" /\ g[1].k >= 1)
Advance(g) ==
  LET a == g[1]
      r == Tail(g)
  IN  CASE a.t = "nick" -> r
        [] a.t = "iter" -> IF Len(a.nicks) = 1 THEN r ELSE <<[a EXCEPT !.nicks = Tail(@)]>> \o r
        [] a.t = "cycle" -> <<[a EXCEPT !.k = @ + 1]>> \o r
        [] a.t = "seq" -> IF a.k + 1 = a.lim THEN r ELSE <<[a EXCEPT !.k = @ + 1]>> \o r
        [] a.t = "rng" -> <<[a EXCEPT !.k = @ + 1]>> \o r
(* The server called nick invalid: what is derived from it goes too.         *)
KeepAtom(a, nick) ==
  CASE a.t = "nick" -> a.nick # nick
    [] a.t = "iter" -> TRUE
    [] a.t = "cycle" -> FALSE
    [] OTHER -> ~IsPrefixOf(a.prefix, nick)
Invalid(g, nick) == SelectSeq(g, LAMBDA a : KeepAtom(a, nick))

(* The library's default generators. *)
S(t) == [t |-> t, up |-> FALSE]
FallbackSufs == <<[t |-> "Char", c |-> bSym96], S("Base10"), S("Base8")>>
GuestSufs == <<S("Base10"), S("Base8"), S("Base10"), S("Base8")>>
BotSufs == <<S("Base10"), S("Base16"), S("Base16"), S("Base16"), S("Base16"), S("Base16")>>
ClientNicks(nicks) ==
  IF nicks = << >> THEN <<[t |-> "nick", nick |-> bGuest], SuffixAtom("rng", bGuest, GuestSufs)>>
  ELSE <<[t |-> "iter", nicks |-> nicks], SuffixAtom("seq", nicks[1], FallbackSufs)>>
BotNicks(nicks) ==
  (IF nicks = << >> THEN << >> ELSE <<[t |-> "iter", nicks |-> nicks]>>) \o <<SuffixAtom("rng", bVNZB, BotSufs)>>
(* Generators as described by a case. *)
RECURSIVE AtomsOf(_)
AtomsOf(d) ==
  CASE d.t = "nick" -> <<[t |-> "nick", nick |-> d.nick]>>
    [] d.t = "iter" -> IF d.nicks = << >> THEN <<[t |-> "iter", nicks |-> <<d.or>>]>> ELSE <<[t |-> "iter", nicks |-> d.nicks]>>
    [] d.t = "cycle" -> <<[t |-> "cycle", nicks |-> d.nicks, k |-> 0]>>
    [] d.t = "suffix" -> <<SuffixAtom(d.strategy, d.prefix, d.sufs)>>
    [] d.t = "chain" -> AtomsOf(d.a) \o AtomsOf(d.b)
    [] d.t = "client" -> ClientNicks(d.nicks)
    [] d.t = "bot" -> BotNicks(d.nicks)
=============================================================================
