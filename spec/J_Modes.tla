------------------------------- MODULE J_Modes -----------------------------
(* Judges recorded behaviours of mode sets, mode tables, status prefixes and *)
(* typed tokens.                                                             *)
EXTENDS Modes, Judge
Rev(s) == SubSeq([j \in 1..Len(s) |-> s[Len(s) + 1 - j]], 1, Len(s))
(* Taking from both ends: "f" or "b" for each step; what is left is counted. *)
RECURSIVE Ends(_, _, _)
Ends(s, script, k) ==
  IF k > Len(script) THEN << >>
  ELSE IF s = << >> THEN <<<<0, 0>>>> \o Ends(s, script, k + 1)
  ELSE LET x == IF script[k] = "f" THEN s[1] ELSE s[Len(s)]
           r == IF script[k] = "f" THEN Tail(s) ELSE Upto(s, Len(s) - 1)
       IN  <<<<x, Len(r)>>>> \o Ends(r, script, k + 1)
SetOk(d, S, others, script) ==
  LET o == Ordered(S)
  IN  /\ d.it = o /\ d.back = Rev(o) /\ d.len = Len(o) /\ d.empty = (S = {}) /\ d.disp = o
      /\ d.has = MapSeq(LAMBDA l : l \in S, AllLetters)
      /\ d.ends = Ends(o, script, 1)
      /\ d.cmp = MapSeq(LAMBDA x : SetCmp(S, x), others)
      /\ \A j \in 1..Len(others) : d.same[j] = (S = others[j])
TypesOk(d, t) ==
  /\ d.disp = ShowTypes(t)
  /\ d.get = MapSeq(LAMBDA l : GetType(t, l), AllLetters)
  /\ d.again                                \* parsing the displayed text gives an equal table
RECURSIVE MdWalk(_, _, _, _, _)
MdWalk(st, ops, outs, k, script) ==
  IF k > Len(ops) THEN Len(outs) = Len(ops)
  ELSE IF k > Len(outs) THEN FALSE
  ELSE LET r == MdStep(st, ops[k])
           d == outs[k]
       IN  /\ d.r = r.r
           /\ \A j \in 1..3 : SetOk(d.s[j], r.st.s[j], r.st.s, script)
           /\ TypesOk(d.t, r.st.t)
           /\ MdWalk(r.st, ops, outs, k + 1, script)
StatusOk(e) ==
  LET p == ParseStatus(e.b)
      d == e.out
  IN  /\ d.ok = p.ok
      /\ p.ok => /\ d.has = MapSeq(LAMBDA l : PrefixOf(p.map, l) # -1, AllLetters)
                 /\ d.pre = MapSeq(LAMBDA l : IMax(0, PrefixOf(p.map, l)), AllLetters)
                 /\ d.mode = SubSeq([b \in 1..255 |-> ModeOf(p.map, b)], 1, 255)
ChanOk(e) == e.out = MapSeq(LAMBDA l : ChanMode(e.cm, e.px, l), AllLetters)
(* A token lookup: absent tokens give nothing; PREFIX is judged by its table. *)
TokOk(e) ==
  IF ~e.present THEN e.out = [k |-> "none"]
  ELSE IF e.tok = "PREFIX" THEN
    LET p == ParseStatus(e.b)
    IN  IF p.ok THEN e.out.k = "ok" /\ e.out.v = MapSeq(LAMBDA l : PrefixOf(p.map, l), AllLetters) ELSE e.out = err
  ELSE e.out \in TokenValues(e.tok, e.b)
LetterOk(e) ==
  LET d == e.out
      valid == e.b \in Letters
  IN  /\ d.ok = valid
      /\ valid => /\ d.u8 = e.b /\ d.ch = e.b /\ d.disp = <<e.b>> /\ d.arg = <<e.b>>
                  /\ d.cmp = MapSeq(LAMBDA l : IF Rank(e.b) < Rank(l) THEN "lt" ELSE IF l = e.b THEN "eq" ELSE "gt", AllLetters)
TyOk(e) == e.out = <<ListLike(e.ty), NeedsArgSet(e.ty), NeedsArgUnset(e.ty)>>
Accepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE IF e.op = "modes" THEN MdWalk(MInit, e.ops, e.out, 1, e.script)
  ELSE IF e.op = "status" THEN StatusOk(e)
  ELSE IF e.op = "chan" THEN ChanOk(e)
  ELSE IF e.op = "tok" THEN TokOk(e)
  ELSE IF e.op = "letter" THEN LetterOk(e)
  ELSE IF e.op = "mtype" THEN TyOk(e)
  ELSE FALSE
Conforms == Accepts(Trace[lineNo])
=============================================================================
