------------------------------- MODULE J_Auto ------------------------------
(* Judges recorded histories of the background handlers.                     *)
EXTENDS Auto, Send, Judge
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(a, x) = Count(b, x)
Octal(t) == t # << >> /\ \A k \in 1..Len(t) : t[k] \in 48..55
(* What adding a handler wrote; the token of a ping is read off it. *)
AddOk(h, o, own, len) ==
  /\ o.len = len
  /\ CASE h.h = "ping" ->
            IF Len(o.out) # 1 THEN FALSE
            ELSE LET p == ParseLine("client", o.out[1])
                 IN  IF ~p.ok THEN FALSE ELSE p.kind = kPING /\ Len(p.args) = 1 /\ Octal(p.args[1])
       [] h.h = "track" -> o.out = IF own = << >> THEN << >> ELSE <<Wire(CLine(kUSERHOST, <<own[1][1]>>))>>
       [] OTHER -> o.out = << >>
TokOf(o) == IF o.out = << >> THEN << >> ELSE LET p == ParseLine("client", o.out[1]) IN IF p.args = << >> THEN << >> ELSE p.args[1]
YieldOk(h, exp, got) ==
  /\ Len(exp) = Len(got)
  /\ \A k \in 1..Len(exp) :
       IF h.h = "all" THEN got[k] = exp[k]
       ELSE /\ {<<p[1], p[2]>> : p \in Range(got[k].tags)} = exp[k].tags
            /\ got[k].src = exp[k].src /\ got[k].target = exp[k].target /\ got[k].value = exp[k].value
RECURSIVE AWalk(_, _, _, _)
AWalk(a, lines, steps, age) ==
  IF steps = << >> THEN TRUE
  ELSE LET o == steps[1]
           m == ParseLine("server", o.fed)
           r == AStep(ADrop(a, Range(lines[1].drop)), m)
           age1 == age + o.ms
       IN  /\ m.ok
           /\ SameBag(r.out, o.out)
           /\ \A j \in 1..Len(a.hs) :
                IF a.hs[j].h = "ping" THEN
                  o.y[j] = IF j \in r.hits THEN <<[src |-> m.src, ms |-> age1]>> ELSE << >>
                ELSE YieldOk(a.hs[j], r.y[j], o.y[j])
           /\ Len(o.yid) = Cardinality(Range(o.yid)) /\ Range(o.yid) = Sent(r)
           /\ Len(o.fin) = Cardinality(Range(o.fin)) /\ Range(o.fin) = r.fin
           /\ o.own = r.a.own
           /\ o.len = r.a.len
           /\ AWalk(r.a, Tail(lines), Tail(steps), age1)
Isup(e) == {<<p[1], p[2]>> : p \in Range(e.isup)}
AutoOk(e) ==
  LET a0 == [own |-> e.own, len |-> OwnLen(e.own, Isup(e)), isup |-> Isup(e), hs |-> e.hs, live |-> 1..Len(e.hs), closed |-> BornClosed(e.hs), seen |-> [j \in 1..Len(e.hs) |-> {}],
             tok |-> MapSeq(TokOf, e.out.adds)]
  IN  /\ Len(e.out.adds) = Len(e.hs)
      /\ \A j \in 1..Len(e.hs) : AddOk(e.hs[j], e.out.adds[j], e.own, a0.len)
      /\ Len(e.out.steps) = Len(e.lines)
      /\ AWalk(a0, e.lines, e.out.steps, 0)
(* The length used when the user part is trusted to have no tilde. *)
TrustLen(src, isup) ==
  IF Len(src) = 3 THEN IF src[2] # << >> THEN SourceLen(src, isup) - (UserLen(src[2][1]) - Len(src[2][1])) ELSE SourceLen(src, isup)
  ELSE SourceLen(src, isup)
LenOk(e) ==
  LET s == IF e.own = << >> THEN << >> ELSE e.own[1]
  IN  e.out = IF e.tilde THEN SourceLen(s, Isup(e)) ELSE TrustLen(s, Isup(e))
(* Handlers that send as told, over a channel of each kind. *)
RECURSIVE SendWalk(_, _, _, _)
SendWalk(s, next, steps, outs) ==
  IF steps = << >> THEN outs = << >>
  ELSE IF outs = << >> THEN FALSE
  ELSE LET p == SPre(s, steps[1].pre)
           r == SRun(p.s, steps[1].ops, next, FALSE, << >>)
           o == outs[1]
       IN  /\ o.got = p.got /\ o.f = 0 /\ o.y = IF r.did THEN 1 ELSE 0
           /\ Len(o.outs) = Len(r.outs)
           /\ \A k \in 1..Len(r.outs) : IF r.outs[k] = "any" THEN o.outs[k] \in {"yes", "no"} ELSE o.outs[k] = r.outs[k]
           /\ SendWalk(r.s, r.next, Tail(steps), Tail(outs))
SendOk(e) == SendWalk(SInit(e.kind), 1, e.steps, e.out)
Accepts(e) == e.st = "ok" /\ CASE e.op = "auto" -> AutoOk(e) [] e.op = "srclen" -> LenOk(e) [] e.op = "send" -> SendOk(e)
Conforms == Accepts(Trace[lineNo])
=============================================================================
