-------------------------------- MODULE J_Reg ------------------------------
(* Judges recorded registrations and, on their own, SASL exchanges, nick     *)
(* generators, base64 chunking and capability requests.                      *)
EXTENDS Register, Judge

(* The request lines must jointly ask for each capability exactly once, none *)
(* empty, and the server's answer to each must fit in a message.             *)
ReqCaps(l) == LET p == ParseLine("client", l) IN CapWords(p.args[2])
ReqLineOk(l, srclen, nicklen) ==
  LET p == ParseLine("client", l)
  IN  IF ~p.ok THEN FALSE
      ELSE IF p.kind # kCAP \/ Len(p.args) # 2 THEN FALSE
      ELSE /\ p.args[1] = kREQ
           /\ CapWords(p.args[2]) # << >>
           /\ \/ Len(CapWords(p.args[2])) = 1
              \/ /\ Len(l) <= 510
                 \* ":source CAP nick ACK :caps"
                 /\ (IF srclen = 0 THEN 0 ELSE srclen + 2) + 3 + 1 + nicklen + 1 + 3 + 2 + Len(p.args[2]) <= 510
ReqOk(lines, caps, srclen, nicklen) ==
  /\ lines # << >>
  /\ \A k \in 1..Len(lines) : ReqLineOk(lines[k], srclen, nicklen)
  /\ LET all == Cat(MapSeq(ReqCaps, lines)) IN Range(all) = caps /\ Len(all) = Cardinality(caps)

SameRes(exp, o) ==
  IF exp = << >> THEN o.r = << >>
  ELSE IF o.r = << >> THEN FALSE
  ELSE IF exp[1] = "ok" THEN o.r[1] = "ok"
  ELSE IF o.r[1] # "err" \/ exp[1] # "err" THEN FALSE
  ELSE IF exp[2] # o.r[2] THEN FALSE
  ELSE CASE exp[2] \in {"NoAccess", "ServerError"} -> o.r[3] = exp[3]
         [] exp[2] = "MissingCaps" -> Range(o.r[3]) = exp[3]
         [] exp[2] = "Redirect" -> o.r[3] = exp[3] /\ o.r[4] = exp[4] /\ o.r[5] = exp[5]
         [] OTHER -> TRUE
SavedOk(s, d) ==
  /\ d.src = OwnSource(s)
  /\ d.acct = s.acct
  /\ {<<p[1], p[2], p[3]>> : p \in Range(d.caps)} = s.caps /\ Len(d.caps) = Cardinality(s.caps)
  /\ {<<p[1], p[2]>> : p \in Range(d.isup)} = s.isup /\ Len(d.isup) = Cardinality(s.isup)
  /\ d.server = s.src
  /\ d.ver = s.ver
  /\ d.len = SourceLen(OwnSource(s), s.isup)
RECURSIVE Walk(_, _, _, _)
Walk(s, lines, outs, k) ==
  IF k > Len(outs) THEN k > Len(lines)
  ELSE LET m == ParseLine("server", lines[k])
           o == outs[k]
           r == RStep(s, m, o.out)
       IN  /\ m.ok
           /\ IF r.req = << >> THEN o.out = r.out ELSE ReqOk(o.out, r.req[1], IF s.src # << >> \/ m.src # << >> THEN Len(WriteSource(r.s.src)) ELSE 0, Len(s.nick))
           /\ o.chal = r.chal
           /\ SameRes(r.r, o)
           /\ IF r.r = << >> THEN Walk(r.s, lines, outs, k + 1)
              ELSE IF r.r[1] = "ok" THEN Len(outs) = k /\ SavedOk(r.s, o.saved)
              ELSE Len(outs) = k /\ o.saved = << >>
OnceOk(c, lines, out) ==
  LET b == out.burst
      p == IF b = << >> THEN [ok |-> FALSE] ELSE ParseLine("client", b[Len(b)])
  IN  IF ~p.ok THEN FALSE
      ELSE IF p.kind # kNICK \/ Len(p.args) # 1 THEN FALSE
      ELSE /\ HeadIs(Gen0(c), p.args[1])
           /\ b = Burst(c, p.args[1])
           /\ Walk(RInit(c, p.args[1]), lines, out.steps, 1)
(* A client that lost its session registers as if it never had one. *)
RegOk(e) ==
  /\ OnceOk(e.c, e.lines, e.out)
  /\ Len(e.out.again) = Len(e.again)
  /\ \A k \in 1..Len(e.again) : e.out.again[k].clean /\ OnceOk(e.c, e.again[k], e.out.again[k])

(* ---- SASL handler on its own ---- *)
RECURSIVE SWalk(_, _, _, _)
SWalk(s, ops, outs, k) ==
  IF k > Len(outs) THEN k > Len(ops)
  ELSE LET o == outs[k]
           op == ops[k]
       IN  IF op.k = "retain" THEN
             LET r == SaslRetain(s, Range(op.names))
             IN  o.r = <<r.r>> /\ (r.r = "all" => Len(outs) = k) /\ o.out = << >> /\ o.auth = AuthLine(r.s.cur.name) /\ SWalk(r.s, ops, outs, IF r.r = "all" THEN Len(ops) + 1 ELSE k + 1)
           ELSE LET m == ParseLine("server", op.l)
                    r == SaslStep(s, m)
                IN  /\ m.ok
                    /\ o.out = r.out
                    /\ o.chal = r.chal
                    /\ o.auth = AuthLine(r.s.cur.name)
                    /\ CASE r.r = "more" -> o.r = << >> /\ SWalk(r.s, ops, outs, k + 1)
                         [] r.r = "done" -> o.r = <<"done">> /\ Len(outs) = k
                         [] OTHER -> o.r = <<"err">> \o r.err /\ Len(outs) = k
SaslOk(e) ==
  LET ms == MechsOf(e.sasl)
  IN  IF ms = << >> THEN e.out.first = << >> /\ e.out.steps = << >>
      ELSE e.out.first = <<AuthLine(ms[1].name)>> /\ SWalk(SaslInit(ms), e.ops, e.out.steps, 1)

(* ---- nick generators: peek, advance, invalid ---- *)
RECURSIVE NWalk(_, _, _, _)
NWalk(g, ops, outs, k) ==
  IF k > Len(outs) THEN k > Len(ops) \/ MayEnd(g)
  ELSE LET op == ops[k]
           o == outs[k]
       IN  IF op.k = "next" THEN
             /\ g # << >>
             /\ HeadIs(g, o.nick)
             /\ Valid("Nick", o.nick)
             /\ o.peek = o.nick
             /\ LET g1 == Advance(g)
                IN  IF o.more THEN g1 # << >> /\ NWalk(g1, ops, outs, k + 1)
                    ELSE MayEnd(g1) /\ Len(outs) = k
           ELSE LET g1 == Invalid(g, op.nick)
                IN  IF o.more THEN g1 # << >> /\ NWalk(g1, ops, outs, k + 1) ELSE g1 = << >> /\ Len(outs) = k
NoRngInside(g) == \A j \in 1..Len(g) : g[j].t = "rng" => j = Len(g)
NickOk(e) == NoRngInside(AtomsOf(e.d)) /\ NWalk(AtomsOf(e.d), e.ops, e.out.steps, 1) /\ e.out.again

(* ---- base64 chunks ---- *)
RECURSIVE DWalk(_, _, _, _)
DWalk(buf, chunks, outs, max) ==
  IF chunks = << >> THEN TRUE
  ELSE LET f == Feed64(buf, chunks[1], max)
       IN  /\ outs[1] = (IF f.done THEN <<"done", f.res>> ELSE <<"more", << >>>>)
           /\ DWalk(f.buf, Tail(chunks), Tail(outs), max)
B64Ok(e) ==
  IF e.k = "enc" THEN
    LET ch == Chunks(e.b, e.max)
    IN  /\ e.out.chunks = ch
        /\ e.out.lens = [j \in 1..(Len(ch) + 1) |-> Len(ch) + 1 - j]
        /\ e.out.secret = (ch # << >> /\ e.secret)
        /\ (e.max > 1 => e.out.back = <<e.b>>)
  ELSE Len(e.out) = Len(e.chunks) /\ DWalk(<< >>, e.chunks, e.out, e.max)

(* ---- cap::req on its own ---- *)
CapReqOk(e) ==
  LET srclen == IF e.src = << >> THEN 0 ELSE Len(e.src)
      nicklen == IF e.nick = << >> THEN 1 ELSE Len(e.nick[1])
  IN  IF e.caps = << >> THEN TRUE ELSE ReqOk(e.out, Range(e.caps), srclen, nicklen)
(* ---- default_caps ---- *)
DefCapsOk(e) == Range(e.out) = Wanted(Range(e.caps), e.common, e.require, Range(e.avail)) /\ Len(e.out) = Cardinality(Range(e.out))

Accepts(e) ==
  e.st = "ok" /\
  CASE e.op = "reg" -> RegOk(e)
    [] e.op = "sasl" -> SaslOk(e)
    [] e.op = "nick" -> NickOk(e)
    [] e.op = "b64" -> B64Ok(e)
    [] e.op = "capreq" -> CapReqOk(e)
    [] e.op = "defcaps" -> DefCapsOk(e)
Conforms == Accepts(Trace[lineNo])
=============================================================================
