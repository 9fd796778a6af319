------------------------------ MODULE Register -----------------------------
(* Connection registration as a function of the server's messages.           *)
(* Configuration: [mode, pass, nicks, user, real, sasl, allow, caps,        *)
(*   common, require, gen]; mode "bot"/"client" use the library's defaults.  *)
EXTENDS Sasl, Nicks
(* byte-string literals *)
bPLAIN == B("PLAIN")
bEXTERNAL == B("EXTERNAL")
buser == B("user")
bvnzb_bot == B("vnzb_bot")
bSym63_63_63 == B("???")
bVinezombie_Bot == B("Vinezombie Bot")
b302 == B("302")
b8 == B("8")
bNICKLEN == B("NICKLEN")
bUSERLEN == B("USERLEN")
bHOSTLEN == B("HOSTLEN")
kCAP == B("CAP") kLS == B("LS") kREQ == B("REQ") kEND == B("END") kACK == B("ACK") kNAK == B("NAK")
kNEW == B("NEW") kDEL == B("DEL") kLIST == B("LIST") kNICK == B("NICK") kUSER == B("USER") kPASS == B("PASS")
kPING == B("PING") kPONG == B("PONG") kERROR == B("ERROR") kFAIL == B("FAIL") kSASL == B("sasl") kSTS == B("sts")
kSTAR == B("*")
k001 == B("001") k002 == B("002") k003 == B("003") k004 == B("004") k005 == B("005") k010 == B("010")
k376 == B("376") k422 == B("422") k432 == B("432") k433 == B("433") k436 == B("436") k464 == B("464") k465 == B("465")
CommonCaps == {B("account-notify"), B("account-tag"), B("chghost"), B("extended-join"), B("extended-monitor"),
  B("invite-notify"), B("labeled-response"), B("message-tags"), B("msgid"), B("multi-prefix"), B("server-time"),
  B("setname"), B("standard-replies"), B("userhost-in-names")}

(* What the configuration wants, given what is available. *)
Wanted(caps, common, require, avail) ==
  IF require THEN caps \cup (IF common THEN CommonCaps \cap avail ELSE {})
  ELSE (caps \cup (IF common THEN CommonCaps ELSE {})) \cap avail

(* Configured authenticators -> mechanisms. *)
MechOf(a) ==
  CASE a.kind = "plain" -> <<[name |-> bPLAIN, kind |-> "plain", payload |-> a.zid \o <<0>> \o a.cid \o <<0>> \o a.pw, script |-> << >>, k |-> 0]>>
    [] a.kind = "denied" -> << >>
    [] a.kind = "external" -> <<[name |-> bEXTERNAL, kind |-> "external", payload |-> a.zid, script |-> << >>, k |-> 0]>>
    [] OTHER -> <<[name |-> a.name, kind |-> "script", payload |-> << >>, script |-> a.script, k |-> 0]>>
MechsOf(sasl) == Cat(MapSeq(MechOf, sasl))
Gen0(c) == CASE c.mode = "bot" -> BotNicks(c.nicks) [] c.mode = "client" -> ClientNicks(c.nicks) [] OTHER -> AtomsOf(c.gen)
User0(c) == IF c.user # << >> THEN c.user[1] ELSE IF c.mode = "client" THEN buser ELSE bvnzb_bot
Real0(c) == IF c.real # << >> THEN c.real[1] ELSE IF c.mode = "client" THEN bSym63_63_63 ELSE bVinezombie_Bot
Common0(c) == c.mode = "client" \/ (c.mode = "custom" /\ c.common)
Require0(c) == c.mode = "bot" \/ (c.mode = "custom" /\ c.require)

CapLine(args) == Wire(CLine(kCAP, args))
NickLine(n) == Wire(CLine(kNICK, <<n>>))
(* The opening burst; nick is the (observed) first nick. *)
Burst(c, nick) ==
  (IF c.pass = << >> THEN << >> ELSE <<Wire(CLine(kPASS, c.pass))>>)
  \o <<CapLine(<<kLS, b302>>), Wire(CLine(kUSER, <<User0(c), b8, kSTAR, Real0(c)>>)), NickLine(nick)>>
RInit(c, nick) ==
  [c |-> c, ph |-> "Req", gen |-> Advance(Gen0(c)), auths |-> MechsOf(c.sasl), pend |-> {}, sasl |-> << >>,
   needs |-> ~c.allow /\ MechsOf(c.sasl) # << >>,
   nick |-> nick, uh |-> << >>, acct |-> << >>, src |-> << >>, caps |-> {}, ver |-> << >>, isup |-> {}]

(* ------------------------------- CAP lists ------------------------------ *)
RECURSIVE CapWords(_)
CapWords(line) ==
  LET i == FirstNotIn(line, Ws, 1)
      j == FirstIn(line, {SP}, i)
  IN  IF i > Len(line) THEN << >> ELSE <<SubSeq(line, i, j - 1)>> \o CapWords(From(line, j))
CapPair(w) ==
  LET e == FirstIn(w, {61, 59}, 1)
      k == Upto(w, e - 1)
  IN  IF ~Valid("Key", k) THEN << >>
      ELSE IF e > Len(w) THEN <<<<k, << >>>>>>
      ELSE IF w[e] = 61 THEN <<<<k, From(w, e + 1)>>>>
      ELSE << >>
ParseCap(m) ==
  LET f == Front(m)
  IN  IF m.args = << >> \/ Len(f) < 2 THEN [ok |-> FALSE]
      ELSE LET sub == ToUpper(f[2])
           IN  IF ~Valid("Nick", f[1]) \/ sub \notin {kLS, kLIST, kACK, kNAK, kNEW, kDEL} \/ (Len(f) > 2 /\ f[3] # kSTAR)
               THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, sub |-> sub, last |-> Len(f) = 2,
                     caps |-> PutAll({}, Cat(MapSeq(CapPair, CapWords(LastOr(m)))))]
Mechs(val) == {ToUpper(x) : x \in Range(SplitOn(val, 44))} \ {<< >>}

(* ---------------------------- numeric helpers --------------------------- *)
RECURSIVE Num(_)
Num(d) == IF d = << >> THEN 0 ELSE 10 * Num(Upto(d, Len(d) - 1)) + (d[Len(d)] - 48)
StripZ(d) == LET i == FirstNotIn(d, {48}, 1) IN From(d, i)
U16(d) ==        \* << >> if not a 16-bit decimal number
  IF d = << >> \/ (\E k \in 1..Len(d) : d[k] \notin Digit) THEN << >>
  ELSE LET z == StripZ(d) IN IF Len(z) > 5 THEN << >> ELSE IF Num(z) > 65535 THEN << >> ELSE <<Num(z)>>
U16Plus(d) == IF Len(d) > 1 /\ d[1] = 43 THEN U16(Tail(d)) ELSE U16(d)
RunTail(s, S0) == From(s, LastNotIn(s, S0) + 1)     \* trailing run of bytes in S0
ErrNumeric(k) ==
  LET n == Num(k)
  IN  (n >= 400 /\ n < 569) \/ n \in {691, 696, 723, 902, 904, 905, 906, 907}
IsErrKind(k) == IF IsNumeric(k) THEN ErrNumeric(k) ELSE k \in {kERROR, kFAIL}

(* --------------------------------- steps -------------------------------- *)
(* Result: [s, out (exact lines), req (<< >> or <<caps to request>>), r]     *)
(* with r = << >> (pending), <<"ok">> or <<"err", ...>>.  obs = observed     *)
(* lines, consulted only for pseudorandom nicks.                             *)
Ret(s, out, r) == [s |-> s, out |-> out, req |-> << >>, r |-> r, chal |-> << >>]
E1(k) == <<"err", k>>
E2(k, x) == <<"err", k, x>>

CapFor(s, k) == {p \in s.caps : p[1] = k}
Keys(ps) == {p[1] : p \in ps}
AddNew(caps, ps) == caps \cup {<<p[1], p[2], FALSE>> : p \in {q \in ps : q[1] \notin Keys(caps)}}
AckAll(caps, ps) ==
  {<<p[1], p[2], p[3] \/ p[1] \in Keys(ps)>> : p \in caps} \cup {<<q[1], q[2], TRUE>> : q \in {x \in ps : x[1] \notin Keys(caps)}}

AfterAcks(s, out) ==     \* everything requested is acknowledged
  IF s.auths # << >> THEN Ret([s EXCEPT !.ph = "Sasl", !.sasl = <<SaslInit(s.auths)>>, !.auths = << >>], out \o <<AuthLine(s.auths[1].name)>>, << >>)
  ELSE Ret([s EXCEPT !.ph = "CapEnd"], out, << >>)
LsEnd(s, out) ==
  LET offered == CapFor(s, kSASL)
      val == IF offered = {} THEN << >> ELSE (CHOOSE p \in offered : TRUE)[2]
      auths == IF offered = {} THEN << >>
               ELSE IF Mechs(val) = {} THEN s.auths
               ELSE SelectSeq(s.auths, LAMBDA x : x.name \in Mechs(val))
      avail == Keys(s.caps)
      want == Wanted(Range(s.c.caps), Common0(s.c), Require0(s.c), avail) \cup (IF auths = << >> THEN {} ELSE {kSASL})
      req == want \ {kSTS}
  IN  IF auths = << >> /\ s.needs THEN Ret(s, out, E1("NoLogin"))
      ELSE IF ~(want \subseteq avail) THEN Ret(s, out, E2("MissingCaps", want \ avail))
      ELSE IF req = {} THEN Ret([s EXCEPT !.ph = "CapEnd", !.auths = auths], out, << >>)
      ELSE [Ret([s EXCEPT !.ph = "Ack", !.auths = auths, !.pend = req], out, << >>) EXCEPT !.req = <<req>>]
OnCap(s, m, out) ==
  LET p == ParseCap(m)
  IN  IF ~p.ok THEN Ret(s, out, E1("Broken"))
      ELSE CASE p.sub = kLS /\ p.last ->
                  LET s1 == [s EXCEPT !.caps = AddNew(@, p.caps)]
                  IN  IF s.ph = "Req" THEN LsEnd(s1, out) ELSE Ret(s1, out, << >>)
             [] p.sub = kNEW \/ (p.sub = kLS /\ ~p.last) -> Ret([s EXCEPT !.caps = AddNew(@, p.caps)], out, << >>)
             [] p.sub = kACK ->
                  LET s1 == [s EXCEPT !.caps = AckAll(@, p.caps), !.pend = IF s.ph = "Ack" THEN @ \ Keys(p.caps) ELSE @]
                  IN  IF s.ph = "Ack" /\ s1.pend = {} THEN AfterAcks(s1, out) ELSE Ret(s1, out, << >>)
             [] p.sub \in {kNAK, kDEL} ->
                  LET s1 == IF p.sub = kDEL THEN [s EXCEPT !.caps = {x \in @ : x[1] \notin Keys(p.caps)}] ELSE s
                      lost == IF s.ph = "Ack" THEN s.pend \cap Keys(p.caps) ELSE {}
                  IN  IF lost # {} THEN Ret(s1, out, E2("MissingCaps", lost)) ELSE Ret(s1, out, << >>)
             [] OTHER -> Ret(s, out, E1("Broken"))

NewNick(s, out, obs) ==
  IF s.gen = << >> THEN Ret(s, out, E1("NoNicks"))
  ELSE IF IsRng(s.gen) THEN
    LET k == Len(out) + 1
        p == IF k <= Len(obs) THEN ParseLine("client", obs[k]) ELSE [ok |-> FALSE]
    IN  IF p.ok THEN
          IF p.kind = kNICK /\ Len(p.args) = 1 THEN
            IF HeadIs(s.gen, p.args[1])
            THEN Ret([s EXCEPT !.nick = p.args[1], !.gen = Advance(@)], out \o <<NickLine(p.args[1])>>, << >>)
            ELSE Ret(s, out, <<"bad nick">>)
          ELSE Ret(s, out, <<"bad nick">>)
        ELSE IF MayEnd(s.gen) THEN Ret(s, out, E1("NoNicks"))
        ELSE Ret(s, out, <<"bad nick">>)
  ELSE Ret([s EXCEPT !.nick = HeadNick(s.gen), !.gen = Advance(@)], out \o <<NickLine(HeadNick(s.gen))>>, << >>)

Whoami(s, w, out) ==
  LET p == ParseSource(w)
  IN  IF ~p.ok THEN Ret(s, out, E1("Broken"))
      ELSE Ret([s EXCEPT !.nick = p.v[1], !.uh = IF Len(p.v) = 1 THEN << >> ELSE <<p.v[2], p.v[3]>>], out, << >>)
IsupPair(w) ==
  LET e == FirstIn(w, {61, 59}, 1)
      k == Upto(w, e - 1)
  IN  IF ~Valid("Key", k) \/ (e <= Len(w) /\ w[e] # 61) THEN << >> ELSE <<<<k, From(w, e + 1)>>>>
Redirect5(m) ==
  LET l == LastOr(m)
      c == FirstIn(l, {44}, 1)
      server == RunTail(Upto(l, c - 1), 33..126)
      port == IF c > Len(l) THEN << >> ELSE U16(RunTail(From(l, c + 1), Digit))
  IN  IF port = << >> THEN E2("ServerError", WriteMsg(m)) ELSE <<"err", "Redirect", server, port[1], l>>
Matched(s, m, out, obs) ==
  LET k == m.kind
      w == Words(m)
      f == Front(m)
  IN
  IF k \in {k001, k002, k003, k004} /\ s.needs /\ s.acct = << >> THEN Ret(s, out, E1("NoLogin"))
  ELSE IF k = k001 THEN
    Ret([s EXCEPT !.nick = IF w # << >> THEN IF w[1] # kSTAR /\ Valid("Nick", w[1]) THEN w[1] ELSE @ ELSE @,
                  !.src = IF m.src # << >> THEN m.src ELSE @,
                  !.ph = "AwaitEnd"], out, << >>)
  ELSE IF k = k004 THEN
    IF s.ph = "AwaitEnd" THEN Ret([s EXCEPT !.ver = IF Len(w) >= 3 THEN <<w[3]>> ELSE @], out, << >>)
    ELSE Ret(s, out, E1("Broken"))
  ELSE IF k = k005 THEN
    IF s.ph = "AwaitEnd" THEN
      Ret(IF w = << >> THEN s ELSE [s EXCEPT !.isup = PutAll(@, Cat(MapSeq(IsupPair, Tail(w))))], out, << >>)
    ELSE IF m.args = << >> THEN Ret(s, out, E1("Broken")) ELSE Ret(s, out, Redirect5(m))
  ELSE IF k = k010 THEN
    IF Len(f) = 3 THEN
      LET port == U16Plus(f[3])
      IN  Ret(s, out, IF port = << >> THEN E1("Broken") ELSE <<"err", "Redirect", f[2], port[1], LastOr(m)>>)
    ELSE Ret(s, out, E2("ServerError", WriteMsg(m)))
  ELSE IF k \in {k376, k422} THEN
    IF s.ph = "AwaitEnd" THEN Ret(s, out, <<"ok">>) ELSE Ret(s, out, E1("Broken"))
  ELSE IF k = k432 THEN NewNick([s EXCEPT !.gen = Invalid(@, s.nick)], out, obs)
  ELSE IF k \in {k433, k436} THEN NewNick(s, out, obs)
  ELSE IF k \in {k464, k465} THEN Ret(s, out, E2("NoAccess", LastOr(m)))
  ELSE IF k = k900 THEN
    IF f = << >> THEN Ret(s, out, << >>)
    ELSE LET s1 == [s EXCEPT !.acct = <<f[Len(f)]>>]
         IN  IF Len(f) >= 2 THEN Whoami(s1, f[Len(f) - 1], out) ELSE Ret(s1, out, << >>)
  ELSE IF k = k901 THEN
    LET s1 == [s EXCEPT !.acct = << >>] IN IF f = << >> THEN Ret(s1, out, << >>) ELSE Whoami(s1, f[Len(f)], out)
  ELSE IF k \in {k902, k904, k905, k906, k907} THEN Ret(s, out, << >>)
  ELSE IF k = kCAP THEN OnCap(s, m, out)
  ELSE IF IsErrKind(k) THEN Ret(s, out, E2("ServerError", WriteMsg(m)))
  ELSE Ret(s, out, << >>)

RStep(s0, m, obs) ==
  LET s == IF s0.src = << >> THEN [s0 EXCEPT !.src = m.src] ELSE s0
  IN
  IF m.kind = kPING THEN Ret(s, <<Wire(CLine(kPONG, LastArg(m)))>>, << >>)
  ELSE
  LET sr == IF s.ph = "Sasl" THEN SaslStep(s.sasl[1], m) ELSE SR(<< >>, << >>, "more", << >>, << >>)
      s1 == IF s.ph # "Sasl" THEN s
            ELSE IF sr.r = "more" THEN [s EXCEPT !.sasl = <<sr.s>>]
            ELSE [s EXCEPT !.sasl = << >>, !.ph = "CapEnd"]
      r == Matched(s1, m, sr.out, obs)
      r1 == [r EXCEPT !.chal = sr.chal]
  IN  IF r1.r = << >> /\ r1.s.ph = "CapEnd" THEN
        IF r1.s.needs /\ r1.s.acct = << >> THEN [r1 EXCEPT !.r = E1("NoLogin")]
        ELSE [r1 EXCEPT !.s.ph = "AwaitWelcome", !.out = @ \o <<CapLine(<<kEND>>)>>]
      ELSE r1

(* ------------------------- what success leaves behind ------------------- *)
IsupNum(isup, key, default) ==
  LET h == {p \in isup : p[1] = key}
      n == IF h = {} THEN << >> ELSE U16Plus((CHOOSE p \in h : TRUE)[2])
  IN  IF n = << >> THEN default ELSE IF n[1] = 0 THEN default ELSE n[1]
UserLen(u) == IF u[1] = 126 THEN Len(u) ELSE Len(u) + 1
(* src: << >> (nothing known) or <<nick>> or <<nick, user-option, host>> *)
SourceLen(src, isup) ==
  LET ln == IF src # << >> THEN Len(src[1]) ELSE IsupNum(isup, bNICKLEN, 9)
      lu == IF Len(src) = 3 /\ src[2] # << >> THEN UserLen(src[2][1]) ELSE IsupNum(isup, bUSERLEN, 10)
      lh == IF Len(src) = 3 THEN Len(src[3]) ELSE IsupNum(isup, bHOSTLEN, 64)
  IN  ln + lu + lh + 2
OwnSource(s) == IF s.uh = << >> THEN <<s.nick>> ELSE <<s.nick, s.uh[1], s.uh[2]>>
=============================================================================
