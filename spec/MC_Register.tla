---------------------------- MODULE MC_Register ----------------------------
(* Registration against (Kind = "any") a server that says anything from a    *)
(* small alphabet in any order, and (Kind = "session") a conforming server   *)
(* that reacts to what the client wrote, with its own choices.               *)
EXTENDS Register, Json
(* byte-string literals *)
bu == B("u")
bp == B("p")
bz == B("z")
bX_ONE == B("X-ONE")
ba == B("a")
bA == B("A")
bC == B("C")
bZ == B("Z")
bx == B("x")
bx_sasl == B("x sasl")
bx_sasl_PLAIN_EXTERNAL_X_ONE == B("x sasl=PLAIN,EXTERNAL,X-ONE")
bsasl_EXTERNAL == B("sasl=EXTERNAL")
bs_CAP == B(":s CAP * ")
bSym32_58 == B(" :")
bs_CAP_LS == B(":s CAP * LS :")
bs_CAP_LS_x == B(":s CAP * LS * :x")
bs_CAP_LS_sasl == B(":s CAP * LS :sasl")
bACK == B("ACK")
bNAK == B("NAK")
bAUTHENTICATE == B("AUTHENTICATE +")
bs_908_A_EXTERNAL_PLAIN_mechs == B(":s 908 A EXTERNAL,PLAIN :mechs")
bs_904_A_no == B(":s 904 A :no")
bs_900_A_A_u_h_acc_in == B(":s 900 A A!u@h acc :in")
bs_903_A_ok == B(":s 903 A :ok")
bAUTHENTICATE_Zm9v == B("AUTHENTICATE Zm9v")
bs_906_A_aborted == B(":s 906 A :aborted")
bs_433 == B(":s 433 * ")
bused == B(" :used")
bs_432 == B(":s 432 * ")
bbad == B(" :bad")
bs_001 == B(":s 001 ")
bhi == B(" :hi")
bs_004_A_s_v == B(":s 004 A s v")
bs_005_A_NICKLEN_20_ok == B(":s 005 A NICKLEN=20 :ok")
bs_376_A_end == B(":s 376 A :end")
bPING_t == B("PING t")
bs_422_A_none == B(":s 422 A :none")
bPONG_t == B("PONG t")
CONSTANTS MaxLines, Emit, Kind, Small
VARIABLES conf, rs, hist, wrote, res, sent, todo, rej, gone, kinds, auths, base
vars == <<conf, rs, hist, wrote, res, sent, todo, rej, gone, kinds, auths, base>>
(* hist: server lines; wrote: client lines (cap requests as <<"REQ", set>>); *)
(* sent: nicks sent; todo: session server's pending obligations; rej:        *)
(* mechanisms the server rejected; gone: nicks called invalid; kinds: kinds  *)
(* of hist; auths: arguments of the AUTHENTICATE lines written.              *)

Plain == [kind |-> "plain", zid |-> << >>, cid |-> bu, pw |-> bp, via |-> "plain", name |-> bPLAIN, script |-> << >>]
Ext == [kind |-> "external", zid |-> bz, cid |-> << >>, pw |-> << >>, via |-> "", name |-> bEXTERNAL, script |-> << >>]
Scr == [kind |-> "script", zid |-> << >>, cid |-> << >>, pw |-> << >>, via |-> "", name |-> bX_ONE, script |-> <<<<ba>>, << >>>>]
SaslSets == IF Small THEN {<< >>, <<Plain>>, <<Plain, Ext>>} ELSE {<< >>, <<Plain>>, <<Ext>>, <<Scr>>, <<Plain, Ext>>, <<Scr, Plain>>, <<Plain, Scr, Ext>>}
GenD == [t |-> "iter", nicks |-> <<bA, bC>>, or |-> bZ, viaor |-> FALSE]
GenS == [t |-> "chain", using |-> FALSE, a |-> [t |-> "nick", nick |-> bA], b |-> [t |-> "suffix", strategy |-> "seq", prefix |-> bA, sufs |-> <<S("Base8")>>, seed |-> 0]]
Configs ==
  {[mode |-> m, pass |-> << >>, nicks |-> <<bA, bC>>, user |-> << >>, real |-> << >>, sasl |-> a, allow |-> al,
    caps |-> k, common |-> FALSE, require |-> q, gen |-> g] :
     m \in (IF Small THEN {"custom"} ELSE {"custom", "client"}), a \in SaslSets, al \in BOOLEAN, k \in {<< >>, <<bx>>}, q \in BOOLEAN,
     g \in (IF Small THEN {GenD} ELSE {GenD, GenS})}

(* ------------------------------- any server ----------------------------- *)
AnyLines == <<
  B(":s CAP * LS :x sasl"), B(":s CAP * LS :x"), B(":s CAP * LS * :x sasl=EXTERNAL,X-ONE"), B(":s CAP * LS :sts=1"),
  B(":s CAP * ACK :x"), B(":s CAP * ACK :sasl"), B(":s CAP * ACK :x sasl"), B(":s CAP * NAK :x"), B(":s CAP * DEL :sasl"), B(":s CAP * NEW :sasl"),
  B("AUTHENTICATE +"), B("AUTHENTICATE Zg=="), B("AUTHENTICATE !"), B(":s 900 A A!u@h acc :in"), B(":s 901 A A!u@h :out"),
  B(":s 903 A :ok"), B(":s 904 A :no"), B(":s 905 A :long"), B(":s 906 A :aborted"), B(":s 907 A :already"), B(":s 908 A EXTERNAL,X-ONE :mechs"),
  B("PING t"), B(":s 433 * A :used"), B(":s 432 * A :bad"), B(":s 001 C :hi"), B(":s 004 C s v"), B(":s 005 C NICKLEN=20 :ok"), B(":s 376 C :end"),
  B("ERROR :x"), B(":s 464 * :pw"), B(":s 372 C :motd")>>

(* ------------------------------ session server -------------------------- *)
(* todo: a sequence of items the server still owes an answer to.             *)
CapsText(set) ==
  LET RECURSIVE Put(_)
      Put(x) == IF x = {} THEN << >> ELSE LET e == CHOOSE y \in x : \A z \in x : z = y \/ LexLess(y, z) IN <<e>> \o Put(x \ {e})
  IN  Join(Put(set), <<32>>)
Offers == {bx_sasl, bx_sasl_PLAIN_EXTERNAL_X_ONE, bsasl_EXTERNAL, bx, << >>}
AckOf(set, verb) == bs_CAP \o verb \o bSym32_58 \o CapsText(set)
(* The server's possible answers (sequences of lines) to one item. *)
Answers(it) ==
  CASE it[1] = "LS" -> {<<bs_CAP_LS \o o>> : o \in Offers} \cup {<<bs_CAP_LS_x, bs_CAP_LS_sasl>>}
    [] it[1] = "REQ" -> {<<AckOf(it[2], bACK)>>, <<AckOf(it[2], bNAK)>>} \cup
         {<<AckOf({y}, bACK), AckOf(it[2] \ {y}, bACK)>> : y \in {z \in it[2] : Cardinality(it[2]) > 1}}
    [] it[1] = "MECH" -> {<<bAUTHENTICATE>>, <<bs_908_A_EXTERNAL_PLAIN_mechs, bs_904_A_no>>, <<bs_904_A_no>>}
    [] it[1] = "DATA" -> {<<bs_900_A_A_u_h_acc_in, bs_903_A_ok>>, <<bs_904_A_no>>, <<bAUTHENTICATE_Zm9v>>}
    [] it[1] = "ABORT" -> {<<bs_906_A_aborted>>}
    [] it[1] = "NICK" -> {<< >>} \cup (IF Len(sent) < 4 THEN {<<bs_433 \o it[2] \o bused>>, <<bs_432 \o it[2] \o bbad>>} ELSE {})
    [] it[1] = "END" -> {<<bs_001 \o it[2] \o bhi, bs_004_A_s_v, bs_005_A_NICKLEN_20_ok, bs_376_A_end>>,
                         <<bPING_t, bs_001 \o it[2] \o bhi, bs_422_A_none>>}
(* What the client's line obliges the server to. *)
Owed(l, lastMech) ==
  LET p == ParseLine("client", l)
  IN  IF p.kind = kAUTH THEN
        IF p.args[1] = kSTAR THEN <<<<"ABORT">>>>
        ELSE IF p.args[1] \in {bPLAIN, bEXTERNAL, bX_ONE} THEN <<<<"MECH">>>> ELSE <<<<"DATA">>>>
      ELSE IF p.kind = kNICK THEN <<<<"NICK", p.args[1]>>>>
      ELSE IF p.kind = kCAP THEN IF p.args[1] = kLS THEN <<<<"LS">>>> ELSE IF p.args[1] = kEND THEN <<<<"END", << >>>>>> ELSE << >>
      ELSE << >>

ArgOf(k, ls) == Cat(MapSeq(LAMBDA l : LET p == ParseLine("client", l) IN IF p.kind = k THEN p.args ELSE << >>, ls))
EndLine == CapLine(<<kEND>>)
PongT == bPONG_t
(* Apply a sequence of server lines. *)
RECURSIVE Apply(_, _)
Apply(x, ls) ==
  IF ls = << >> \/ x.res # << >> THEN x
  ELSE LET m == ParseLine("server", ls[1])
           r == RStep(x.s, m, << >>)
       IN  Apply([s |-> r.s, res |-> r.r, hist |-> Append(x.hist, ls[1]), wrote |-> x.wrote \o r.out,
                  req |-> IF r.req # << >> THEN r.req ELSE x.req,
                  rej |-> IF x.s.ph = "Sasl" /\ m.kind \in {k902, k904} THEN x.rej \cup {x.s.sasl[1].cur.name} ELSE x.rej,
                  gone |-> IF m.kind = k432 THEN x.gone \cup {x.s.nick} ELSE x.gone,
                  kinds |-> Append(x.kinds, m.kind)], Tail(ls))
(* Conversations may start some way in. *)
Prefixes ==
  IF Kind = "session" THEN {<< >>}
  ELSE {<< >>, <<1>>, <<1, 7>>, <<1, 7, 11>>, <<1, 7, 11, 14, 16>>, <<1, 7, 11, 14, 16, 25>>, <<1, 5, 6, 25, 26>>, <<2, 5, 25>>, <<4, 23, 24>>}
Start(cf, p) ==
  Apply([s |-> RInit(cf, HeadNick(Gen0(cf))), res |-> << >>, hist |-> << >>, wrote |-> << >>, req |-> << >>, rej |-> {}, gone |-> {}, kinds |-> << >>],
        MapSeq(LAMBDA k : AnyLines[k], p))
Init ==
  /\ conf \in Configs
  /\ \E p \in Prefixes :
       LET x == Start(conf, p)
           n == HeadNick(Gen0(conf))
       IN  /\ rs = x.s /\ res = x.res /\ hist = x.hist /\ rej = x.rej /\ gone = x.gone /\ kinds = x.kinds /\ wrote = x.wrote
           /\ sent = <<n>> \o ArgOf(kNICK, x.wrote)
           /\ auths = ArgOf(kAUTH, x.wrote)
           /\ base = Len(x.hist)
           /\ todo = IF Kind = "session" THEN Cat(MapSeq(LAMBDA l : Owed(l, << >>), Burst(conf, n))) ELSE << >>
Take(ls, rest) ==
  LET x == Apply([s |-> rs, res |-> << >>, hist |-> hist, wrote |-> << >>, req |-> << >>, rej |-> rej, gone |-> gone, kinds |-> kinds], ls)
  IN  /\ rs' = x.s /\ res' = x.res /\ hist' = x.hist /\ rej' = x.rej /\ gone' = x.gone
      /\ wrote' = wrote \o x.wrote
      /\ kinds' = x.kinds /\ auths' = auths \o ArgOf(kAUTH, x.wrote)
      /\ sent' = sent \o ArgOf(kNICK, x.wrote)
      /\ todo' = IF Kind = "any" THEN << >>
                 ELSE rest \o (IF x.req = << >> THEN << >> ELSE <<<<"REQ", x.req[1]>>>>) \o Cat(MapSeq(LAMBDA l : Owed(l, << >>), x.wrote))
      /\ UNCHANGED <<conf, base>>
NextAny == Kind = "any" /\ res = << >> /\ Len(hist) < base + MaxLines /\ \E k \in 1..Len(AnyLines) : Take(<<AnyLines[k]>>, << >>)
(* Obligations are met in order, except that the welcome comes last and only *)
(* once a nick is accepted.                                                  *)
NextSession ==
  /\ Kind = "session" /\ res = << >> /\ todo # << >>
  /\ IF todo[1][1] = "END" /\ Len(todo) > 1 THEN todo' = Append(Tail(todo), todo[1]) /\ UNCHANGED <<conf, rs, hist, wrote, res, sent, rej, gone, kinds, auths, base>>
     ELSE \E a \in Answers(IF todo[1][1] = "END" THEN <<"END", rs.nick>> ELSE todo[1]) : Take(a, Tail(todo))
Done == res # << >> /\ UNCHANGED vars
Next == NextAny \/ NextSession \/ (Kind = "session" /\ ~Emit /\ Done)
Spec == Init /\ [][Next]_vars
View == <<conf, rs, res, sent, todo, rej, gone, Len(SelectSeq(wrote, LAMBDA l : l = EndLine)), Len(hist) - base>>

(* ------------------------------- properties ----------------------------- *)
(* Independent reading of the history: who is logged in. *)
LoggedIn ==
  LET idx == {k \in 1..Len(hist) : kinds[k] \in {k900, k901}}
  IN  IF idx = {} THEN FALSE ELSE kinds[MaxOf(idx)] = k900
Needs == ~conf.allow /\ conf.sasl # << >>
Ends == {k \in 1..Len(wrote) : wrote[k] = EndLine}
Welcomed == \E k \in 1..Len(hist) : kinds[k] = k001
AccountTracks == (rs.acct # << >>) <=> LoggedIn
LoginRequired == (Needs /\ res = << >> /\ (Ends # {} \/ Welcomed)) =>
   \E k \in 1..Len(hist) : kinds[k] = k900
SuccessLoggedIn == (Needs /\ res = <<"ok">>) => \E k \in 1..Len(hist) : kinds[k] = k900
NoLoginOnlyIfNeeded == (res # << >> /\ ~Needs) => res # E1("NoLogin")
EndOnce == Cardinality(Ends) <= 1
EndClean == Ends # {} => rs.pend = {} /\ rs.ph \in {"AwaitWelcome", "AwaitEnd"} /\ rs.sasl = << >>
PongPerPing == Len(SelectSeq(wrote, LAMBDA l : l = PongT)) = Cardinality({k \in 1..Len(hist) : kinds[k] = kPING})
MissingExact == (res # << >> /\ Len(res) > 1) => (res[2] = "MissingCaps" => res[3] # {} /\ res[3] \subseteq (Range(conf.caps) \cup {kSASL}))
SuccessComplete == res = <<"ok">> => Welcomed
(* Only configured mechanisms are begun, in order of preference, and one the *)
(* server rejected is not begun again.                                       *)
Begun == SelectSeq(auths, LAMBDA n : n \in {a.name : a \in Range(conf.sasl)})
Rank(n) == MinOf({k \in 1..Len(conf.sasl) : conf.sasl[k].name = n})
MechOrder == \A a, b \in 1..Len(Begun) : a < b => Rank(Begun[a]) <= Rank(Begun[b])
NeverRetry == rs.ph = "Sasl" => rs.sasl[1].cur.name \notin rej
(* Nicks are tried in the generator's order, each once, none after being     *)
(* called invalid.                                                           *)
RECURSIVE Enum(_)
Enum(g) == IF g = << >> THEN << >> ELSE <<HeadNick(g)>> \o Enum(Advance(g))
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
NickOrder == SubSeqOf(sent, Enum(Gen0(conf)))
NotAfterInvalid == \A n \in gone : \A j, k \in 1..Len(sent) : (sent[j] = n /\ sent[k] = n) => j = k
NoNicksTruly == res = E1("NoNicks") => \A k \in 1..Len(Enum(Gen0(conf))) :
   \/ Enum(Gen0(conf))[k] \in Range(sent)
   \/ \E n \in gone : IsPrefixOf(SubSeq(Enum(Gen0(conf))[k], 1, 1), n)
(* A conforming server: the outcome is success, or one of the causes the     *)
(* server really gave.                                                       *)
SessionOutcome == (Kind = "session" /\ res # << >> /\ res # <<"ok">>) =>
   res[2] \in {"NoLogin", "MissingCaps", "NoNicks"}
SessionNoStall == (Kind = "session" /\ todo = << >>) => res # << >>
Emitted == (Emit /\ (res # << >> \/ Len(hist) >= base + MaxLines)) => PrintT("@@" \o ToJson([op |-> "reg", c |-> conf, lines |-> hist, again |-> <<hist>>]))
=============================================================================
