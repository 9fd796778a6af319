------------------------------- MODULE Serde -------------------------------
(* Messages, settings and strings stored in and loaded from structured data. *)
(* A document of a message is the record                                     *)
(*   tags : sequence of <<key, value>>   src : as in Msg                     *)
(*   kind : <<"n", number>> or <<"s", text>>   args : sequence of texts      *)
(* with nothing known about its parts.  Loading either refuses it or gives   *)
(* the message it describes; storing and loading gives the message back.     *)
EXTENDS Msg, Base64
No == [ok |-> FALSE]
All(s, P(_)) == \A j \in 1..Len(s) : P(s[j])
Three(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
NumOf(k) == (k[1] - 48) * 100 + (k[2] - 48) * 10 + k[3] - 48
LoadStr(t, b) == IF Valid(t, b) THEN [ok |-> TRUE, v |-> b] ELSE No
TagsOk(ts) == All(ts, LAMBDA p : Valid("Key", p[1]) /\ Valid("NoNul", p[2]))
SrcOkD(s) ==
  IF s = << >> THEN TRUE
  ELSE /\ Valid("Nick", s[1])
       /\ IF Len(s) = 1 THEN TRUE
          ELSE (IF s[2] = << >> THEN TRUE ELSE Valid("User", s[2][1])) /\ Valid("Word", s[3])
KindOk(side, k) ==
  IF k[1] = "n" THEN side = "server" /\ k[2] \in 0..999 ELSE Valid("Cmd", k[2])
ArgsOk(a) ==
  IF a = << >> THEN TRUE
  ELSE All(Upto(a, Len(a) - 1), LAMBDA w : Valid("Arg", w)) /\ Valid("Line", a[Len(a)])
LongOf(a) == IF a = << >> THEN FALSE ELSE ~Valid("Arg", a[Len(a)])
LoadMsg(side, d) ==
  IF TagsOk(d.tags) /\ (side = "client" \/ SrcOkD(d.src)) /\ KindOk(side, d.kind) /\ ArgsOk(d.args)
  THEN [ok |-> TRUE, tags |-> PutAll({}, d.tags), src |-> IF side = "client" THEN << >> ELSE d.src,
        kind |-> IF d.kind[1] = "n" THEN Three(d.kind[2]) ELSE d.kind[2], args |-> d.args, long |-> LongOf(d.args)]
  ELSE No
StoreMsg(m) ==
  [tags |-> SortTags(m.tags), src |-> m.src,
   kind |-> IF IsNumeric(m.kind) THEN <<"n", NumOf(m.kind)>> ELSE <<"s", m.kind>>, args |-> m.args]
(* Whatever was loaded, its parts obey the rules of their types.             *)
GoodMsg(m) ==
  /\ \A p \in m.tags : Valid("Key", p[1]) /\ Valid("NoNul", p[2])
  /\ SrcOkD(m.src)
  /\ IsNumeric(m.kind) \/ Valid("Cmd", m.kind)
  /\ ArgsOk(m.args) /\ m.long = LongOf(m.args)
(* Registration options.  Absent fields are << >>, present ones <<value>>;   *)
(* secrets are base64 texts.                                                 *)
Opt(o, d) == IF o = << >> THEN d ELSE o[1]
Secret(t, b) == LET r == Dec64(b) IN IF r = << >> THEN No ELSE LoadStr(t, r[1])
SaslOk(a) ==
  IF a.k = "ext" THEN Valid("NoNul", a.authzid)
  ELSE Valid("NoNul", Opt(a.az, << >>)) /\ Valid("NoNul", a.authcid) /\ Secret("NoNul", a.passwd).ok
SaslSends(a) ==           \* names and first replies of the mechanisms it stands for
  IF a.k = "ext" THEN <<<<"EXTERNAL", a.authzid>>>>
  ELSE IF a.deny THEN << >>
  ELSE <<<<"PLAIN", Opt(a.az, << >>) \o <<0>> \o a.authcid \o <<0>> \o Secret("NoNul", a.passwd).v>>>>
LoadOpts(d) ==
  IF /\ (IF d.pass = << >> THEN TRUE ELSE Secret("Line", d.pass[1]).ok)
     /\ All(Opt(d.nicks, << >>), LAMBDA n : Valid("Nick", n))
     /\ (IF d.user = << >> THEN TRUE ELSE Valid("User", d.user[1]))
     /\ (IF d.real = << >> THEN TRUE ELSE Valid("Line", d.real[1]))
     /\ All(Opt(d.caps, << >>), LAMBDA n : Valid("Key", n))
     /\ All(Opt(d.sasl, << >>), SaslOk)
  THEN [ok |-> TRUE, pass |-> IF d.pass = << >> THEN << >> ELSE <<Secret("Line", d.pass[1]).v>>,
        nicks |-> Opt(d.nicks, << >>), user |-> d.user, real |-> d.real, caps |-> Range(Opt(d.caps, << >>)),
        allow |-> Opt(d.allow, FALSE), sasl |-> Cat(MapSeq(SaslSends, Opt(d.sasl, << >>)))]
  ELSE No
=============================================================================
