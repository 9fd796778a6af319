-------------------------------- MODULE Sasl -------------------------------
(* The SASL exchange.  A mechanism is [name, kind, payload, script, k]:      *)
(*   kind "plain"    sends payload once, fails on a challenge                *)
(*   kind "external" sends payload whenever the challenge is empty           *)
(*   kind "script"   sends script[k] (or fails if that is << >>)             *)
(* State: cur (mechanism), q (those left), dec (undecoded challenge so far). *)
EXTENDS Msg, Base64
(* byte-string literals *)
bSym42 == B("*")
bbase64 == B("base64")
bcounting == B("counting")
CLine(cmd, args) ==
  [tags |-> {}, src |-> << >>, kind |-> cmd, args |-> args,
   long |-> args # << >> /\ ~Valid("Arg", args[Len(args)])]
Wire(m) == WriteMsg(m)
kAUTH == B("AUTHENTICATE")
AuthLine(arg) == Wire(CLine(kAUTH, <<arg>>))
Words(m) == IF m.long THEN Upto(m.args, Len(m.args) - 1) ELSE m.args
Front(m) == IF m.args = << >> THEN << >> ELSE Upto(m.args, Len(m.args) - 1)
LastArg(m) == IF m.args = << >> THEN << >> ELSE <<m.args[Len(m.args)]>>
LastOr(m) == IF m.args = << >> THEN << >> ELSE m.args[Len(m.args)]

Reply(mech, chal) ==      \* << >> on failure, else <<payload>>
  CASE mech.kind = "plain" -> IF chal # << >> \/ mech.k > 0 THEN << >> ELSE <<mech.payload>>
    [] mech.kind = "external" -> IF chal # << >> THEN << >> ELSE <<mech.payload>>
    [] OTHER -> IF mech.k < Len(mech.script) THEN mech.script[mech.k + 1] ELSE << >>

SaslInit(mechs) == [cur |-> mechs[1], q |-> Tail(mechs), dec |-> << >>]
SR(s, out, r, e, ch) == [s |-> s, out |-> out, r |-> r, err |-> e, chal |-> ch]
k902 == B("902") k903 == B("903") k904 == B("904") k905 == B("905") k906 == B("906") k907 == B("907") k908 == B("908")
k900 == B("900") k901 == B("901")
OnChallenge(s, res) ==
  IF res = << >> THEN SR([s EXCEPT !.dec = << >>], <<AuthLine(bSym42)>>, "err", <<"Broken", bbase64>>, << >>)
  ELSE LET rep == Reply(s.cur, res[1])
           s1 == [s EXCEPT !.dec = << >>, !.cur.k = @ + 1]
           q1 == SelectSeq(s.q, LAMBDA x : x.name # s.cur.name)
       IN  IF rep # << >> THEN SR(s1, MapSeq(AuthLine, Chunks(rep[1], 400)), "more", << >>, <<res[1]>>)
           ELSE IF q1 # << >> THEN SR([s1 EXCEPT !.cur = q1[1], !.q = Tail(q1)], <<AuthLine(bSym42)>>, "more", << >>, <<res[1]>>)
           ELSE SR([s1 EXCEPT !.q = q1], <<AuthLine(bSym42)>>, "err", <<"Broken", s.cur.name>>, <<res[1]>>)
SaslStep(s, m) ==
  IF m.kind = kAUTH THEN
    LET w == Words(m)
    IN  IF w = << >> THEN OnChallenge(s, Dec64(s.dec))
        ELSE LET f == Feed64(s.dec, w[1], 400)
             IN  IF ~f.done THEN SR([s EXCEPT !.dec = f.buf], << >>, "more", << >>, << >>)
                 ELSE OnChallenge(s, f.res)
  ELSE IF m.kind \in {k902, k904} THEN
    IF s.q # << >> THEN SR([cur |-> s.q[1], q |-> Tail(s.q), dec |-> << >>], <<AuthLine(s.q[1].name)>>, "more", << >>, << >>)
    ELSE SR(s, << >>, "err", <<"Fail", LastOr(m)>>, << >>)
  ELSE IF m.kind = k905 THEN SR(s, << >>, "err", <<"Broken", bcounting>>, << >>)
  ELSE IF m.kind = k906 THEN SR([s EXCEPT !.dec = << >>], <<AuthLine(s.cur.name)>>, "more", << >>, << >>)
  ELSE IF m.kind = k908 THEN
    LET set == UNION {Range(SplitOn(a, 44)) : a \in Range(Front(m))}
        q1 == SelectSeq(s.q, LAMBDA x : x.name \in set)
    IN  IF q1 = << >> /\ s.cur.name \notin set THEN SR([s EXCEPT !.q = q1], << >>, "err", <<"Unsupported">>, << >>)
        ELSE SR([s EXCEPT !.q = q1], << >>, "more", << >>, << >>)
  ELSE IF m.kind \in {k900, k903, k907} THEN SR(s, << >>, "done", << >>, << >>)
  ELSE SR(s, << >>, "more", << >>, << >>)
(* Restricting the mechanisms from outside: "none" / "cur" / "all" removed.  *)
SaslRetain(s, names) ==
  LET q1 == SelectSeq(s.q, LAMBDA x : x.name \in names)
  IN  IF s.cur.name \in names THEN [s |-> [s EXCEPT !.q = q1], r |-> "none"]
      ELSE IF q1 # << >> THEN [s |-> [cur |-> q1[1], q |-> Tail(q1), dec |-> << >>], r |-> "cur"]
      ELSE [s |-> [s EXCEPT !.q = q1], r |-> "all"]
=============================================================================
