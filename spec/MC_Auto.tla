------------------------------- MODULE MC_Auto ------------------------------
(* The background handlers, in any combination, hearing any short sequence   *)
(* of lines from a critical alphabet.                                        *)
EXTENDS Auto, Json
CONSTANTS MaxLines, Emit
VARIABLES au, cfgd, hist, said, before
vars == <<au, cfgd, hist, said, before>>
H(k) == [h |-> k, ch |-> "std", version |-> << >>, source |-> << >>, kinds |-> << >>]
hPong == H("pong")
hTrack == H("track")
hAll == H("all")
hPing == H("ping")
hCtcp == [H("ctcp") EXCEPT !.version = B("v 1"), !.source = B("s")]
hHalf == [H("ctcp") EXCEPT !.version = B("w")]
hParsed == [H("parsed") EXCEPT !.kinds = <<[k |-> kPRIVMSG, flat |-> -1, via |-> "just"], [k |-> kNOTICE, flat |-> 2, via |-> "map"], [k |-> kQUIT, flat |-> 0, via |-> "map"],
  [k |-> kJOIN, flat |-> -2, via |-> "with"]>>]
HSets == {<<hAll, hPong, hCtcp, hTrack>>, <<hTrack, hAll, hCtcp, hHalf, hPong, hPong>>, <<hParsed, hTrack, hAll>>, <<hPing, hAll, hTrack, hPong>>, <<hAll, [hAll EXCEPT !.ch = "weak"], [hParsed EXCEPT !.ch = "tokio"], [hPing EXCEPT !.ch = "tokio"]>>, <<hAll, [hAll EXCEPT !.ch = "closed"], [hPing EXCEPT !.ch = "closed"]>>}
Owns == {<< >>, <<<<B("Me")>>>>, <<<<B("Me"), <<B("u")>>, B("h")>>>>, <<<<B("Me"), << >>, B("h")>>>>}
Isups == {{}, {<<bNICKLEN, B("30")>>, <<bUSERLEN, B("5")>>, <<bHOSTLEN, B("20")>>}, {<<bNICKLEN, B("x")>>, <<bHOSTLEN, B("1")>>}}
AutoLines == <<
  B("PING a b"), B("PING"), B("PING :x y"), B("PONG s 17"), B("PONG s 18"), B("NOTICE s 17"),
  B(":o!u@h PRIVMSG Me :\\1VERSION\\1"), B(":o PRIVMSG Me :\\1version x\\1"), B("PRIVMSG Me :\\1VERSION\\1"), B(":o!u@h NOTICE Me :\\1VERSION v 1\\1"),
  B(":o!u@h PRIVMSG #c :\\1SOURCE"), B(":o!u@h PRIVMSG Me :VERSION"), B(":o PRIVMSG Me a :\\1VERSION\\1"), B(":o!u@h QUIT :\\1VERSION\\1"),
  B(":Me!u@h NICK You"), B(":You NICK Me"), B(":o!u@h NICK Me"), B(":Me NICK bad!nick"), B(":Me!u@h CHGHOST v longer.host"), B(":o!u@h CHGHOST v w"),
  B(":s 302 Me :Me=+u2@h2"), B(":s 302 Me o=+x@y You*=-z@w"), B(":s 302 Me :Me=u2@h2"), B(":s 302"), B(":o JOIN #c"), B(":o JOIN :#c d")>>
Ctl(s) == MapSeq(LAMBDA l : LET RECURSIVE Un(_)
                                Un(x) == IF x = << >> THEN << >> ELSE IF x[1] = 92 THEN <<1>> \o Un(From(x, 3)) ELSE <<x[1]>> \o Un(Tail(x))
                            IN Un(l), s)
TheLines == Ctl(AutoLines)
TheMsgs == MapSeq(LAMBDA l : ParseLine("server", l), TheLines)
tok17 == B("17")
Init ==
  /\ \E hs \in HSets, own \in Owns, isup \in Isups :
       /\ au = [own |-> own, len |-> OwnLen(own, isup), isup |-> isup, hs |-> hs, live |-> 1..Len(hs), closed |-> BornClosed(hs), seen |-> [k \in 1..Len(hs) |-> {}], tok |-> [k \in 1..Len(hs) |-> tok17]]
       /\ cfgd = [own |-> own, isup |-> isup, hs |-> hs]
       /\ before = own
  /\ hist = << >> /\ said = << >>
Step(k, js) ==
  LET r == AStep(ADrop(au, js), TheMsgs[k])
  IN  /\ au' = r.a /\ said' = r.out /\ before' = au.own
      /\ hist' = Append(hist, <<k, js>>) /\ UNCHANGED cfgd
Leavers == IF Len(au.hs) # 4 \/ au.hs[1].h # "all" THEN {} ELSE {j \in 2..4 : j \notin au.closed}
Next == Len(hist) < MaxLines /\ \E k \in 1..Len(TheLines) : Step(k, {}) \/ \E j \in Leavers : Step(k, {j})
Spec == Init /\ [][Next]_vars
View == <<au, cfgd, said, before, Len(hist), IF hist = << >> THEN 0 ELSE hist[Len(hist)][1]>>
LastMsg == TheMsgs[hist[Len(hist)][1]]
HowMany(k) == Cardinality({j \in 1..Len(au.hs) : au.hs[j].h = k})
KindOf(l) == ParseLine("client", l).kind
(* exactly one PONG per PING per answering handler, and no other PONG *)
Pongs == hist # << >> => Len(SelectSeq(said, LAMBDA l : KindOf(l) = kPONG)) = IF LastMsg.kind = kPING THEN HowMany("pong") ELSE 0
(* automatic replies are notices to the sender, only for requests *)
Replies == hist # << >> => \A k \in 1..Len(said) : KindOf(said[k]) # kPONG =>
   /\ KindOf(said[k]) = kNOTICE
   /\ LastMsg.kind = kPRIVMSG /\ LastMsg.src # << >>
   /\ ParseLine("client", said[k]).args[1] = LastMsg.src[1]
(* nothing said automatically, heard by a client with any handlers, makes it *)
(* say anything: two clients cannot keep each other talking                  *)
relayPre == B(":Me!u@h ")
NoLoop == \A k \in 1..Len(said) :
   LET m == ParseLine("server", relayPre \o Upto(said[k], Len(said[k]) - 2))
   IN  m.ok /\ \A h \in {hPong, hCtcp, hHalf, hTrack} : OutOf(h, m) = << >>
(* the own source changes only on messages about this client *)
AboutMe == hist # << >> => (au.own # before =>
   /\ \E j \in 1..Len(au.hs) : au.hs[j].h = "track"
   /\ before # << >>
   /\ IF LastMsg.kind = k302 THEN TRUE ELSE LastMsg.src # << >> /\ LastMsg.src[1] = before[1][1])
(* the budgeted length covers what is known *)
LenCovers == au.own # << >> =>
   au.len >= Len(au.own[1][1]) + (IF Len(au.own[1]) = 3 THEN Len(au.own[1][3]) + (IF au.own[1][2] = << >> THEN 0 ELSE Len(au.own[1][2][1])) ELSE 0)
OwnKept == (cfgd.own = << >>) <=> (au.own = << >>)
(* only passing handlers nobody listens to and answered pings ever end *)
EndsRight == \A j \in (1..Len(au.hs)) \ au.live : au.hs[j].h \in {"all", "parsed", "ping"} /\ (au.hs[j].h = "ping" \/ j \in au.closed)
ListenerStays == \A j \in 1..Len(au.hs) : (au.hs[j].h \in {"all", "parsed"} /\ j \notin au.closed) => j \in au.live
Pairs(isup) == LET ks == {p[1] : p \in isup} IN << >>
Emitted == (Emit /\ Len(hist) >= MaxLines) => PrintT("@@" \o ToJson([op |-> "auto", own |-> cfgd.own, isup |-> cfgd.isup, noisup |-> FALSE, hs |-> cfgd.hs,
   lines |-> [k \in 1..Len(hist) |-> [l |-> TheLines[hist[k][1]], ms |-> hist[k][1], drop |-> hist[k][2]]]]))
=============================================================================
