-------------------------------- MODULE Auto -------------------------------
(* The library's background handlers as functions of one server message:     *)
(* answering pings, static CTCP replies, own pings, tracking the client's    *)
(* own source, and handlers that pass messages on.                           *)
EXTENDS Register
kUSERHOST == B("USERHOST") kNOTICE == B("NOTICE") kPRIVMSG == B("PRIVMSG") kCHGHOST == B("CHGHOST") k302 == B("302")
kJOIN == B("JOIN") tJoined == B("joined")
kPART == B("PART") kQUIT == B("QUIT") kTOPIC == B("TOPIC") kWALLOPS == B("WALLOPS")
kVERSION == B("VERSION") kSOURCE == B("SOURCE")

(* ------------------------------ static replies -------------------------- *)
PongOut(m) == IF m.kind = kPING THEN <<Wire(CLine(kPONG, LastArg(m)))>> ELSE << >>
(* A message from someone to one target. *)
Targeted(m) == m.kind \in {kPRIVMSG, kNOTICE, kPART, kTOPIC} /\ Len(m.args) = 2
CtcpOut(h, m) ==
  IF m.kind # kPRIVMSG \/ Len(m.args) # 2 \/ m.src = << >> THEN << >>
  ELSE LET q == ParseCtcp(m.args[2])
           ans == IF q.cmd = kVERSION THEN h.version ELSE IF q.cmd = kSOURCE THEN h.source ELSE << >>
       IN  IF ans = << >> THEN << >>
           ELSE <<Wire(CLine(kNOTICE, <<m.src[1], WriteCtcp([cmd |-> q.cmd, body |-> ans])>>))>>

(* -------------------------------- tracking ------------------------------ *)
(* The client's source: << >> (unknown) or <<source>>.                       *)
Item(it, nick) ==          \* an item of a USERHOST reply: << >> or <<user, host>>
  LET e == FirstIn(it, {61, 42}, 1)
      op == e <= Len(it) /\ it[e] = 42
      e2 == IF op THEN e + 1 ELSE e
      rest == From(it, e2 + 2)
      at == FirstIn(rest, {AT}, 1)
      user == Upto(rest, at - 1)
      host == From(rest, at + 1)
  IN  IF Upto(it, e - 1) # nick \/ e2 + 1 > Len(it) THEN << >>
      ELSE IF it[e2] # 61 \/ it[e2 + 1] \notin {43, 45} THEN << >>
      ELSE IF ~Valid("User", user) \/ host = << >> THEN << >>
      ELSE <<user, host>>
RECURSIVE FirstItem(_, _)
FirstItem(items, nick) ==
  IF items = << >> THEN << >>
  ELSE LET x == Item(items[1], nick) IN IF x # << >> THEN x ELSE FirstItem(Tail(items), nick)
FromMe(m, me) == m.src # << >> /\ m.src[1] = me[1]
Track(own, m) ==           \* -> [own, upd]
  IF own = << >> \/ m.long THEN [own |-> own, upd |-> FALSE]
  ELSE LET me == own[1]
           keep == [own |-> own, upd |-> FALSE]
       IN  IF m.kind = k302 /\ m.args # << >> THEN
             LET x == FirstItem(Tail(m.args), me[1])
             IN  IF x = << >> THEN keep ELSE [own |-> <<<<me[1], <<x[1]>>, x[2]>>>>, upd |-> TRUE]
           ELSE IF m.kind = kNICK /\ Len(m.args) = 1 THEN
             IF FromMe(m, me) /\ Valid("Nick", m.args[1]) THEN [own |-> <<<<m.args[1]>> \o Tail(me)>>, upd |-> TRUE] ELSE keep
           ELSE IF m.kind = kCHGHOST /\ Len(m.args) = 2 THEN
             IF FromMe(m, me) /\ Valid("User", m.args[1]) THEN [own |-> <<<<me[1], <<m.args[1]>>, m.args[2]>>>>, upd |-> TRUE] ELSE keep
           ELSE keep
OwnLen(own, isup) == SourceLen(IF own = << >> THEN << >> ELSE own[1], isup)

(* ----------------------------- passing messages on ---------------------- *)
Parsed(m) ==               \* << >> or <<[tags, src, target, value]>>
  IF Targeted(m) THEN <<[tags |-> m.tags, src |-> m.src, target |-> m.args[1], value |-> m.args[2]]>>
  ELSE IF m.kind \in {kQUIT, kWALLOPS} /\ Len(m.args) = 1 THEN <<[tags |-> m.tags, src |-> m.src, target |-> kSTAR, value |-> m.args[1]]>>
  ELSE IF m.kind = kJOIN /\ Len(m.args) = 1 /\ ~m.long THEN <<[tags |-> m.tags, src |-> m.src, target |-> m.args[1], value |-> tJoined]>>
  ELSE << >>
(* kinds: sequence of [k, flat]; the last entry for a kind counts; flat n    *)
(* passes each message on n times, -1 once, and -2 the k-th message k-1      *)
(* modulo 3 times (a mapper with a memory); n is how many were seen, mod 3.  *)
FlatFor(kinds, k, n) ==
  LET s == SelectSeq(kinds, LAMBDA x : x.k = k)
  IN  IF s = << >> THEN 0 ELSE LET f == s[Len(s)].flat IN CASE f = -1 -> 1 [] f = -2 -> n [] OTHER -> f
Remembers(kinds, k) == LET s == SelectSeq(kinds, LAMBDA x : x.k = k) IN s # << >> /\ s[Len(s)].flat = -2
(* seen: pairs <<kind, count mod 3>> of kinds with a memory, absent if 0 *)
Seen(seen, k) == LET s == {p \in seen : p[1] = k} IN IF s = {} THEN 0 ELSE (CHOOSE p \in s : TRUE)[2]
Yields(h, seen, m) ==
  CASE h.h = "all" -> <<[raw |-> WriteMsg(m)]>>
    [] h.h = "parsed" -> LET p == Parsed(m) IN IF p = << >> THEN << >> ELSE SubSeq([k \in 1..2 |-> p[1]], 1, FlatFor(h.kinds, m.kind, Seen(seen, m.kind)))
    [] OTHER -> << >>
SeenNext(h, seen, m) ==
  IF h.h # "parsed" \/ Parsed(m) = << >> THEN seen
  ELSE IF ~Remembers(h.kinds, m.kind) THEN seen
  ELSE LET n == (Seen(seen, m.kind) + 1) % 3
       IN  {p \in seen : p[1] # m.kind} \cup (IF n = 0 THEN {} ELSE {<<m.kind, n>>})

(* ------------------------------- all together --------------------------- *)
(* State: [own, len, isup, hs, tok, live, closed, seen]: tok[j] the token of *)
(* own ping j, live the handlers still there, closed those whose receiver    *)
(* was dropped. A handler that passes messages on ends with the first one    *)
(* nobody can receive.                                                       *)
OutOf(h, m) == CASE h.h = "pong" -> PongOut(m) [] h.h = "ctcp" -> CtcpOut(h, m) [] OTHER -> << >>
PongHit(a, j, m) == a.hs[j].h = "ping" /\ j \in a.live /\ m.kind = kPONG /\ LastArg(m) = <<a.tok[j]>>
(* ch: over which kind of channel; nobody ever receives from a "closed" one *)
BornClosed(hs) == {j \in 1..Len(hs) : hs[j].ch = "closed"}
ADrop(a, js) == [a EXCEPT !.closed = @ \cup js]
AStep(a, m) ==
  LET hits == {j \in a.live : PongHit(a, j, m)}
      ys == [j \in 1..Len(a.hs) |-> IF j \in a.live THEN Yields(a.hs[j], a.seen[j], m) ELSE << >>]
      lost == {j \in a.live : ys[j] # << >> /\ j \in a.closed}
      tracking == \E j \in a.live : a.hs[j].h = "track"
      t == IF tracking THEN Track(a.own, m) ELSE [own |-> a.own, upd |-> FALSE]
  IN  [a |-> [a EXCEPT !.own = t.own, !.len = IF t.upd THEN OwnLen(t.own, a.isup) ELSE @, !.live = (@ \ hits) \ lost,
                       !.seen = [j \in 1..Len(a.hs) |-> IF j \in a.live THEN SeenNext(a.hs[j], @[j], m) ELSE @[j]]],
       out |-> Cat([j \in 1..Len(a.hs) |-> IF j \in a.live THEN OutOf(a.hs[j], m) ELSE << >>]),
       y |-> [j \in 1..Len(a.hs) |-> IF j \in a.closed THEN << >> ELSE ys[j]],
       hits |-> hits \ a.closed,
       fin |-> hits \cup lost]
(* the handlers a run has to report as having sent something *)
Sent(r) == {j \in 1..Len(r.y) : r.y[j] # << >>} \cup r.hits
=============================================================================
