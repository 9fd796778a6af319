------------------------------- MODULE Views -------------------------------
(* Typed views of messages: reading a message as one of a named type, the    *)
(* names themselves, numerics as errors or replies, and CTCP messages.       *)
EXTENDS Msg, Ascii
bStar == B("*")
Targeted == {"NOTICE", "PART", "PRIVMSG", "TOPIC"}
Untargeted == {"QUIT", "WALLOPS"}
NoView == [ok |-> FALSE]
(* What a message m says when read as one of type n. *)
ViewOf(side, n, m) ==
  LET src == IF side = "server" THEN m.src ELSE << >>
      V(t, v) == [ok |-> TRUE, tags |-> m.tags, src |-> src, target |-> t, value |-> v]
      k == Len(m.args)
  IN  CASE n \in Targeted -> IF k = 2 THEN V(m.args[1], m.args[2]) ELSE NoView
        [] n \in Untargeted -> IF k = 1 THEN V(bStar, m.args[1]) ELSE NoView
        [] n = "JOIN" -> IF k = 1 /\ ~m.long THEN V(m.args[1], << >>) ELSE NoView
(* Is a numeric an error?  "y", "n" or "?" *)
NumErr(n) ==
  IF n < 400 THEN "n" ELSE IF n < 569 THEN "y"
  ELSE IF n \in {691, 696, 723, 902, 904, 905, 906, 907} THEN "y"
  ELSE IF n \in {670, 671, 704, 705, 706, 740, 741, 900, 901, 903, 908} THEN "n"
  ELSE "?"
kFAIL == B("FAIL")  kERROR == B("ERROR")
KindErr(k) ==
  IF IsNumeric(k) THEN NumErr((k[1] - 48) * 100 + (k[2] - 48) * 10 + k[3] - 48)
  ELSE IF k \in {kFAIL, kERROR} THEN "y" ELSE "n"
Cmp(a, b) == IF a = b THEN "eq" ELSE IF LexLess(a, b) THEN "lt" ELSE "gt"
CapNames ==
  "ACCOUNT_NOTIFY" :> "account-notify" @@ "ACCOUNT_TAG" :> "account-tag" @@ "BATCH" :> "batch"
  @@ "CHGHOST" :> "chghost" @@ "ECHO_MESSAGE" :> "echo-message" @@ "EXTENDED_JOIN" :> "extended-join"
  @@ "EXTENDED_MONITOR" :> "extended-monitor" @@ "INVITE_NOTIFY" :> "invite-notify" @@ "LABELED_RESPONSE" :> "labeled-response"
  @@ "MESSAGE_TAGS" :> "message-tags" @@ "MSGID" :> "msgid" @@ "MULTI_PREFIX" :> "multi-prefix"
  @@ "SASL" :> "sasl" @@ "SERVER_TIME" :> "server-time" @@ "SETNAME" :> "setname"
  @@ "STANDARD_REPLIES" :> "standard-replies" @@ "STS" :> "sts" @@ "USERHOST_IN_NAMES" :> "userhost-in-names"
(* A name stands for its own text, a capability's for the official one.      *)
TextOf(cls, id) == B(IF cls = "cap" THEN CapNames[id] ELSE id)
(* A CTCP message that can be told apart once written: an upper-case command *)
(* and no delimiter inside.                                                  *)
Clean(c) == IF c.cmd = << >> THEN c.body = << >> \/ c.body[1] # 1 ELSE c.cmd = ToUpper(c.cmd) /\ ~Contains(c.cmd, {1}) /\ ~Contains(c.body, {1})
=============================================================================
