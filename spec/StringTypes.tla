---------------------------- MODULE StringTypes ----------------------------
(* The character rules of vinezombie's string hierarchy.                    *)
EXTENDS ByteSeq

NUL == 0  LF == 10  CR == 13  SP == 32
TypeNames == {"Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Target", "Nick", "User", "Cmd"}

(* Bytes that may not occur in a value of the type. *)
BadBytes(t) ==
  CASE t = "Bytes"  -> {}
    [] t = "NoNul"  -> {NUL}
    [] t = "Line"   -> {NUL, CR, LF}
    [] t = "Word"   -> {NUL, CR, LF, SP}
    [] t = "Arg"    -> {NUL, CR, LF, SP}
    [] t = "Key"    -> {NUL, CR, LF, SP, 61, 59}       \* = ;
    [] t = "Target" -> {NUL, CR, LF, SP, 44}           \* ,
    [] t = "Nick"   -> {NUL, CR, LF, SP, 44, 33, 64}   \* , ! @
    [] t = "User"   -> {NUL, CR, LF, SP, 64, 37}       \* @ %
    [] t = "Cmd"    -> (0..255) \ Upper
(* Types that must be non-empty and may not begin with a colon. *)
ArgLike(t) == t \in {"Arg", "Key", "Target", "Nick", "User", "Cmd"}

Valid(t, s) ==
  /\ ~Contains(s, BadBytes(t))
  /\ ArgLike(t) => Len(s) > 0 /\ s[1] # 58

Super(t) ==
  CASE t = "NoNul" -> "Bytes" [] t = "Line" -> "NoNul" [] t = "Word" -> "Line"
    [] t = "Arg" -> "Word" [] t = "Key" -> "Arg" [] t = "Target" -> "Arg"
    [] t = "Nick" -> "Target" [] t = "User" -> "Arg" [] t = "Cmd" -> "Arg"
=============================================================================
