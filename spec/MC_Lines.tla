------------------------------ MODULE MC_Lines ------------------------------
(* Lines as sequences of tokens that look like tags, sources, kinds and      *)
(* arguments, in any order and number.  What the grammar makes of a line is  *)
(* compared with a second, positional reading of it; every line is emitted   *)
(* to be given to the real parsers.                                          *)
EXTENDS Msg, Json
CONSTANTS Emit, MaxTok, Seps
Tok == {<<64>>, <<64, 97, 61, 98>>, <<64, 97, 61, 98, 59, 97>>,          \* @ @a=b @a=b;a
        <<58>>, <<58, 115>>, <<58, 110, 33, 117, 64, 104>>, <<58, 33>>,  \* : :s :n!u@h :!
        <<112, 73>>, <<48, 48, 49>>, <<49, 50>>,                         \* pI 001 12
        <<120, 58, 121>>, <<64, 98, 58>>}                                \* x:y @b:
VARIABLES toks, sep, side
vars == <<toks, sep, side>>
Init == toks = << >> /\ sep \in 1..Seps /\ side \in {"server", "client"}
Next == /\ Len(toks) < MaxTok /\ \E t \in Tok : toks' = Append(toks, t)
        /\ UNCHANGED <<sep, side>>
Spec == Init /\ [][Next]_vars
Gap == IF sep = 1 THEN <<SP>> ELSE <<SP, SP>>
RECURSIVE Glue(_)
Glue(s) == IF s = << >> THEN << >> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o Gap \o Glue(Tail(s))
(* With two spaces between tokens there are also some before the first.      *)
Text == (IF sep = 1 THEN << >> ELSE Gap) \o Glue(toks)
Got == ParseLine(side, Text)
(* The positional reading: tags can only be the first token, a source the    *)
(* one after them (a client's is skipped), and the kind comes next; a message has as many arguments  *)
(* as there are tokens up to the first that starts with a colon (and that).  *)
N == Len(toks)
TagsAt == IF N > 0 THEN IF toks[1][1] = AT THEN 1 ELSE 0 ELSE 0
SrcAt == IF N > TagsAt THEN IF toks[TagsAt + 1][1] = COLON THEN TagsAt + 1 ELSE TagsAt ELSE TagsAt
Longs == {i \in SrcAt + 2..N : toks[i][1] = COLON}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
NArgs == IF Longs = {} THEN N - (SrcAt + 1) ELSE First(Longs) - (SrcAt + 1)
Positions == Got.ok => /\ Got.tags # {} => TagsAt = 1
                       /\ Got.src # << >> => SrcAt > TagsAt /\ side = "server"
                       /\ SrcAt < N /\ Len(Got.kind) = Len(toks[SrcAt + 1])
                       /\ Len(Got.args) = NArgs
Emitted == Emit => PrintT("@@" \o ToJson([op |-> "parse", side |-> side, in |-> Text]))
=============================================================================
