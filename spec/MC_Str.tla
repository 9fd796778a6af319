------------------------------- MODULE MC_Str ------------------------------
(* Every history of safe operations keeps every string within the rules of   *)
(* its type, and never turns a secret into something that is not secret      *)
(* (other than by explicitly turning it into plain bytes).                   *)
EXTENDS Strings, Json, Randomization
CONSTANTS MaxOps, MaxPool, MaxLen, Wide, Emit
VARIABLES pool, hist, born
vars == <<pool, hist, born>>
Alphabet == IF Wide THEN {113, 90, 32, 58, 61, 44, 33, 64, 37, 92, 0, 10, 59, 195, 169, 126, 91} ELSE {90, 58, 92, 195, 32, 113}
Contents == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Tys == {"Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Target", "Nick", "User", "Cmd"}
I == 2..Len(pool)
Hows == IF Wide THEN {"slice", "vec", "string", "static", "secretvec", "secretbuf"} ELSE {"slice", "secretvec"}
Some(n, S) == IF Emit THEN RandomSubset(n, S) ELSE S
New == IF Len(pool) >= MaxPool THEN {} ELSE
  {[k |-> "new", how |-> h, ty |-> t, b |-> SubSeq(b, 1, Len(b)), v |-> 0] : h \in Some(2, Hows), t \in Some(3, Tys), b \in Some(3, Contents)}
Scripts == {
  <<[s |-> "str", ty |-> "Word", req |-> FALSE], [s |-> "next"], [s |-> "strd", ty |-> "Word", req |-> TRUE]>>,
  <<[s |-> "save", st |-> FALSE, en |-> TRUE], [s |-> "count", n |-> 1], [s |-> "rest", ty |-> "Bytes"], [s |-> "end"], [s |-> "restd"]>>,
  <<[s |-> "inval", ty |-> "Arg"], [s |-> "pstr", ty |-> "Nick", req |-> TRUE], [s |-> "enc"]>>}
Builds(t) == {<<[s |-> "ap", i |-> 2], [s |-> "tb", b |-> <<90, 195>>], [s |-> "cu"]>>, <<[s |-> "tp", b |-> <<169>>], [s |-> "ts", b |-> <<113>>]>>}
Unary == {"clone", "own", "mkown", "sec", "drop", "lossy", "vec", "cmdw", "nick", "esc", "unesc", "b64", "b64p", "utf8", "lview", "msg", "ser"}
Old ==
  {[k |-> k, i |-> i] : k \in Unary, i \in I}
  \cup {[k |-> k, i |-> i, ty |-> t] : k \in {"up", "cast"}, i \in I, t \in Tys}
  \cup {[k |-> "down", i |-> i, ty |-> t] : i \in I, t \in Tys \ {"Bytes"}}
  \cup {[k |-> "tf", i |-> i, name |-> n] : i \in I, n \in TfNames}
  \cup {[k |-> "chunk", i |-> i, n |-> 3] : i \in I}
  \cup {[k |-> "split", i |-> i, script |-> s] : i \in I, s \in Scripts}
  \cup UNION {{[k |-> "build", ty |-> pool[i].ty, i |-> i, script |-> s] : s \in Builds(pool[i].ty)} : i \in I}
  \cup {[k |-> "cmp", i |-> i, j |-> j] : i, j \in I}
Grows(o) == o.k \in {"clone", "b64", "b64p", "chunk", "split", "build"}
(* born: which strings carry secrets, tracked by where they came from *)
Taint(o) ==
  LET r == StrStep(pool, o)
      n == Len(r.pool)
      src == IF o.k = "new" THEN Secretly(o.how) ELSE IF o.k \in {"build", "vec", "ser", "drop"} THEN FALSE ELSE born[o.i] \/ o.k = "sec"
  IN  SubSeq([j \in 1..n |-> IF j \in Range(r.touched) THEN src ELSE IF j <= Len(born) THEN (IF r.st = "err" /\ o.k # "new" /\ j = o.i THEN FALSE ELSE born[j]) ELSE FALSE], 1, n)
Do(o) ==
  /\ Len(hist) < MaxOps
  /\ pool' = StrStep(pool, o).pool
  /\ born' = Taint(o)
  /\ hist' = Append(hist, o)
Init == pool = <<None>> /\ hist = << >> /\ born = <<FALSE>>
Next == \/ \E o \in New : Do(o)
        \/ \E o \in Old : (Grows(o) => Len(pool) < MaxPool) /\ Do(o)
Spec == Init /\ [][Next]_vars
View == <<pool, Len(hist)>>
TypesHold == \A j \in 1..Len(pool) : Valid(pool[j].ty, pool[j].b)
SecretsStay == \A j \in 1..Len(pool) : born[j] => pool[j].sec
Hidden == \A j \in 1..Len(pool) : pool[j].sec => Disp(pool[j]) = <<60, 63, 62>>
LossyIsUtf8 == \A j \in 1..Len(pool) : IsUtf8(Lossy(pool[j].b))
EscapeUndone == \A j \in 1..Len(pool) : pool[j].ty # "Bytes" => Unescape(Escape(pool[j].b)) = pool[j].b
CaseMapsSettle == \A j \in 1..Len(pool) : \A n \in TfNames : Transform(n, Transform(n, pool[j].b)) = Transform(n, pool[j].b)
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson([op |-> "str", strict |-> FALSE, ops |-> hist]))
=============================================================================
