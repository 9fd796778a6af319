------------------------------- MODULE Strings ------------------------------
(* Strings as users see them: a value has a type, bytes and a secrecy flag.  *)
(* A history works on a pool of strings; every operation either replaces one *)
(* of them or adds new ones.                                                 *)
EXTENDS StringTypes, Base64, Msg
Val(ty, b, sec) == [ty |-> ty, b |-> b, sec |-> sec]
None == Val("Bytes", << >>, FALSE)

(* ------------------------------ UTF-8 ----------------------------------- *)
FFFD == <<239, 191, 189>>
(* The longest piece starting at i that is one character or one maximal      *)
(* ill-formed piece.                                                         *)
Piece(s, i) ==
  LET b == s[i]
      c(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
      lo == CASE b = 224 -> 160 [] b = 240 -> 144 [] OTHER -> 128
      hi == CASE b = 237 -> 159 [] b = 244 -> 143 [] OTHER -> 191
      need == IF b < 128 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE -1
      good(k) == IF k = 1 THEN c(1) >= lo /\ c(1) <= hi ELSE c(k) \in 128..191
      m == IF need <= 0 THEN 0 ELSE MaxOf({k \in 0..need : \A j \in 1..k : good(j)})
  IN  [ok |-> need >= 0 /\ m = need, n |-> 1 + m]
RECURSIVE LossyFrom(_, _)
LossyFrom(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE LET p == Piece(s, i) IN (IF p.ok THEN SubSeq(s, i, i + p.n - 1) ELSE FFFD) \o LossyFrom(s, i + p.n)
Lossy(s) == IF IsUtf8(s) THEN s ELSE LossyFrom(s, 1)

(* ---------------------------- transforms -------------------------------- *)
White == {9, 10, 12, 13, 32}
TrimStart(s) == From(s, FirstNotIn(s, White, 1))
TrimEnd(s) == Upto(s, LastNotIn(s, White))
IrcLower(s, hi) == MapSeq(LAMBDA x : IF x \in 65..hi THEN x + 32 ELSE x, s)
Transform(name, s) ==
  CASE name = "up" -> ToUpper(s)
    [] name = "low" -> ToLower(s)
    [] name = "ascii" -> ToLower(s)
    [] name = "strict" -> IrcLower(s, 93)
    [] name = "rfc1459" -> MapSeq(LAMBDA x : IF x = 126 THEN 94 ELSE x, IrcLower(s, 93))
    [] name = "trims" -> TrimStart(s)
    [] name = "trime" -> TrimEnd(s)
    [] name \in {"trimse", "trimes"} -> TrimStart(TrimEnd(s))
TfTypes(name) ==
  CASE name = "up" -> {"Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Cmd"}
    [] name = "low" -> {"Bytes", "NoNul", "Line", "Word", "Arg", "Key"}
    [] name \in {"ascii", "strict", "rfc1459"} -> {"Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Target", "Nick", "User"}
    [] OTHER -> {"Bytes", "NoNul", "Line"}
TfNames == {"up", "low", "ascii", "strict", "rfc1459", "trims", "trime", "trimse", "trimes"}
RECURSIVE Ancestors(_)
Ancestors(t) == IF t = "Bytes" THEN {"Bytes"} ELSE {t} \cup Ancestors(Super(t))
Default(t) == t \in {"Bytes", "NoNul", "Line", "Word"}

(* ----------------------------- splitting -------------------------------- *)
(* A splitter over bytes b (type ty, secrecy sec): what is left is s..e (e   *)
(* exclusive, from 0); saves is the stack of saved ends.                     *)
SplitNew(v) == [v |-> v, s |-> 0, e |-> Len(v.b), saves |-> << >>]
Left(sp) == SubSeq(sp.v.b, sp.s + 1, sp.e)
Prefix(b, ty) == Upto(b, FirstIn(b, BadBytes(ty), 1) - 1)
FirstOk(ty, b) == ArgLike(ty) => IF b = << >> THEN FALSE ELSE b[1] # 58
(* the next string of a type: <<>> if there is none *)
NextStr(sp, ty, req) ==
  LET p == Prefix(Left(sp), ty)
  IN  IF (req /\ Len(p) < Len(Left(sp))) \/ ~FirstOk(ty, p) THEN << >> ELSE <<p>>
(* A step: the new splitter, scalars seen, strings yielded.                  *)
SR(sp, x, new) == [sp |-> sp, x |-> x, new |-> new]
Bool(x) == IF x THEN 1 ELSE 0
SplitStep(sp, o) ==
  LET l == Left(sp)
      k == o.s
      sec == sp.v.sec
  IN  CASE k = "next" -> IF l = << >> THEN SR(sp, <<-1>>, << >>) ELSE SR([sp EXCEPT !.s = @ + 1], <<l[1]>>, << >>)
        [] k = "rnext" -> IF l = << >> THEN SR(sp, <<-1>>, << >>) ELSE SR([sp EXCEPT !.e = @ - 1], <<l[Len(l)]>>, << >>)
        [] k = "peek" -> SR(sp, <<IF l = << >> THEN -1 ELSE l[1]>>, << >>)
        [] k = "rpeek" -> SR(sp, <<IF l = << >> THEN -1 ELSE l[Len(l)]>>, << >>)
        [] k = "len" -> SR(sp, <<Len(l), Bool(l = << >>)>>, << >>)
        [] k = "slice" -> SR(sp, l, << >>)
        [] k = "enc" -> SR(sp, <<Bool(IsUtf8(l))>>, << >>)
        [] k = "inval" -> SR([sp EXCEPT !.s = @ + FirstNotIn(l, BadBytes(o.ty), 1) - 1], << >>, << >>)
        [] k = "ws" -> SR([sp EXCEPT !.s = @ + FirstNotIn(l, White, 1) - 1], << >>, << >>)
        [] k \in {"untilb", "untileq"} -> SR([sp EXCEPT !.e = sp.s + FirstIn(l, Range(o.b), 1) - 1], << >>, << >>)
        [] k = "count" -> SR([sp EXCEPT !.e = sp.s + IMin(Len(l), o.n)], << >>, << >>)
        [] k = "save" -> SR([sp EXCEPT !.saves = <<[s |-> sp.s, e |-> sp.e, st |-> o.st, en |-> o.en]>> \o @], << >>, << >>)
        [] k = "end" -> LET h == Head(sp.saves)
                        IN  SR([sp EXCEPT !.s = IF h.st THEN h.s ELSE @, !.e = IF h.en THEN h.e ELSE @, !.saves = Tail(@)], << >>, << >>)
        [] k \in {"str", "pstr"} ->
             LET r == NextStr(sp, o.ty, o.req)
             IN  IF r = << >> THEN SR(sp, <<0>>, << >>)
                 ELSE SR(IF k = "str" THEN [sp EXCEPT !.s = @ + Len(r[1])] ELSE sp, <<1>>, <<Val(o.ty, r[1], sec)>>)
        [] k = "strd" ->
             LET r == NextStr(sp, o.ty, o.req)
                 got == IF r = << >> THEN << >> ELSE r[1]
             IN  SR([sp EXCEPT !.s = @ + Len(got)], << >>, <<Val(o.ty, got, sec)>>)
        [] k \in {"rest", "prest"} ->
             IF ~FirstOk(o.ty, l) THEN SR(sp, <<0>>, << >>)
             ELSE SR(IF k = "rest" THEN [sp EXCEPT !.s = sp.e] ELSE sp, <<1>>, <<Val(o.ty, l, sec)>>)
        [] k = "restd" -> SR([sp EXCEPT !.s = sp.e], << >>, <<Val("Bytes", l, sec)>>)
(* Saves still open at the end of the script are closed. *)
RECURSIVE SplitRun(_, _, _)
SplitRun(sp, script, k) ==
  IF k > Len(script) THEN [x |-> << >>, new |-> << >>]
  ELSE LET r == SplitStep(sp, script[k])
           t == SplitRun(r.sp, script, k + 1)
       IN  [x |-> <<r.x>> \o t.x, new |-> r.new \o t.new]

(* ----------------------------- building --------------------------------- *)
(* A step: new bytes, and whether it succeeded.                              *)
BuildStep(pool, ty, b, o) ==
  CASE o.s = "ap" -> IF pool[o.i].ty = ty THEN [b |-> b \o pool[o.i].b, r |-> 1] ELSE [b |-> b, r |-> -1]
    [] o.s \in {"tb", "ts", "tp", "tc"} -> IF Contains(o.b, BadBytes(ty)) THEN [b |-> b, r |-> 0] ELSE [b |-> b \o o.b, r |-> 1]
    [] o.s = "cu" -> [b |-> b, r |-> Bool(IsUtf8(b))]
    [] OTHER -> [b |-> b, r |-> 1]
RECURSIVE BuildRun(_, _, _, _, _)
BuildRun(pool, ty, b, script, k) ==
  IF k > Len(script) THEN [b |-> b, x |-> << >>]
  ELSE LET r == BuildStep(pool, ty, b, script[k])
           t == BuildRun(pool, ty, r.b, script, k + 1)
       IN  [b |-> t.b, x |-> <<r.r>> \o t.x]

(* ------------------------------ user ids -------------------------------- *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _, _)
Digits(n, base, w) == IF w = 0 THEN << >> ELSE Append(Digits(n \div base, base, w - 1), HexDigit(n % base))

(* ----------------------------- operations ------------------------------- *)
(* st: "ok", "err" or "skip" (not applicable); pool; touched: indices of the *)
(* strings replaced or added; x: other results.                              *)
R(st, pool, touched, x) == [st |-> st, pool |-> pool, touched |-> touched, x |-> x]
Skip(pool) == R("skip", pool, << >>, << >>)
Put(pool, i, v) == R("ok", [pool EXCEPT ![i] = v], <<i>>, << >>)
Add(pool, v) == R("ok", Append(pool, v), <<Len(pool) + 1>>, << >>)
AddAll(pool, vs, x) == R("ok", pool \o vs, SubSeq([j \in 1..Len(vs) |-> Len(pool) + j], 1, Len(vs)), x)
Lost(pool, i) == R("err", [pool EXCEPT ![i] = None], << >>, << >>)
Secretly(how) == how \in {"secretvec", "secretbuf"}
JsonKind(js) == js[1]
StrStep(pool, o) ==
  IF o.k = "new" THEN
    IF ~Valid(o.ty, o.b) \/ (o.how \in {"static", "string", "str"} /\ ~IsUtf8(o.b)) THEN R("err", pool, << >>, << >>)
    ELSE Add(pool, Val(o.ty, o.b, Secretly(o.how)))
  ELSE IF o.k = "de" THEN
    LET got == CASE o.js = "null" -> <<<< >>>> [] o.js = "false" -> <<<< >>>> [] o.js \in {"str", "string", "json", "bytes"} -> <<o.b>> [] OTHER -> << >>
    IN  IF got = << >> THEN R("err", pool, << >>, << >>)
        ELSE IF ~Valid(o.ty, got[1]) \/ (o.js # "bytes" /\ ~IsUtf8(o.b)) THEN R("err", pool, << >>, << >>) ELSE Add(pool, Val(o.ty, got[1], FALSE))
  ELSE IF o.k = "uid" THEN Add(pool, Val("User", <<105>> \o Digits(o.n, 16, 8), FALSE))
  ELSE IF o.k = "uids" THEN Add(pool, Val("User", <<105>> \o Digits(o.n, 10, 5), FALSE))
  ELSE IF o.k = "build" THEN
    LET init == IF o.i = 0 THEN Val(o.ty, << >>, FALSE) ELSE pool[o.i]
    IN  IF (o.i = 0 /\ ~Default(o.ty)) \/ init.ty # o.ty THEN Skip(pool)
        ELSE LET r == BuildRun(pool, o.ty, init.b, o.script, 1) IN AddAll(pool, <<Val(o.ty, r.b, FALSE)>>, r.x)
  ELSE LET v == pool[o.i]
       IN  CASE o.k = "clone" -> Add(pool, v)
             [] o.k \in {"own", "mkown"} -> Put(pool, o.i, v)
             [] o.k = "sec" -> Put(pool, o.i, [v EXCEPT !.sec = TRUE])
             [] o.k = "drop" -> Put(pool, o.i, None)
             [] o.k = "lossy" -> Put(pool, o.i, Val("Bytes", Lossy(v.b), v.sec))
             [] o.k = "vec" -> Put(pool, o.i, Val("Bytes", v.b, FALSE))
             [] o.k = "up" -> IF o.ty \in Ancestors(v.ty) THEN Put(pool, o.i, [v EXCEPT !.ty = o.ty]) ELSE Skip(pool)
             [] o.k = "cast" -> IF Valid(o.ty, v.b) THEN Put(pool, o.i, [v EXCEPT !.ty = o.ty]) ELSE Lost(pool, o.i)
             [] o.k = "down" -> IF v.ty # Super(o.ty) THEN Skip(pool) ELSE IF Valid(o.ty, v.b) THEN Put(pool, o.i, [v EXCEPT !.ty = o.ty]) ELSE Lost(pool, o.i)
             [] o.k = "cmdw" -> IF "Word" \notin Ancestors(v.ty) THEN Skip(pool)
                                ELSE IF v.b # << >> /\ ~Contains(v.b, (0..255) \ Alpha) THEN Put(pool, o.i, [v EXCEPT !.ty = "Cmd", !.b = ToUpper(@)]) ELSE Lost(pool, o.i)
             [] o.k = "nick" -> IF "Arg" \notin Ancestors(v.ty) THEN Skip(pool)
                                ELSE IF Valid("Nick", v.b) THEN Put(pool, o.i, [v EXCEPT !.ty = "Nick"]) ELSE Lost(pool, o.i)
             [] o.k = "tf" -> IF v.ty \in TfTypes(o.name) THEN Put(pool, o.i, [v EXCEPT !.b = Transform(o.name, @)]) ELSE Skip(pool)
             [] o.k = "esc" -> IF v.ty = "Bytes" THEN Skip(pool) ELSE Put(pool, o.i, [v EXCEPT !.ty = "Word", !.b = Escape(@)])
             [] o.k = "unesc" -> IF v.ty = "Bytes" THEN Skip(pool) ELSE Put(pool, o.i, [v EXCEPT !.ty = "NoNul", !.b = Unescape(@)])
             [] o.k = "b64" -> Add(pool, Val("Word", Enc64(v.b), v.sec))
             [] o.k = "b64p" -> Add(pool, Val("Arg", IF v.b = << >> THEN bSym43 ELSE Enc64(v.b), v.sec))
             [] o.k = "chunk" -> LET cs == Chunks(v.b, o.n) IN AddAll(pool, SubSeq([j \in 1..Len(cs) |-> Val("Arg", cs[j], v.sec)], 1, Len(cs)), << >>)
             [] o.k = "utf8" -> R("ok", pool, <<o.i>>, <<Bool(IsUtf8(v.b))>>)
             [] o.k = "lview" -> R("ok", pool, <<o.i>>, Lossy(v.b))
             [] o.k = "ctag" -> IF v.ty = "Key" THEN R("ok", pool, << >>, <<Bool(v.b[1] = 43)>>) ELSE Skip(pool)
             [] o.k = "tilde" -> IF v.ty = "User" THEN R("ok", pool, << >>, <<Bool(v.b[1] # 126), Len(v.b) + Bool(v.b[1] # 126)>>) ELSE Skip(pool)
             [] o.k = "cstr" -> IF v.ty = "Bytes" THEN Skip(pool) ELSE R("ok", pool, << >>, v.b)
             [] o.k = "cmp" -> R("ok", pool, << >>, <<Bool(v.b = pool[o.j].b), IF v.b = pool[o.j].b THEN 0 ELSE IF LexLess(v.b, pool[o.j].b) THEN -1 ELSE 1>>)
             [] o.k = "split" -> LET r == SplitRun(SplitNew(v), o.script, 1) IN AddAll(pool, r.new, r.x)
             [] o.k = "msg" -> IF "Line" \notin Ancestors(v.ty) THEN Skip(pool) ELSE R("ok", pool, << >>, v.b)
             [] o.k = "ser" -> IF IsUtf8(v.b) THEN Put(pool, o.i, [v EXCEPT !.sec = FALSE]) ELSE Skip(pool)
Disp(v) == IF v.sec \/ ~IsUtf8(v.b) THEN <<60, 63, 62>> ELSE v.b

(* --------------------------- secret buffers ----------------------------- *)
(* Contents after an operation and its result.  A read delivers the reader's *)
(* pieces until enough bytes were read, an empty piece or an error.          *)
RECURSIVE ReadUpTo(_, _, _)
ReadUpTo(pieces, k, want) ==
  IF want = 0 \/ k > Len(pieces) THEN [b |-> << >>, err |-> FALSE]
  ELSE IF pieces[k].err THEN [b |-> << >>, err |-> TRUE]
  ELSE IF pieces[k].b = << >> THEN [b |-> << >>, err |-> FALSE]
  ELSE LET p == pieces[k].b
           got == Upto(p, IMin(Len(p), want))
           rest == IF Len(p) > want THEN [b |-> << >>, err |-> FALSE] ELSE ReadUpTo(pieces, k + 1, want - Len(p))
       IN  [b |-> got \o rest.b, err |-> rest.err]
BufStep(b, o) ==
  CASE o.k \in {"cap", "dflt"} -> [b |-> << >>, x |-> << >>]
    [] o.k \in {"from", "iter"} -> [b |-> o.b, x |-> << >>]
    [] o.k = "push" -> [b |-> Append(b, o.v), x |-> << >>]
    [] o.k = "cstr" -> [b |-> b \o o.b \o <<0>>, x |-> << >>]
    [] o.k = "slice" -> [b |-> b \o o.b, x |-> << >>]
    [] o.k = "read" -> LET r == ReadUpTo(o.pieces, 1, o.n)
                       IN  IF r.err THEN [b |-> b, x |-> <<-1>>] ELSE [b |-> b \o r.b, x |-> <<Len(r.b)>>]
    [] o.k = "into" -> [b |-> << >>, x |-> <<1>>]
    [] o.k = "clear" -> [b |-> << >>, x |-> << >>]
    [] OTHER -> [b |-> b, x |-> << >>]     \* reserve, clone, view
=============================================================================
