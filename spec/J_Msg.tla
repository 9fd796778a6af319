------------------------------- MODULE J_Msg -------------------------------
(* Judges recorded calls of the message parsers and writers against Msg.     *)
EXTENDS Msg, Judge

Same(out, m) ==                   \* a recorded parse result equals spec result m
  IF ~m.ok THEN out.ok = FALSE /\ out.err = m.err
  ELSE /\ out.ok = TRUE
       /\ Len(out.tags) = Cardinality(m.tags)
       /\ Range(out.tags) = m.tags
       /\ out.src = m.src /\ out.kind = m.kind /\ out.args = m.args /\ out.long = m.long

(* A failed parse: which failure, whether it names a cause, and its text.     *)
Failed(o, err) ==
  /\ o.ok = FALSE /\ o.err = err
  /\ o.cause = (err \notin {"TooLong", "MissingField"})
  /\ o.told

JParse(e) ==
  LET m == ParseLine(e.side, e.in)
      o == e.out
  IN  /\ Same(o, m)
      /\ o.same
      /\ ~m.ok => Failed(o, m.err)
      /\ m.ok => LET w == WriteMsg(m)
                     sl == IF m.src = << >> THEN 0 ELSE Len(WriteSource(m.src))
                 IN /\ o.wr = w
                    /\ o.eq
                    /\ o.slen = sl
                    /\ o.left = BytesLeft(m.kind, sl, m.args)
                    /\ o.lenb = ArgsLenBytes(m.args)
                    /\ o.nargs = Len(m.args)
                    /\ IsUtf8(w) => o.disp = w
                    /\ ParseLine(e.side, w) = m

JBuild(e) ==
  LET m == [ok |-> TRUE, tags |-> Range(e.tags), src |-> e.src, kind |-> e.kind, args |-> e.args, long |-> e.long]
      w == WriteMsg(m)
  IN  /\ e.out.wr = <<w \o <<13, 10>>>>
      /\ Len(e.out.rd) = 1
      /\ Same(e.out.rd[1], m)
      /\ e.out.eq
      /\ ParseLine(e.side, w) = m

(* Argument-list editing. *)
Fill(n, x) == SubSeq([i \in 1..n |-> x], 1, n)
AStep(st, op) ==
  LET n == Len(st.args)
      w == IF st.long THEN Upto(st.args, n - 1) ELSE st.args     \* the words
  IN  CASE op.k = "clear" -> [args |-> << >>, long |-> FALSE, ret |-> << >>]
        [] op.k = "word" ->
             [args |-> w \o <<op.s>> \o (IF st.long THEN <<st.args[n]>> ELSE << >>), long |-> st.long, ret |-> << >>]
        [] op.k = "before" ->
             [args |-> IF n = 0 THEN <<op.s>> ELSE Upto(st.args, n - 1) \o <<op.s, st.args[n]>>,
              long |-> st.long, ret |-> << >>]
        [] op.k \in {"add", "lit"} ->
             [args |-> w \o <<op.s>>, long |-> ~Valid("Arg", op.s),
              ret |-> IF st.long /\ op.k = "add" THEN <<st.args[n]>> ELSE << >>]
        [] op.k = "drop" -> [args |-> << >>, long |-> FALSE, ret |-> << >>]
        [] op.k = "setw" ->
             [args |-> Fill(Len(w), op.s) \o (IF st.long THEN <<st.args[n]>> ELSE << >>),
              long |-> st.long, ret |-> <<Len(w)>>]
        [] op.k = "setall" ->
             [args |-> IF st.long \/ n = 0 THEN st.args ELSE Upto(st.args, n - 1) \o <<op.s>>,
              long |-> st.long, ret |-> << >>]
        [] op.k = "setinit" ->
             [args |-> IF n = 0 THEN << >> ELSE Fill(n - 1, op.s) \o <<st.args[n]>>,
              long |-> st.long, ret |-> IF n = 0 THEN << >> ELSE <<st.args[n]>>]
RECURSIVE AWalk(_, _, _)
AWalk(st, ops, outs) ==
  IF ops = << >> THEN outs = << >>
  ELSE LET t == AStep(st, ops[1]) o == outs[1] IN
       /\ o.args = t.args /\ o.long = t.long /\ o.ret = t.ret
       /\ o.left = 15 - Len(t.args) /\ o.n = Len(t.args) /\ o.lenb = ArgsLenBytes(t.args)
       /\ o.all = ~t.long /\ o.words = Len(t.args) - (IF t.long THEN 1 ELSE 0)
       /\ o.emp = (t.args = << >>) /\ o.own
       /\ LET w == WriteArgs(t.args, t.long) IN IsUtf8(w) => o.disp = w
       /\ AWalk(t, Tail(ops), Tail(outs))

(* A source's parts: accessors, and every kind of copy, whose text must not    *)
(* depend on the buffer the source was parsed from.                           *)
JSrc(e) ==
  LET r == ParseSource(e.in) o == e.out
  IN  IF ~r.ok THEN Failed(o, r.err)
      ELSE LET n == Len(r.v)
               user == IF n = 3 THEN r.v[2] ELSE << >>
           IN
           /\ o.ok = TRUE /\ o.v = r.v /\ o.wr = WriteSource(r.v) /\ o.len = Len(o.wr)
           /\ o.copies = <<r.v>> /\ IsUtf8(o.wr) => o.disp = o.wr
           /\ o.user = user
           /\ IF n = 1 THEN o.host = << >> /\ o.uh = << >>
              ELSE LET uw == IF user = << >> THEN r.v[3] ELSE user[1] \o <<64>> \o r.v[3]
                       u == o.uh[1]
                   IN /\ o.host = <<r.v[3]>> /\ Len(o.uh) = 1
                      /\ u.wr = uw /\ u.len = Len(uw)
                      /\ u.ident = ~(user # << >> /\ user[1][1] = 126)
                      /\ IsUtf8(uw) => u.disp = uw

(* user@host on its own. *)
JUserHost(e) ==
  LET b == e.in
      at == {i \in 1..Len(b) : b[i] = 64}
      i == IF at = {} THEN Len(b) + 1 ELSE CHOOSE k \in at : \A l \in at : k <= l
      host == From(b, i + 1)
      user == Upto(b, i - 1)
      o == e.out
  IN  IF ~Valid("User", user) THEN Failed(o, "InvalidUser")
      ELSE IF host = << >> THEN Failed(o, "InvalidHost")
      ELSE o.ok = TRUE /\ o.own /\ o.host = host /\ o.user = <<user>>

Accepts(e) ==
  /\ e.st = "ok"
  /\ CASE e.op = "parse" -> JParse(e)
       [] e.op = "build" -> JBuild(e)
       [] e.op = "args"  -> AWalk([args |-> << >>, long |-> FALSE], e.ops, e.out)
       [] e.op = "pargs" -> LET a == ParseArgs(e.in)
                            IN e.out.args = a.args /\ e.out.long = a.long /\ e.out.lenb = ArgsLenBytes(a.args)
                               /\ e.out.own
       [] e.op = "ptags" -> LET t == ParseTags(e.in)
                            IN Len(e.out.tags) = Cardinality(t) /\ Range(e.out.tags) = t
                               /\ e.out.wr = WriteTags(t) /\ e.out.n = Cardinality(t)
                               /\ e.out.own
       [] e.op = "psrc"  -> JSrc(e)
       [] e.op = "puh"   -> JUserHost(e)
       [] e.op = "ctcp"  -> LET c == ParseCtcp(e.in) o == e.out
                            IN /\ o.cmd = c.cmd /\ o.body = c.body /\ o.is = (c.cmd # << >>)
                               /\ o.line = WriteCtcp(c) /\ o.len = Len(o.line)
       [] e.op = "esc"   -> e.out.esc = Escape(e.in) /\ e.out.unesc = Unescape(e.in) /\ Unescape(e.out.esc) = e.in
       [] e.op = "num"   -> IF IsNumeric(e.in)
                            THEN e.out = <<[int |-> (e.in[1]-48)*100 + (e.in[2]-48)*10 + e.in[3]-48, s |-> e.in, rt |-> TRUE]>>
                            ELSE e.out = << >>

Conforms == Accepts(Trace[lineNo])
=============================================================================
