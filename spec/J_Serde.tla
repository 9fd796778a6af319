------------------------------- MODULE J_Serde -----------------------------
(* Judges recorded storing and loading.                                      *)
EXTENDS Serde, Judge
SameMsg(o, m) ==
  /\ Len(o.tags) = Cardinality(m.tags) /\ Range(o.tags) = m.tags
  /\ o.src = m.src /\ o.kind = m.kind /\ o.args = m.args /\ o.long = m.long
(* Every way of loading agrees and gives what the document says.             *)
JDoc(e) ==
  LET m == LoadMsg(e.side, e)
  IN  \A j \in 1..Len(e.out) :
        LET o == e.out[j]
        IN  IF m.ok THEN o.ok /\ o.rt /\ SameMsg(o, m) ELSE ~o.ok
JLine(e) ==
  LET m == ParseLine(e.side, e.in)
  IN  IF ~m.ok THEN e.out = << >> ELSE Len(e.out) > 0 /\ \A j \in 1..Len(e.out) : e.out[j].rt /\ SameMsg(e.out[j], m)
JStr(e) ==
  LET r == LoadStr(e.t, e.b)
      o == e.out
  IN  IF r.ok THEN o.ok /\ o.v = e.b /\ o.rt ELSE ~o.ok
JArgs(e) ==
  LET o == e.out
  IN  IF ArgsOk(e.args) THEN o.ok /\ o.args = e.args /\ o.long = LongOf(e.args) ELSE ~o.ok
JTags(e) ==
  LET o == e.out
  IN  IF TagsOk(e.tags) THEN o.ok /\ Range(o.tags) = PutAll({}, e.tags) /\ Len(o.tags) = Cardinality(Range(o.tags)) /\ o.srt /\ o.get
      ELSE ~o.ok
JNum(e) ==
  IF e.v \in 0..999 THEN e.out.ok /\ e.out.s = Three(e.v) /\ e.out.rt ELSE ~e.out.ok
JJunk(e) == IF e.out.ok THEN GoodMsg([tags |-> Range(e.out.tags), src |-> e.out.src, kind |-> e.out.kind, args |-> e.out.args, long |-> e.out.long]) ELSE TRUE
JOpts(e) ==
  LET r == LoadOpts(e)
      o == e.out
  IN  IF ~r.ok THEN ~o.ok
      ELSE /\ o.ok /\ o.pass = r.pass /\ o.nicks = r.nicks /\ o.user = r.user /\ o.real = r.real
           /\ Range(o.caps) = r.caps /\ o.allow = r.allow /\ o.sasl = r.sasl
           /\ o.hidden
(* Loading a secret: what the loader produced, still marked secret, if it is  *)
(* a value of the type; otherwise the loader's own failure, or invalid data.  *)
JLoad(e) ==
  LET o == e.out
      b == Cat(e.parts)
  IN  IF e.by = "unit" THEN ~o.ok /\ o.err = "Unsupported"
      ELSE IF e.by = "parts" /\ e.fail # << >> THEN ~o.ok /\ o.err = "PermissionDenied"
      ELSE IF ~LoadStr(e.t, b).ok THEN ~o.ok /\ o.err = "InvalidData"
      ELSE o.ok /\ o.v = b /\ o.hid
Accepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE IF e.op = "doc" THEN JDoc(e)
  ELSE IF e.op = "line" THEN JLine(e)
  ELSE IF e.op = "sstr" THEN JStr(e)
  ELSE IF e.op = "sargs" THEN JArgs(e)
  ELSE IF e.op = "stags" THEN JTags(e)
  ELSE IF e.op = "snum" THEN JNum(e)
  ELSE IF e.op = "junk" THEN JJunk(e)
  ELSE IF e.op = "opts" THEN JOpts(e)
  ELSE IF e.op = "load" THEN JLoad(e)
  ELSE IF e.op = "cfg" THEN e.out = <<TRUE, TRUE>>
  ELSE FALSE
Conforms == Accepts(Trace[lineNo])
=============================================================================
