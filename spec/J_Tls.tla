------------------------------- MODULE J_Tls -------------------------------
(* Judges recorded connections.                                              *)
EXTENDS Tls, Judge
Accepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE IF ~ConfigOk(e) THEN e.out.r = "noconfig"
  ELSE IF ~Sealed(e) THEN e.out.r = "accept" /\ e.out.clear /\ ~e.out.called /\ e.out.end = End(e)
  ELSE /\ ~e.out.clear /\ e.out.called
       /\ IF e.server # "plain" /\ Proven(e) /\ Believed(e)
          THEN e.out.r = "accept" /\ e.out.shown = Shown(e) /\ e.out.end = End(e)
          ELSE e.out.r = "reject"
AddrAccepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE LET a == e.a  b == e.b  same == a.host = b.host /\ a.tls = b.tls /\ PortOf(a.tls, a.port) = PortOf(b.tls, b.port)
       IN /\ e.out.port = PortOf(a.tls, a.port)
          /\ e.out.eq = same
          /\ same => e.out.hash
          /\ (a.tls /\ a.port = 0) => e.out.short
Conforms == LET e == Trace[lineNo] IN IF "a" \in DOMAIN e THEN AddrAccepts(e) ELSE Accepts(e)
=============================================================================
