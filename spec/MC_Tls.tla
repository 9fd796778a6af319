------------------------------- MODULE MC_Tls ------------------------------
(* Every client setting against every server, honest or not, step by step.   *)
EXTENDS Tls, Json
CONSTANTS Emit, Big
VARIABLES c, phase, sent, seen
vars == <<c, phase, sent, seen>>
Trusts == {<<"only", <<"ca1">>>>, <<"only", <<"ca2">>>>, <<"only", <<"both">>>>, <<"only", << >>>>, <<"only", <<"ca1", "ca2">>>>,
           <<"only", <<"ca2", "missing">>>>, <<"default", << >>>>, <<"also", <<"ca1">>>>, <<"also", << >>>>, <<"also", <<"missing">>>>,
           <<"noverify", << >>>>, <<"only", <<"int1">>>>, <<"only", <<"text", "ca1">>>>, <<"only", <<"ca1", "garbled">>>>, <<"also", <<"text">>>>}
Shows == {<<x, "own">> : x \in DOMAIN Certs} \cup {<<"rsa1", "scheme">>, <<"good1", "stolen">>, <<"self", "stolen">>, <<"goodsys", "stolen">>}
Clients == {<<"none", FALSE>>, <<"none", TRUE>>, <<"cli1", FALSE>>, <<"cli1", TRUE>>, <<"cli2", TRUE>>, <<"cli3", TRUE>>, <<"nokey", TRUE>>,
            <<"oldkey", FALSE>>, <<"missing", FALSE>>}
Case(x, t, s, k, r, a, big, cut) ==
  [tls |-> x[1], server |-> x[2], trust |-> t[1], files |-> t[2], cert |-> s[1], proof |-> s[2], cli |-> k[1], ask |-> k[2],
   route |-> r, addr |-> a, big |-> big, cut |-> cut, default |-> FALSE]
Servers == {<<TRUE, "tls12">>, <<TRUE, "tls13">>, <<TRUE, "plain">>, <<FALSE, "plain">>}
Cases == {Case(x, t, s, k, r, a, FALSE, FALSE) :
            x \in Servers, t \in Trusts, s \in Shows, k \in Clients, r \in {"sync", "tokio"}, a \in {"localhost", "127.0.0.1"}}
(* Without all of them: client certificates with one server, names with one client. *)
Some == {x \in Cases :
           /\ x.server = "plain" => x.cert = "good1" /\ x.proof = "own" /\ x.addr = "localhost" /\ x.cli \in {"none", "cli1"}
           /\ x.cli # "none" => x.cert = "good1" /\ x.proof = "own" /\ x.addr = "localhost"
           /\ x.ask => x.cli # "none" \/ x.addr = "localhost"}
(* Much to say, connections that are cut off, and the default ports.         *)
Talks == {Case(x, t, <<"good1", "own">>, k, r, "localhost", big, cut) :
            x \in Servers, t \in {<<"only", <<"ca1">>>>, <<"noverify", << >>>>}, k \in {<<"none", FALSE>>, <<"cli1", TRUE>>}, r \in {"sync", "tokio"},
            big \in BOOLEAN, cut \in BOOLEAN}
         \cup {Case(x, <<"only", <<"ca1">>>>, <<"good1", "own">>, <<"none", FALSE>>, r, "localhost", big, FALSE) :
            x \in {<<TRUE, "plain">>, <<FALSE, "plain">>}, r \in {"sync0", "tokio0"}, big \in BOOLEAN}
         \cup {[Case(x, <<"only", <<"ca1">>>>, <<"good1", "own">>, <<"none", FALSE>>, r, "localhost", FALSE, FALSE) EXCEPT !.default = TRUE] :
            x \in Servers, r \in {"sync", "tokio", "sync0", "tokio0"}}
Wanted == {x \in Talks : x.route \in {"sync0", "tokio0"} => x.server = "plain"} \cup (IF Big THEN Cases ELSE Some)
Addrs == [host : {"a.example", "a.exampl", ""}, tls : BOOLEAN, port : {0, 1, 6667, 6697, 65535}]
Init == c \in Wanted /\ phase = "start" /\ sent = {} /\ seen = << >>
Configure == phase = "start" /\ phase' = (IF ConfigOk(c) THEN "ready" ELSE "refused") /\ UNCHANGED <<c, sent, seen>>
Connect == /\ phase = "ready"
           /\ IF Sealed(c) THEN phase' = "hello" ELSE phase' = "open"
           /\ UNCHANGED <<c, sent, seen>>
Flight == /\ phase = "hello"
          /\ IF c.server = "plain" THEN phase' = "closed" /\ UNCHANGED seen
             ELSE IF Proven(c) /\ Believed(c) THEN phase' = "open" /\ seen' = Shown(c)
             ELSE phase' = "closed" /\ UNCHANGED seen
          /\ UNCHANGED <<c, sent>>
Talk == phase = "open" /\ sent' = sent \cup {IF Sealed(c) THEN "sealed" ELSE "clear"} /\ phase' = "done" /\ UNCHANGED <<c, seen>>
Next == Configure \/ Connect \/ Flight \/ Talk
Spec == Init /\ [][Next]_vars
NeverClear == "clear" \in sent => ~c.tls \/ c.route \in {"sync0", "tokio0"}
Authentic == "sealed" \in sent /\ c.trust # "noverify" => Issuers(c.cert) \cap Roots(c.trust, c.files) # {} /\ Certs[c.cert].name /\ Certs[c.cert].fresh
Possession == "sealed" \in sent => c.proof # "stolen"
NoUnknownRoots == "sealed" \in sent /\ c.trust = "only" => Certs[c.cert].issuer # "sys"
SamePorts == \A a, b \in Addrs : a.host = b.host /\ a.tls = b.tls /\ a.port = 0 /\ b.port = PortOf(b.tls, 0) => PortOf(a.tls, a.port) = PortOf(b.tls, b.port)
NotShown == seen # << >> => seen[1] = c.cli
AddrsEmitted == \A a, b \in Addrs : PrintT("@@" \o ToJson([a |-> a, b |-> b]))
ASSUME Emit => AddrsEmitted
ASSUME SamePorts
Emitted == Emit /\ phase = "start" => PrintT("@@" \o ToJson(c))
=============================================================================
