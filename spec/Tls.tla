-------------------------------- MODULE Tls --------------------------------
(* Connecting to a server.  A server shows a certificate and a proof that it *)
(* holds the key; the client's trust settings say whom to believe.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[k] : k \in 1..Len(s)}
(* what the certificates are: issuer, for this host's name and address, not  *)
(* expired (nor still to come), for servers                                  *)
Cert(i, n, f, p) == [issuer |-> i, name |-> n, fresh |-> f, purpose |-> p]
Certs ==
  "good1" :> Cert("ca1", TRUE, TRUE, TRUE) @@ "good2" :> Cert("ca2", TRUE, TRUE, TRUE) @@ "goodsys" :> Cert("sys", TRUE, TRUE, TRUE)
  @@ "rsa1" :> Cert("ca1", TRUE, TRUE, TRUE) @@ "name1" :> Cert("ca1", FALSE, TRUE, TRUE) @@ "old1" :> Cert("ca1", TRUE, FALSE, TRUE)
  @@ "young1" :> Cert("ca1", TRUE, FALSE, TRUE) @@ "purpose1" :> Cert("ca1", TRUE, TRUE, FALSE) @@ "self" :> Cert("self", TRUE, TRUE, TRUE)
  @@ "chain1" :> Cert("int1", TRUE, TRUE, TRUE) @@ "lone1" :> Cert("int1", TRUE, TRUE, TRUE)
(* int1 was itself issued by ca1; a server that shows "chain1" sends it along. *)
Issuers(x) == {Certs[x].issuer} \cup (IF x = "chain1" THEN {"ca1"} ELSE {})
FileRoots(f) == IF f = "both" THEN {"ca1", "ca2"} ELSE IF f \in {"ca1", "ca2", "int1"} THEN {f} ELSE {}
Roots(t, files) ==
  (IF t \in {"default", "also"} THEN {"sys"} ELSE {})
  \cup (IF t \in {"only", "also"} THEN UNION {FileRoots(f) : f \in Range(files)} ELSE {})
(* Settings that name files which are missing, damaged or lack a (PKCS#8) key *)
(* are refused.                                                              *)
ConfigOk(c) == /\ c.cli \in {"none", "cli1", "cli2", "cli3"}
               /\ c.trust \in {"only", "also"} => {"missing", "garbled"} \cap Range(c.files) = {}
Believed(c) ==
  IF c.trust = "noverify" THEN TRUE
  ELSE LET x == Certs[c.cert] IN Issuers(c.cert) \cap Roots(c.trust, c.files) # {} /\ x.name /\ x.fresh /\ x.purpose
(* "own": signed with the certificate's key; "stolen": with another one;     *)
(* "scheme": with the right key in a way that TLS 1.3 forbids.               *)
Proven(c) == IF c.proof = "scheme" THEN c.server = "tls12" ELSE c.proof = "own"
(* The routes that never use TLS, whatever the address says.                 *)
Sealed(c) == c.tls /\ c.route \notin {"sync0", "tokio0"}
(* How the end of the connection looks: a sealed one that is cut off without *)
(* saying good-bye is not taken for one that ended.                          *)
End(c) == IF Sealed(c) /\ c.cut THEN "err" ELSE "eof"
PortOf(tls, port) == IF port # 0 THEN port ELSE IF tls THEN 6697 ELSE 6667
Shown(c) == IF c.ask /\ c.cli # "none" THEN <<c.cli>> ELSE << >>
=============================================================================
