-------------------------------- MODULE FMap -------------------------------
(* The keyed collections (tag sets, capability and ISUPPORT maps, client     *)
(* state) as finite maps: a set of <<key, value, extra>> with unique keys.   *)
(* Op: [k, key, v, x] (and how, pairs for k = "from").                       *)
EXTENDS ByteSeq
At(m, key) == {e \in m : e[1] = key}
The(S) == CHOOSE e \in S : TRUE
Put3(m, e) == (m \ At(m, e[1])) \cup {e}
One(S) == IF S = {} THEN << >> ELSE The(S)
RECURSIVE FromPairs(_)
FromPairs(ps) == IF ps = << >> THEN {} ELSE LET n == Len(ps) IN Put3(FromPairs(Upto(ps, n - 1)), <<ps[n][1], ps[n][2], 0>>)
(* [m: the map after the operation, r: what the operation returns]           *)
MStep(m, o) ==
  LET h == At(m, o.key)
      e == <<o.key, o.v, o.x>>
  IN  CASE o.k = "insert" -> [m |-> Put3(m, e), r |-> One(h)]
        [] o.k = "try" -> IF h = {} THEN [m |-> m \cup {e}, r |-> << >>] ELSE [m |-> m, r |-> e]
        [] o.k = "upsert" ->      \* the value stays, the extra changes; the argument is handed back
             IF h = {} THEN [m |-> m \cup {e}, r |-> << >>]
             ELSE [m |-> Put3(m, <<o.key, The(h)[2], o.x>>), r |-> <<o.key, o.v>>]
        [] o.k = "remove" -> [m |-> m \ h, r |-> One(h)]
        [] o.k = "get" -> [m |-> m, r |-> One(h)]
        [] o.k = "setx" -> IF h = {} THEN [m |-> m, r |-> << >>]
                           ELSE [m |-> Put3(m, <<o.key, The(h)[2], o.x>>), r |-> <<The(h)[3]>>]
        [] o.k = "setv" -> IF h = {} THEN [m |-> m, r |-> << >>] ELSE [m |-> Put3(m, e), r |-> <<The(h)[2]>>]
        [] o.k = "len" -> [m |-> m, r |-> <<Cardinality(m), IF m = {} THEN 1 ELSE 0>>]
        [] o.k = "clear" -> [m |-> {}, r |-> << >>]
        [] o.k = "from" -> [m |-> FromPairs(o.pairs), r |-> << >>]
        [] OTHER -> [m |-> m, r |-> << >>]          \* open, close, leak, clone
=============================================================================
