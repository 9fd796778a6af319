------------------------------- MODULE MC_Map ------------------------------
(* The flat map's algorithm (a vector whose first `sorted` entries are in    *)
(* strict key order while a guard is open) refines the finite map, for every *)
(* sequence of guard operations; the histories are replayed into the code.   *)
EXTENDS FMap, Json
CONSTANTS MaxOps, NKeys, Emit, Kind
VARIABLES m, vec, sorted, open, hist
vars == <<m, vec, sorted, open, hist>>
Ks == {<<96 + k>> : k \in 1..NKeys}
Op(k, key, x) == [k |-> k, key |-> key, v |-> IF Kind = "cap" THEN <<49>> ELSE <<48 + (x % 10)>>, x |-> IF Kind = "cap" THEN x ELSE 0]
N == Len(hist) + 1
GuardOps == IF Kind = "cap" THEN {"insert", "try", "upsert", "remove", "get", "setx"} ELSE {"insert", "remove", "get", "setv"}
Ops ==
  IF open THEN {Op(k, key, N) : k \in GuardOps, key \in Ks} \cup {Op(k, << >>, 0) : k \in {"len", "clear", "close", "leak"}}
  ELSE {Op(k, << >>, 0) : k \in {"open"}}
(* position of key in the vector: anywhere, the sorted part or the rest *)
Pos(key) == {j \in 1..Len(vec) : vec[j][1] = key}
Push(e) ==
  LET ordered == sorted = Len(vec) /\ (vec = << >> \/ LexLess(vec[Len(vec)][1], e[1]))
  IN  vec' = Append(vec, e) /\ sorted' = IF ordered THEN sorted + 1 ELSE sorted
SortVec(s) ==
  LET ord == CHOOSE f \in [1..Len(s) -> 1..Len(s)] :
               \A a, b \in 1..Len(s) : a < b => LexLess(s[f[a]][1], s[f[b]][1])
  IN  [j \in 1..Len(s) |-> s[ord[j]]]
Alg(o) ==
  LET p == Pos(o.key)
      e == <<o.key, o.v, o.x>>
      at == The(p)
      n == Len(vec)
  IN  CASE o.k \in {"insert", "try", "upsert"} /\ p = {} -> Push(e)
        [] o.k = "insert" -> vec' = [vec EXCEPT ![at] = e] /\ UNCHANGED sorted
        [] o.k = "upsert" -> vec' = [vec EXCEPT ![at] = <<o.key, @[2], o.x>>] /\ UNCHANGED sorted
        [] o.k = "setx" /\ p # {} -> vec' = [vec EXCEPT ![at] = <<o.key, @[2], o.x>>] /\ UNCHANGED sorted
        [] o.k = "setv" /\ p # {} -> vec' = [vec EXCEPT ![at] = e] /\ UNCHANGED sorted
        [] o.k = "remove" /\ p # {} ->     \* swap_remove over the whole vector
             vec' = SubSeq([vec EXCEPT ![at] = vec[n]], 1, n - 1) /\ sorted' = IMin(sorted, at - 1)
        [] o.k = "clear" -> vec' = << >> /\ sorted' = 0
        [] o.k = "close" -> vec' = SortVec(vec) /\ sorted' = n
        [] o.k = "leak" -> vec' = Upto(vec, sorted) /\ UNCHANGED sorted
        [] OTHER -> UNCHANGED <<vec, sorted>>
Do(o) ==
  /\ Len(hist) < MaxOps
  /\ Alg(o)
  /\ m' = IF o.k = "leak" THEN Range(Upto(vec, sorted)) ELSE MStep(m, o).m
  /\ open' = (o.k = "open" \/ (open /\ o.k \notin {"close", "leak"}))
  /\ hist' = Append(hist, o)
Init == m = {} /\ vec = << >> /\ sorted = 0 /\ open = FALSE /\ hist = << >>
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == <<m, vec, sorted, open, Len(hist)>>
Refines == Range(vec) = m /\ Len(vec) = Cardinality(m)
UniqueKeys == \A a, b \in m : a[1] = b[1] => a = b
PrefixSorted == \A j \in 1..(sorted - 1) : LexLess(vec[j][1], vec[j + 1][1])
ClosedSorted == ~open => sorted = Len(vec)
Closed == IF open THEN Append(hist, Op("close", << >>, 0)) ELSE hist
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson([op |-> "map", m |-> Kind, a |-> Closed, b |-> << >>]))
=============================================================================
