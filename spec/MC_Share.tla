------------------------------ MODULE MC_Share -----------------------------
(* The reference count that decides who may free or reuse a shared buffer,   *)
(* under release/acquire semantics.  The count's modification order is kept  *)
(* with the view each store publishes; a thread's view counts the accesses   *)
(* of every thread that happen before what it does next.  Freeing or taking  *)
(* the buffer is a write: every access by another thread must be in the view.*)
(* The constants say which orderings the code uses; with any of them off,    *)
(* TLC finds a race.  Programs are replayed into the real strings.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS N, MaxOps, MaxH, Ref, RelDrop, AcqDrop, AcqTake, Emit
Th == 0..N                       \* thread 0 is the main thread
VARIABLES hs,                    \* live handles of each thread
          order,                 \* values of the count in modification order, with the view published
          seen,                  \* last position of the order each thread knows of
          view, acc,             \* vector clocks; accesses made so far by each thread
          over,                  \* threads that ended
          freed, race, late, todo, prog
vars == <<hs, order, seen, view, acc, over, freed, race, late, todo, prog>>
Max2(a, b) == IF a >= b THEN a ELSE b
Merge(a, b) == [t \in Th |-> Max2(a[t], b[t])]
Last == order[Len(order)]
(* Main creates the buffer and the other threads (one handle each), and then *)
(* drops its own handle, unless the threads may borrow from it.              *)
Init == /\ hs = [t \in Th |-> IF t = 0 THEN (IF Ref THEN 1 ELSE 0) ELSE 1]
        /\ order = <<[v |-> IF Ref THEN N + 1 ELSE N, w |-> [t \in Th |-> 0]]>>
        /\ seen = [t \in Th |-> 1] /\ view = [t \in Th |-> [u \in Th |-> 0]] /\ acc = [t \in Th |-> 0]
        /\ over = {} /\ freed = 0 /\ race = FALSE /\ late = FALSE /\ todo = [t \in Th |-> MaxOps]
        /\ prog = [t \in Th |-> << >>]
Log(t, k) == prog' = IF Emit THEN [prog EXCEPT ![t] = Append(@, k)] ELSE prog
Use(t) == todo[t] > 0 /\ todo' = [todo EXCEPT ![t] = @ - 1]
CanBorrow(t) == Ref /\ t # 0 /\ 0 \notin over
(* Reading the text, through a handle or a borrow. *)
Read(t) == /\ Use(t) /\ (hs[t] > 0 \/ CanBorrow(t))
           /\ acc' = [acc EXCEPT ![t] = @ + 1] /\ view' = [view EXCEPT ![t][t] = @ + 1]
           /\ late' = (late \/ freed > 0)
           /\ Log(t, IF hs[t] > 0 THEN "r" ELSE "R")
           /\ UNCHANGED <<hs, order, seen, over, freed, race>>
Clone(t) == /\ Use(t) /\ (hs[t] > 0 \/ CanBorrow(t)) /\ hs[t] < MaxH
            /\ order' = Append(order, [v |-> Last.v + 1, w |-> Last.w])
            /\ seen' = [seen EXCEPT ![t] = Len(order) + 1]
            /\ hs' = [hs EXCEPT ![t] = @ + 1] /\ late' = (late \/ freed > 0)
            /\ Log(t, IF hs[t] > 0 THEN "c" ELSE "C")
            /\ UNCHANGED <<view, acc, over, freed, race>>
(* A write access to the whole buffer, with the given view. *)
Seize(t, w) == /\ freed' = freed + 1
               /\ race' = (race \/ \E u \in Th \ {t} : acc[u] > w[u])
Release(t) ==
  /\ order' = Append(order, [v |-> Last.v - 1, w |-> IF RelDrop THEN Merge(Last.w, view[t]) ELSE Last.w])
  /\ seen' = [seen EXCEPT ![t] = Len(order) + 1]
  /\ hs' = [hs EXCEPT ![t] = @ - 1]
  /\ late' = (late \/ freed > 0)
  /\ LET w == IF AcqDrop /\ Last.v = 1 THEN Merge(view[t], Last.w) ELSE view[t]
     IN  /\ view' = [view EXCEPT ![t] = w]
         /\ IF Last.v = 1 THEN Seize(t, w) ELSE UNCHANGED <<freed, race>>
Drop(t) == /\ Use(t) /\ hs[t] > 0 /\ Release(t) /\ Log(t, "d") /\ UNCHANGED <<acc, over>>
(* Turning a handle into a vector: if the count, as far as it is known, is   *)
(* one, the buffer is taken; otherwise it is copied and the handle dropped.  *)
Take(t) ==
  /\ Use(t) /\ hs[t] > 0
  /\ \E p \in seen[t]..Len(order) :
       IF order[p].v = 1 THEN
         LET w == IF AcqTake THEN Merge(view[t], order[p].w) ELSE view[t]
         IN  /\ Seize(t, w) /\ view' = [view EXCEPT ![t] = w] /\ hs' = [hs EXCEPT ![t] = @ - 1]
             /\ late' = (late \/ freed > 0) /\ UNCHANGED <<order, seen, acc>>
       ELSE /\ acc' = [acc EXCEPT ![t] = @ + 1]
            /\ LET v2 == [view EXCEPT ![t][t] = @ + 1]
                   w == IF AcqDrop /\ Last.v = 1 THEN Merge(v2[t], Last.w) ELSE v2[t]
               IN  /\ order' = Append(order, [v |-> Last.v - 1, w |-> IF RelDrop THEN Merge(Last.w, v2[t]) ELSE Last.w])
                   /\ view' = [v2 EXCEPT ![t] = w]
                   /\ IF Last.v = 1 THEN freed' = freed + 1 /\ race' = (race \/ \E u \in Th \ {t} : acc[u] > w[u])
                      ELSE UNCHANGED <<freed, race>>
            /\ seen' = [seen EXCEPT ![t] = Len(order) + 1]
            /\ hs' = [hs EXCEPT ![t] = @ - 1] /\ late' = (late \/ freed > 0)
  /\ Log(t, "v") /\ UNCHANGED over
(* A thread ends: its handles are dropped one by one, and then it is joined. *)
Finish(t) == /\ t # 0 /\ t \notin over /\ hs[t] > 0 /\ Release(t) /\ UNCHANGED <<acc, over, prog>> /\ todo' = [todo EXCEPT ![t] = 0]
Join(t) == /\ t # 0 /\ t \notin over /\ hs[t] = 0 /\ over' = over \cup {t}
           /\ view' = [view EXCEPT ![0] = Merge(@, view[t])] /\ seen' = [seen EXCEPT ![0] = Max2(@, seen[t])]
           /\ todo' = [todo EXCEPT ![t] = 0]
           /\ UNCHANGED <<hs, order, acc, freed, race, late, prog>>
Main == over = 1..N /\ (Read(0) \/ Take(0) \/ Drop(0))
MainEnd == over = 1..N /\ hs[0] > 0 /\ Release(0) /\ UNCHANGED <<acc, over, prog, todo>>
Step == \E t \in 1..N : t \notin over /\ (Read(t) \/ Clone(t) \/ Drop(t) \/ Take(t) \/ Finish(t) \/ Join(t))
Next == Step \/ Main \/ MainEnd
Spec == Init /\ [][Next]_vars
NoRace == ~race
NoLateUse == ~late
OnceOnly == freed <= 1
NoLeak == (\A t \in Th : hs[t] = 0) => freed = 1
(* Nobody else is left when the buffer is freed or taken. *)
Alone == freed = 1 => \A t \in Th : hs[t] = 0
Emitted == (Emit /\ over = 1..N) =>
  PrintT("@@" \o ToJson([mode |-> IF Ref THEN "ref" ELSE "own", progs |-> [t \in 1..N |-> prog[t]]]))
=============================================================================
