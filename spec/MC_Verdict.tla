----------------------------- MODULE MC_Verdict ----------------------------
(* The remembered verdict on whether a string is UTF-8, shared by all who    *)
(* hold the string and kept in a variable without any ordering: a thread may *)
(* read any value stored that is not older than what it read or stored       *)
(* itself.  Whoever finds nothing looks at the text and stores what it found.*)
(* Hasty: the verdict is stored before the text was looked at, and corrected *)
(* afterwards; TLC shows that this is wrong for any reader in between, and,  *)
(* as nothing is ordered, for readers long after, too.                       *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, MaxAsk, Hasty
Th == 1..N
Truths == {1, 2}                \* it is UTF-8, it is not
VARIABLES truth, stored,        \* values stored, in modification order (0: nothing known)
          seen, pc, asked, told \* told: every verdict a thread was given
vars == <<truth, stored, seen, pc, asked, told>>
Init == /\ truth \in Truths /\ stored = <<0>> /\ seen = [t \in Th |-> 1]
        /\ pc = [t \in Th |-> "idle"] /\ asked = [t \in Th |-> 0] /\ told = {}
Known(t) == {p \in seen[t]..Len(stored) : TRUE}
(* Asking without looking. *)
Lazy(t) == /\ pc[t] = "idle" /\ asked[t] < MaxAsk /\ asked' = [asked EXCEPT ![t] = @ + 1]
           /\ \E p \in Known(t) : /\ seen' = [seen EXCEPT ![t] = p]
                                  /\ told' = told \cup {stored[p]}
           /\ UNCHANGED <<truth, stored, pc>>
Ask(t) == /\ pc[t] = "idle" /\ asked[t] < MaxAsk /\ asked' = [asked EXCEPT ![t] = @ + 1]
          /\ \E p \in Known(t) :
               IF stored[p] # 0 THEN /\ seen' = [seen EXCEPT ![t] = p] /\ told' = told \cup {stored[p]}
                                     /\ UNCHANGED <<pc, stored>>
               ELSE IF Hasty THEN /\ stored' = Append(stored, 1) /\ seen' = [seen EXCEPT ![t] = Len(stored) + 1]
                                  /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED told
               ELSE /\ seen' = [seen EXCEPT ![t] = p] /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<told, stored>>
          /\ UNCHANGED truth
Look(t) == /\ pc[t] = "look" /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ stored' = Append(stored, truth) /\ seen' = [seen EXCEPT ![t] = Len(stored) + 1]
           /\ told' = told \cup {truth}
           /\ UNCHANGED <<truth, asked>>
Next == \E t \in Th : Lazy(t) \/ Ask(t) \/ Look(t)
Spec == Init /\ [][Next]_vars
(* A verdict that is given is the truth. *)
NeverWrong == told \subseteq {0, truth}
(* Once a thread asked, nothing older is told to it. *)
Remembers == \A t \in Th : (pc[t] = "idle" /\ stored[seen[t]] # 0) => \A p \in Known(t) : stored[p] # 0
=============================================================================
