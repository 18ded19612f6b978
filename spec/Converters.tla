----------------------------- MODULE Converters -----------------------------
(* C06: the converters as callers see them. Any number of callers, each doing  *)
(* one call at a time; a call may only return the value its argument has,      *)
(* whatever other calls are under way. The implementation model splits a call  *)
(* into steps that work on scratch state private to the call.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Callers, Args, Calls       \* Calls: how many calls each caller makes
Value(a) == << a, "converted" >>     \* the function being computed
Steps == 3
VARIABLES pc, arg, scratch, done
vars == << pc, arg, scratch, done >>
Init == /\ pc = [c \in Callers |-> 0] /\ arg = [c \in Callers |-> 0] /\ scratch = [c \in Callers |-> <<>>]
        /\ done = [c \in Callers |-> <<>>]
Begin(c, a) == /\ pc[c] = 0 /\ Len(done[c]) < Calls
               /\ pc' = [pc EXCEPT ![c] = 1] /\ arg' = [arg EXCEPT ![c] = a]
               /\ scratch' = [scratch EXCEPT ![c] = <<>>] /\ UNCHANGED done
Work(c) == /\ pc[c] \in 1..(Steps - 1)
           /\ scratch' = [scratch EXCEPT ![c] = Append(@, IF pc[c] = 1 THEN arg[c] ELSE "converted")]
           /\ pc' = [pc EXCEPT ![c] = @ + 1] /\ UNCHANGED << arg, done >>
Return(c) == /\ pc[c] = Steps
             /\ done' = [done EXCEPT ![c] = Append(@, << arg[c], scratch[c] >>)]
             /\ pc' = [pc EXCEPT ![c] = 0] /\ UNCHANGED << arg, scratch >>
Next == \E c \in Callers : (\E a \in Args : Begin(c, a)) \/ Work(c) \/ Return(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Callers : WF_vars(Work(c) \/ Return(c))
(* as if the calls had been made one after another *)
Reentrant == \A c \in Callers : \A k \in 1..Len(done[c]) : done[c][k][2] = Value(done[c][k][1])
Total == \A c \in Callers : pc[c] # 0 ~> pc[c] = 0
=============================================================================
