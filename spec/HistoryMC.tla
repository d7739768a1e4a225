------------------------------ MODULE HistoryMC ------------------------------
(* Histories of solves over objects with hidden storage (C11): coefficient tables kept at the precision of the last solve, remembered shapes, data-control inputs, noise
   vectors, parameter vectors, flags of events.  A solve may stop half-way (a field that raises).  A solve first renews every slot it reads - from its own arguments or
   from constants, never from what the slot holds - and reads only renewed slots; then its result is a function of its arguments, whatever happened before. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Args, Slots, MaxSolves
None == "none"
VARIABLES phase, arg, slot, fresh, done, out, memo
vars == <<phase, arg, slot, fresh, done, out, memo>>
Needs(a) == {s \in Slots : ~(s = 1 /\ a = "a")}  \* not every solve reads every slot
Init == phase = "idle" /\ arg = None /\ slot = [s \in Slots |-> None] /\ fresh = {} /\ done = 0 /\ out = {} /\ memo = [a \in Args |-> {}]
Begin == phase = "idle" /\ done < MaxSolves /\ \E a \in Args : arg' = a /\ phase' = "sync" /\ fresh' = {} /\ out' = {} /\ UNCHANGED <<slot, done, memo>>
Renew == phase = "sync" /\ \E s \in Needs(arg) \ fresh : slot' = [slot EXCEPT ![s] = arg] /\ fresh' = fresh \cup {s} /\ UNCHANGED <<phase, arg, done, out, memo>>
Step == phase = "sync" /\ \E s \in Needs(arg) \cap fresh : out' = out \cup {<<s, slot[s]>>} /\ out' # out /\ UNCHANGED <<phase, arg, slot, fresh, done, memo>>
Finish == phase = "sync" /\ Cardinality(out) = Cardinality(Needs(arg)) /\ memo' = [memo EXCEPT ![arg] = @ \cup {out}] /\ phase' = "idle" /\ done' = done + 1 /\ UNCHANGED <<arg, slot, fresh, out>>
Abort == phase = "sync" /\ phase' = "idle" /\ done' = done + 1 /\ UNCHANGED <<arg, slot, fresh, out, memo>>
Next == Begin \/ Renew \/ Step \/ Finish \/ Abort
Spec == Init /\ [][Next]_vars
Function == \A a \in Args : Cardinality(memo[a]) <= 1 /\ \A o \in memo[a] : o = {<<s, a>> : s \in Needs(a)}
=============================================================================
