------------------------------- MODULE Hybrid -------------------------------
(* Flags of event callbacks, three valued: "T" the condition held when last looked at, "F" it did
   not, "U" too close to its boundary to say.  An event is a flag going from "F" to true; the
   lowest-numbered one fires, jumps, and its own flag becomes what the condition is right
   after the jump, so that a condition that stays true has to become false first.         *)
EXTENDS Integers, Sequences
Newly(flags, now) == {j \in 1..Len(flags) : flags[j] = "F" /\ now[j] = "T"}
MayBeNew(flags, now) == {j \in 1..Len(flags) : flags[j] # "T" /\ now[j] # "F"}
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
FlagsAfterJump(flags, i, after) == [flags EXCEPT ![i] = after]
=============================================================================
