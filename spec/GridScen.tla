------------------------------ MODULE GridScen ------------------------------
(* Grids (gaps in sixteenths) and save requests for the drivers of C05, C06 and C17. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Gaps == UNION {[1..n -> {1, 3, 4, 16}] : n \in 1..4}
Saves == [n \in 2..5 |-> SetToSeq(UNION {{q \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => q[i] # q[j]} : k \in 1..n})]
VARIABLE done
Init == done = JsonSerialize(IOEnv.SCEN_FILE, [gaps |-> SetToSeq(Gaps), saves |-> [i \in 1..4 |-> Saves[i + 1]]])
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
