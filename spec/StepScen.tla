------------------------------ MODULE StepScen ------------------------------
(* Schedules for driving the real controller: grids as multiples of the first step, and
   scripts of error-ratio classes (square roots of the classes StepControlMC explores). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Mults == {1, 2, 3, 4, 8, 10, 18}          \* in quarters of the first step
Grids == {SetToSortSeq(S, <) : S \in {S \in SUBSET Mults : Cardinality(S) \in 1..4}}
Scripts == UNION {[1..n -> {0, 1, 2, 3, 4}] : n \in 1..4}   \* indices into <<0, 1/2, 1, 3, 100>>
VARIABLE done
Init == done = JsonSerialize(IOEnv.SCEN_FILE, [grids |-> SetToSeq(Grids), scripts |-> SetToSeq(Scripts)])
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
