------------------------------ MODULE HistScen ------------------------------
(* Every history of up to Depth solves over one object, for the driver of C11: precision, direction, shape, whether the field fails half-way; the last solve finishes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT Depth
Letters == [prec : {32, 64}, back : BOOLEAN, shape : {1, 2}, fails : BOOLEAN]
Hist(n) == {h \in [1..n -> Letters] : ~h[n].fails}
VARIABLE done
Init == done = JsonSerialize(IOEnv.SCEN_FILE, SetToSeq(UNION {Hist(n) : n \in 2..Depth}))
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
