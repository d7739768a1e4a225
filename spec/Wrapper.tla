------------------------------- MODULE Wrapper -------------------------------
(* What a problem or model object does with its options and the arguments of a call (C21).  Spans, save requests and arguments are named by numbers, 0 is "not given". *)
EXTENDS Integers, Sequences, FiniteSets
Unit == 99                                                     \* the span zero to one
Span(given, assigned) == IF given # 0 THEN given ELSE IF assigned # 0 THEN assigned ELSE Unit
\* the functional solve that a call stands for; the trajectory call takes neither save times nor arguments
Stands(how, given, assigned, save, args) == [span |-> Span(given, assigned), save |-> IF how = "trajectory" THEN 0 ELSE save, args |-> IF how = "trajectory" THEN 0 ELSE args, how |-> IF how = "trajectory" THEN "trajectory" ELSE "solve"]
Pair(how, pairs) == how # "trajectory" /\ (how = "odeint" \/ pairs)  \* are times returned along with the states
=============================================================================
