------------------------------ MODULE AdapterMC ------------------------------
(* Calls of a wrapped field that shares its depth-aware and data-control submodules over the evaluations of many solves: every submodule is given the time
   before the field runs, the control is renewed by every call and by nothing else. *)
EXTENDS Adapter, FiniteSets
CONSTANTS Subs, Times, Data, MaxSolves, MaxEvals
VARIABLES phase, depth, given, control, x0, ask, solves, evals, seen
vars == <<phase, depth, given, control, x0, ask, solves, evals, seen>>
Init == phase = "idle" /\ depth = [s \in Subs |-> -1] /\ given = {} /\ control = "none" /\ x0 = "none" /\ ask = -1 /\ solves = 0 /\ evals = 0 /\ seen = {}
Solve == phase = "idle" /\ solves < MaxSolves /\ \E d \in Data : x0' = d /\ control' = d
         /\ phase' = "solving" /\ solves' = solves + 1 /\ evals' = 0 /\ UNCHANGED <<depth, given, ask, seen>>
Ask == phase = "solving" /\ evals < MaxEvals /\ (\E t \in Times : ask' = t) /\ given' = {} /\ phase' = "asked" /\ evals' = evals + 1 /\ UNCHANGED <<depth, control, x0, solves, seen>>
Give == phase = "asked" /\ \E s \in Subs \ given : depth' = [depth EXCEPT ![s] = ask] /\ given' = given \cup {s} /\ UNCHANGED <<phase, control, x0, ask, solves, evals, seen>>
Field == phase = "asked" /\ given = Subs /\ phase' = "seen" /\ seen' = {<<ask, depth[s], x0, control>> : s \in Subs} /\ UNCHANGED <<depth, given, control, x0, ask, solves, evals>>
Answers == phase = "seen" /\ phase' = "solving" /\ UNCHANGED <<depth, given, control, x0, ask, solves, evals, seen>>
Finish == phase = "solving" /\ phase' = "idle" /\ UNCHANGED <<depth, given, control, x0, ask, solves, evals, seen>>
Next == Solve \/ Ask \/ Give \/ Field \/ Answers \/ Finish
Spec == Init /\ [][Next]_vars
SeesCurrent == phase = "seen" => \A v \in seen : v[1] = v[2] /\ v[3] = v[4]
ControlKept == [][phase # "idle" => control' = control]_vars
\* the first-order system of p''' = q has the solution (p, p', p'') when q is the third derivative of p; blocks of one or two entries, orders one to three
Polys == {<<"1", "-2", "1/2", "3">>, <<"0", "1", "1/4", "-1/3", "2">>}
RECURSIVE Der(_, _)
Der(p, k) == IF k = 0 THEN p ELSE Der(PDer(p), k - 1)
Row(ps, n, t) == [i \in 1..n * Len(ps) |-> PEval(Der(ps[((i - 1) % Len(ps)) + 1], (i - 1) \div Len(ps)), t)]
ASSUME \A p, q \in Polys : \A n \in 1..3 : \A t \in {"0", "1/2", "-1"} : \A ps \in {<<p>>, <<p, q>>} :
  LET y == [i \in 1..Len(ps) |-> PEval(Der(ps[i], n), t)]
      d == [i \in 1..n * Len(ps) |-> PEval(Der(ps[((i - 1) % Len(ps)) + 1], ((i - 1) \div Len(ps)) + 1), t)]
  IN Blocks(Row(ps, n, t), y, n) = d /\ Answer(Row(ps, n, t), y, n, TRUE) = [i \in 1..Len(d) |-> RNeg(d[i])]
=============================================================================
