------------------------------- MODULE CNFMC -------------------------------
(* Histories of solves over one flow: the noise is drawn when a solve starts, used by all its evaluations, and replaced by the next.  The stochastic
   estimator is unbiased: averaged over the signs it is the trace, for every small matrix; and the trace is the rate of the log-determinant. *)
EXTENDS CNF, Integers, FiniteSets
CONSTANTS Draws, MaxSolves, MaxEvals
VARIABLES phase, cur, used, solves, evals, log
vars == <<phase, cur, used, solves, evals, log>>
Init == phase = "idle" /\ cur = 0 /\ used = {} /\ solves = 0 /\ evals = 0 /\ log = <<>>
Start == phase = "idle" /\ solves < MaxSolves /\ phase' = "start" /\ solves' = solves + 1 /\ evals' = 0 /\ UNCHANGED <<cur, used, log>>
Draw == phase = "start" /\ \E e \in Draws \ used : cur' = e /\ used' = used \cup {e} /\ phase' = "run" /\ UNCHANGED <<solves, evals, log>>
Eval == phase = "run" /\ evals < MaxEvals /\ log' = Append(log, <<solves, cur>>) /\ evals' = evals + 1 /\ UNCHANGED <<phase, cur, used, solves>>
Finish == phase = "run" /\ evals > 0 /\ phase' = "idle" /\ UNCHANGED <<cur, used, solves, evals, log>>
Next == Start \/ Draw \/ Eval \/ Finish
Spec == Init /\ [][Next]_vars
OnePerSolve == \A i, j \in 1..Len(log) : (log[i][1] = log[j][1]) <=> (log[i][2] = log[j][2])
Mon(c, a, b) == [c |-> c, m |-> 0, e |-> <<a, b>>]
Lin(a, b, c, d) == <<<<Mon(a, 1, 0), Mon(b, 0, 1)>>, <<Mon(c, 1, 0), Mon(d, 0, 1)>>>>
Z == {"-2", "0", "1", "3/2"}
Signs == {"1", "-1"}
X == <<"1/2", "-1">>
Val(e, f) == MapVal(Field(f, e), 0, X)[1]
ASSUME \A a, b, c, d \in Z : LET f == Lin(a, b, c, d) IN
  /\ RDiv(RAdd(RAdd(Val(<<"1", "1">>, f), Val(<<"1", "-1">>, f)), RAdd(Val(<<"-1", "1">>, f), Val(<<"-1", "-1">>, f))), 4) = Val(<<>>, f)
  /\ Val(<<>>, f) = RNeg(RAdd(a, d))
  /\ Tail(MapVal(Field(f, <<>>), 0, X)) = MapVal(f, 0, X)
  \* det(I + hJ) = 1 + h tr J + h^2 det J
  /\ \A h \in {"1/4", "-1/2"} : RSub(Det(<<<<RAdd(1, RMul(h, a)), RMul(h, b)>>, <<RMul(h, c), RAdd(1, RMul(h, d))>>>>), RAdd(1, RMul(RMul(h, h), Det(<<<<a, b>>, <<c, d>>>>)))) = RMul(RNeg(h), Val(<<>>, f))
=============================================================================
