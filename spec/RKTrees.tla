------------------------------ MODULE RKTrees ------------------------------
(* Rooted trees grown node by node, and what the methods make of them: the design model behind
   C03 and C04.  A tree is its sequence of parents.  Every tree of up to MaxNodes nodes is
   reached; on each one the flow of its differential equation, the density formula and the
   elementary weights of the reference methods have to agree.                          *)
EXTENDS Flow, TLC
CONSTANT MaxNodes
VARIABLE par
Init == par = <<0>>
Graft(p) == Len(par) < MaxNodes /\ par' = Append(par, p)
Next == (\E p \in 1..Len(par) : Graft(p)) \/ (Len(par) = MaxNodes /\ UNCHANGED par)
Spec == Init /\ [][Next]_par

N == Len(par)
Kids(v) == {c \in (v + 1)..N : par[c] = v}
RECURSIVE SubSize(_)
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN SubSize(c) + SumOver(S \ {c})
SubSize(v) == 1 + SumOver(Kids(v))
RECURSIVE Density(_)
Density(v) == IF v > N THEN 1 ELSE SubSize(v) * Density(v + 1)

(* the tree's system: node v is coordinate N+1-v, so that children come first *)
Sys == [i \in 1..N |-> LET v == N + 1 - i IN [c |-> "1", m |-> 0, e |-> [j \in 1..(i - 1) |-> IF par[N + 1 - j] = v THEN 1 ELSE 0]]]
FlowIsDensity == LET y == Flow(Sys, "0", [i \in 1..N |-> "0"])[N] IN
  /\ Len(y) = N + 1 /\ y[N + 1] = RDiv(1, Density(1)) /\ \A i \in 1..N : y[i] = "0"
WeightIsSize == Weights(Sys)[N] = N

(* ---- reference methods *)
Euler == [A |-> << <<>> >>, b |-> <<"1">>, order |-> 1]
Midpoint == [A |-> << <<>>, <<"1/2">> >>, b |-> <<"0", "1">>, order |-> 2]
RK38 == [A |-> << <<>>, <<"1/3">>, <<"-1/3", "1">>, <<"1", "-1", "1">> >>, b |-> <<"1/8", "3/8", "3/8", "1/8">>, order |-> 4]
RK4 == [A |-> << <<>>, <<"1/2">>, <<"0", "1/2">>, <<"0", "0", "1">> >>, b |-> <<"1/6", "1/3", "1/3", "1/6">>, order |-> 4]
DP5 == [A |-> << <<>>, <<"1/5">>, <<"3/40", "9/40">>, <<"44/45", "-56/15", "32/9">>, <<"19372/6561", "-25360/2187", "64448/6561", "-212/729">>,
                 <<"9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656">>, <<"35/384", "0", "500/1113", "125/192", "-2187/6784", "11/84">> >>,
        b |-> <<"35/384", "0", "500/1113", "125/192", "-2187/6784", "11/84", "0">>, order |-> 5]
DP5hat == [DP5 EXCEPT !.b = <<"5179/57600", "0", "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40">>, !.order = 4]
Methods == {Euler, Midpoint, RK38, RK4, DP5, DP5hat}
Col(T, w) == [i \in 1..Len(T.A) |-> VDot(T.A[i], SubSeq(w, 1, i - 1))]
RECURSIVE StageW(_, _)
RECURSIVE ProdKids(_, _, _)
ProdKids(T, S, w) == IF S = {} THEN w ELSE LET c == CHOOSE c \in S : TRUE IN ProdKids(T, S \ {c}, VMul(w, Col(T, StageW(T, c))))
StageW(T, v) == ProdKids(T, Kids(v), [i \in 1..Len(T.A) |-> "1"])
Elementary(T) == VDot(T.b, StageW(T, 1))
OrderConditions == \A T \in Methods : N <= T.order => Elementary(T) = RDiv(1, Density(1))
(* a tall tree separates a method from every lower order: the order is not higher than advertised *)
Bushy == N > 1 /\ \A v \in 2..N : par[v] = 1
Sharp == \A T \in {Euler, Midpoint, RK4, DP5hat} : (Bushy /\ N = T.order + 1) => Elementary(T) # RDiv(1, Density(1))
=============================================================================
