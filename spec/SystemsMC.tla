----------------------------- MODULE SystemsMC -----------------------------
(* Pairs of states related by a symmetry of their system are stepped together: they stay related; the volume of the specified fields contracts as the
   systems' divergences say; equilibria, superposition and periods of the specified forcings. *)
EXTENDS Systems, FiniteSets, TLC
CONSTANTS Depth
VARIABLES name, x, y, n
vars == <<name, x, y, n>>
Names == {"Lorenz", "VanDerPol", "ODEProblem4", "ODEProblem2", "ODEProblem3"}
P == [alpha |-> "10"]
Mirror(nm, v) == IF nm \in {"Lorenz", "ODEProblem4"} THEN <<RNeg(v[1]), RNeg(v[2]), v[3]>> ELSE [i \in 1..Len(v) |-> RNeg(v[i])]
D(nm) == IF nm \in {"Lorenz", "ODEProblem4"} THEN 3 ELSE 2
Q == {"-1", "1/2", "3"}
St(nm) == [1..D(nm) -> Q]
Init == name \in Names /\ x \in St(name) /\ y = Mirror(name, x) /\ n = 0
F(v) == Field(name, P, "0", v)
Step == n < Depth /\ \E h \in {"1/4", "-1/8"} : x' = VAdd(x, VScale(h, F(x))) /\ y' = VAdd(y, VScale(h, F(y))) /\ n' = n + 1 /\ UNCHANGED name
Spec == Init /\ [][Step]_vars
Symmetric == y = Mirror(name, x)
\* divergence by central differences, exact for fields of degree two in each coordinate
Unit(i, d) == [j \in 1..d |-> IF j = i THEN "1" ELSE "0"]
Div(v) == LET d == Len(v) IN VSum([i \in 1..d |-> RDiv(RSub(F(VAdd(v, Unit(i, d)))[i], F(VSub(v, Unit(i, d)))[i]), 2)])
Divergence == n <= 1 => LET v == Div(x) IN
  CASE name = "Lorenz" -> REq(v, "-41/3")
    [] name = "VanDerPol" -> REq(v, RMul(10, RSub(1, RPow(x[1], 2))))
    [] name = "ODEProblem4" -> REq(v, RSub("174/100", "22/10"))
    [] name = "ODEProblem2" -> REq(v, 1)
    [] name = "ODEProblem3" -> REq(v, "-1/5")
Tiny(a) == RLe(RAbs(a), RTwo(-60))
C72 == RSqrt(72, 120)
ASSUME \A s \in {"1", "-1"} : LET v == <<RMul(s, C72), RMul(s, C72), "27">> IN \A i \in 1..3 : Tiny(Lorenz(v)[i])
ASSUME \A nm \in Names : \A i \in 1..D(nm) : REq(Field(nm, P, "0", [j \in 1..D(nm) |-> "0"])[i], 0)
B1 == [a |-> <<"1", "-2">>, w |-> <<"3", "1">>, phi |-> <<"1/2", "-1">>]
B2 == [a |-> <<"5/2", "1/3">>, w |-> <<"-2", "7">>, phi |-> <<"0", "1/4">>]
Twice(b) == [b EXCEPT !.a = VScale(2, @)]
ASSUME \A t \in {"0", "1/3", "-5/2"} :
  LET f == Fourier(<<<<B1, B2>>>>, t) IN
  /\ Tiny(RSub(Fourier(<<<<Twice(B1), Twice(B2)>>>>, t)[1], RMul(2, f[1])))
  /\ Tiny(RSub(Fourier(<<<<B1, B2>>>>, RAdd(t, RMul(2, RPi(100))))[1], f[1]))
  /\ Tiny(RSub(Fourier(<<<<B2, B1>>>>, t)[1], f[1]))
ASSUME \A z \in {"0", "1/3", "-2", "5"} : LET a == Tanh(z) IN Tiny(RAdd(a, Tanh(RNeg(z)))) /\ RLt(RAbs(a), 1) /\ Tiny(RSub(Tanh(RMul(2, z)), RDiv(RMul(2, a), RAdd(1, RMul(a, a)))))
=============================================================================
