------------------------------- MODULE Energy -------------------------------
(* Vector fields made from a scalar function H of the state (a polynomial), for states of dimension d (an even number where halves are meant),
   as polynomial maps where they are polynomial. *)
EXTENDS Poly
PNeg(p) == [k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RNeg(@)]]
HamField(H, d) == [i \in 1..d |-> IF i <= d \div 2 THEN PDiff(H, i + d \div 2) ELSE PNeg(PDiff(H, i - d \div 2))]
GradField(H, d) == [i \in 1..d |-> PNeg(PDiff(H, i))]
\* skew-symmetric part of the matrix of polynomials M
Half(p) == [k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RMul("1/2", @)]]
Skew(M, d) == [i \in 1..d |-> [j \in 1..d |-> Half(M[i][j]) \o PNeg(Half(M[j][i]))]]
SkewField(H, M, d, x) == LET g == MapVal(Grad(H, d), 0, x) S == Skew(M, d) IN [i \in 1..d |-> VSum([j \in 1..d |-> RMul(PVal(S[i][j], 0, x), g[j])])]
\* Euler-Lagrange: LMass qdd = LForce at x = (q, qd)
PD2(L, i, j) == PDiff(PDiff(L, i), j)
LMass(L, d, x) == LET n == d \div 2 IN [i \in 1..n |-> [j \in 1..n |-> PVal(PD2(L, n + i, n + j), 0, x)]]
LForce(L, d, x) == LET n == d \div 2 IN [i \in 1..n |-> RSub(PVal(PDiff(L, i), 0, x), VSum([j \in 1..n |-> RMul(PVal(PD2(L, n + i, j), 0, x), x[n + j])]))]
LagField(L, d, x) == LET n == d \div 2 IN [i \in 1..n |-> x[n + i]] \o MatVec(Inverse(LMass(L, d, x)), LForce(L, d, x))
\* energy of a Lagrangian
LEnergyGrad(L, d, x) == LET n == d \div 2 IN
  [k \in 1..d |-> RSub(RAdd(VSum([j \in 1..n |-> RMul(x[n + j], PVal(PD2(L, n + j, k), 0, x))]), IF k > n THEN PVal(PDiff(L, k), 0, x) ELSE "0"), PVal(PDiff(L, k), 0, x))]
=============================================================================
