-------------------------------- MODULE Sens --------------------------------
(* Exact flows of triangular polynomial maps and their exact sensitivities (C09, C10).  A map f (see Poly) is triangular when coordinate i only uses earlier
   coordinates: its flow is then a polynomial of the elapsed time s, and so are the derivatives of the flow in the initial state and in every coefficient.
   Every elementary differential occurs in such systems.  Coefficients are addressed as <<i, q>>: monomial q of coordinate i. *)
EXTENDS Poly
RECURSIVE PolyPow(_, _)
PolyPow(a, k) == IF k = 0 THEN <<"1">> ELSE PMul(PolyPow(a, k - 1), a)
RECURSIVE YPow(_, _, _)
YPow(ys, e, j) == IF j > Len(e) THEN <<"1">> ELSE IF e[j] = 0 THEN YPow(ys, e, j + 1) ELSE PMul(PolyPow(ys[j], e[j]), YPow(ys, e, j + 1))
\* a monomial, a polynomial along the flow ys from t0: polynomials in s
SubM(q, ys, t0) == PMul(<<q.c>>, PMul(PolyPow(<<t0, "1">>, q.m), YPow(ys, q.e, 1)))
RECURSIVE PSum(_)
PSum(l) == IF Len(l) = 0 THEN <<"0">> ELSE PAdd(Head(l), PSum(Tail(l)))
Sub(p, ys, t0) == PSum([k \in 1..Len(p) |-> SubM(p[k], ys, t0)])
RECURSIVE FlowFrom(_, _, _, _)
FlowFrom(f, t0, y0, done) == LET i == Len(done) + 1 IN
  IF i > Len(f) THEN done ELSE FlowFrom(f, t0, y0, Append(done, PAdd(<<y0[i]>>, PInt(Sub(f[i], done, t0)))))
Flow(f, t0, y0) == FlowFrom(f, t0, y0, <<>>)
At(polys, s) == [i \in 1..Len(polys) |-> PEval(polys[i], s)]
\* the Jacobian along the flow: entries [i][j], j < i
JacAlong(f, ys, t0) == [i \in 1..Len(f) |-> [j \in 1..(i - 1) |-> Sub(PDiff(f[i], j), ys, t0)]]
\* z' = J z + b from z0
RECURSIVE VarFrom(_, _, _, _)
VarFrom(J, b, z0, done) == LET i == Len(done) + 1 IN
  IF i > Len(J) THEN done ELSE VarFrom(J, b, z0, Append(done, PAdd(<<z0[i]>>, PInt(PAdd(b[i], PSum([j \in 1..(i - 1) |-> PMul(J[i][j], done[j])]))))))
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
\* derivative of the flow in the initial coordinate k, in the coefficient <<i, q>>
DState(f, J, k) == VarFrom(J, [i \in 1..Len(f) |-> <<"0">>], Unit(Len(f), k), <<>>)
DCoef(f, J, ys, t0, i, q) == VarFrom(J, [a \in 1..Len(f) |-> IF a = i THEN SubM([f[i][q] EXCEPT !.c = "1"], ys, t0) ELSE <<"0">>], [a \in 1..Len(f) |-> "0"], <<>>)
\* the same by the adjoint equation: l' = -J^T l backwards from s1 (a polynomial in s), last coordinate first
RECURSIVE AdjFrom(_, _, _, _)
AdjFrom(J, l1, s1, done) == LET n == Len(J) j == n - Len(done) IN
  IF j = 0 THEN done
  ELSE LET rate == PSum([a \in 1..Len(done) |-> PMul(J[j + a][j], done[a])])
           prim == PInt(rate)
       IN AdjFrom(J, l1, s1, <<PAdd(<<RAdd(l1[j], PEval(prim, s1))>>, PMul(<<"-1">>, prim))>> \o done)
Adjoint(J, l1, s1) == AdjFrom(J, l1, s1, <<>>)
\* what the adjoint collects for a coefficient between s0 and s1
Collect(f, ys, t0, lam, i, q, s0, s1) == LET p == PInt(PMul(lam[i], SubM([f[i][q] EXCEPT !.c = "1"], ys, t0))) IN RSub(PEval(p, s1), PEval(p, s0))
=============================================================================
