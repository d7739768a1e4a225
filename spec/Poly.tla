-------------------------------- MODULE Poly --------------------------------
(* Polynomial maps of time and state, exactly.  A polynomial is a sequence of monomials
     [c, m, e]  for  c t^m prod_j x_j^e_j     (e may be shorter than x),
   a map a sequence of polynomials.  Two formulas made of a field, its derivatives and the step
   that agree on all polynomial fields of a degree agree up to that degree on every smooth field. *)
EXTENDS Rat, Integers, Sequences
RECURSIVE XPow(_, _, _)
XPow(x, e, j) == IF j > Len(e) THEN "1" ELSE IF e[j] = 0 THEN XPow(x, e, j + 1) ELSE RMul(RPow(x[j], e[j]), XPow(x, e, j + 1))
TPow(t, m) == IF m = 0 THEN "1" ELSE RPow(t, m)
MVal(q, t, x) == RMul(q.c, RMul(TPow(t, q.m), XPow(x, q.e, 1)))
PVal(p, t, x) == VSum([k \in 1..Len(p) |-> MVal(p[k], t, x)])
MapVal(f, t, x) == [i \in 1..Len(f) |-> PVal(f[i], t, x)]
\* partial derivative in x_j
Exp(q, j) == IF j > Len(q.e) THEN 0 ELSE q.e[j]
MDer(q, j) == IF Exp(q, j) = 0 THEN [c |-> "0", m |-> 0, e |-> <<>>]
              ELSE [c |-> RMul(q.c, Exp(q, j)), m |-> q.m, e |-> [q.e EXCEPT ![j] = @ - 1]]
PDiff(p, j) == [k \in 1..Len(p) |-> MDer(p[k], j)]
Grad(p, n) == [j \in 1..n |-> PDiff(p, j)]
Jac(f, n, t, x) == [i \in 1..Len(f) |-> [j \in 1..n |-> PVal(PDiff(f[i], j), t, x)]]
\* sizes: every coefficient and argument replaced by its absolute value
PAbs(p) == [k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RAbs(@)]]
AbsMap(f) == [i \in 1..Len(f) |-> PAbs(f[i])]
AbsV(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
Ones(n) == [i \in 1..n |-> "1"]
Const(c, n) == [i \in 1..n |-> c]
MatVec(A, v) == [i \in 1..Len(A) |-> VDot(A[i], v)]
VecMat(v, J) == [j \in 1..Len(J[1]) |-> VSum([i \in 1..Len(v) |-> RMul(v[i], J[i][j])])]
\* inverse by cofactors
Minor(A, a, b) == LET n == Len(A) - 1 IN [i \in 1..n |-> [j \in 1..n |-> A[IF i < a THEN i ELSE i + 1][IF j < b THEN j ELSE j + 1]]]
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1] ELSE VSum([j \in 1..Len(A) |-> RMul(Sgn(j + 1), RMul(A[1][j], Det(Minor(A, 1, j))))])
Inverse(A) == LET n == Len(A) d == Det(A) IN
  [i \in 1..n |-> [j \in 1..n |-> RDiv(RMul(Sgn(i + j), IF n = 1 THEN "1" ELSE Det(Minor(A, j, i))), d)]]
MaxV(a, b) == [i \in 1..Len(a) |-> RMax(a[i], b[i])]
Near(a, b, tol) == RFin(a) /\ RLe(RAbs(RSub(a, b)), tol)
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], tol[i])
=============================================================================
