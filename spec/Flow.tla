-------------------------------- MODULE Flow --------------------------------
(* Exact flows of triangular polynomial systems.  A system is a sequence of coordinates
     y_i' = c_i t^{m_i} prod_{j < i} y_j^{e_ij}
   (record fields c, m, e; e may be shorter than i-1).  From (t0, y0) each coordinate of the solution is a
   polynomial in t - t0, obtained by one integration per coordinate.  Every elementary
   differential of Butcher's theory occurs in such systems: with one coordinate per rooted
   tree, leaves being either a unit coordinate or the time itself, the weight below is the
   number of nodes, and a one-step method of order p is exact on the coordinates of weight
   at most p, from every initial point and with every step length.                     *)
EXTENDS Rat, Integers, Sequences

RECURSIVE PPow(_, _)
PPow(a, k) == IF k = 0 THEN <<"1">> ELSE PMul(PPow(a, k - 1), a)
RECURSIVE ProdPow(_, _, _)
\* product over j of ys[j]^e[j], from j on
ProdPow(ys, e, j) == IF j > Len(e) THEN <<"1">>
                     ELSE IF e[j] = 0 THEN ProdPow(ys, e, j + 1) ELSE PMul(PPow(ys[j], e[j]), ProdPow(ys, e, j + 1))
RECURSIVE FlowFrom(_, _, _, _)
FlowFrom(sys, t0, y0, done) ==
  LET i == Len(done) + 1 IN
  IF i > Len(sys) THEN done
  ELSE LET q == sys[i]
           rhs == PMul(<<q.c>>, PMul(PPow(<<t0, "1">>, q.m), ProdPow(done, q.e, 1)))
       IN FlowFrom(sys, t0, y0, Append(done, PAdd(<<y0[i]>>, PInt(rhs))))
Flow(sys, t0, y0) == FlowFrom(sys, t0, y0, <<>>)
At(polys, s) == [i \in 1..Len(polys) |-> PEval(polys[i], s)]

RECURSIVE MonPow(_, _, _)
MonPow(y, e, j) == IF j > Len(e) THEN "1" ELSE IF e[j] = 0 THEN MonPow(y, e, j + 1) ELSE RMul(RPow(y[j], e[j]), MonPow(y, e, j + 1))
Field(sys, t, y) == [i \in 1..Len(sys) |-> RMul(sys[i].c, RMul(RPow(t, sys[i].m), MonPow(y, sys[i].e, 1)))]

(* the same with every quantity replaced by its size: bounds every intermediate product of a step,
   hence scales the rounding error *)
AbsSys(sys) == [i \in 1..Len(sys) |-> [sys[i] EXCEPT !.c = RAbs(@)]]
VAbs(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
Size(sys, t0, y0, s) == At(Flow(AbsSys(sys), RAdd(RAbs(t0), RAbs(s)), VAbs(y0)), RAbs(s))

RECURSIVE WtFrom(_, _)
WtFrom(sys, done) ==
  LET i == Len(done) + 1
      RECURSIVE S(_)
      S(j) == IF j > Len(sys[i].e) THEN 0 ELSE sys[i].e[j] * done[j] + S(j + 1)
  IN IF i > Len(sys) THEN done ELSE WtFrom(sys, Append(done, 1 + sys[i].m + S(1)))
Weights(sys) == WtFrom(sys, <<>>)
=============================================================================
