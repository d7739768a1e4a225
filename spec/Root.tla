-------------------------------- MODULE Root --------------------------------
(* Quasi-Newton root finding.  J estimates the inverse Jacobian of the residual map. *)
EXTENDS Poly
Direction(J, g) == MatVec(J, g)
\* rank-one updates from the change dz of the point and dg of the residual; eps guards the denominator
Num(J, dz, dg) == VSub(dz, MatVec(J, dg))
FullDen(J, dz, dg, eps) == RAdd(VDot(dz, MatVec(J, dg)), eps)
FullRow(J, dz, dg) == VecMat(dz, J)
BadDen(dg, eps) == RAdd(VDot(dg, dg), eps)
RankOne(J, u, v, den) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RAdd(J[i][j], RDiv(RMul(u[i], v[j]), den))]]
Row(m, J, dz, dg) == IF m = "broyden" THEN FullRow(J, dz, dg) ELSE dg
Den(m, J, dz, dg, eps) == IF m = "broyden" THEN FullDen(J, dz, dg, eps) ELSE BadDen(dg, eps)
Update(m, J, dz, dg, eps) == RankOne(J, Num(J, dz, dg), Row(m, J, dz, dg), Den(m, J, dz, dg, eps))
\* sizes, for error bounds
Norm1(v) == VSum(AbsV(v))
RowMax(J) == VMaxAbs([i \in 1..Len(J) |-> Norm1(J[i])])
MaxEntry(J) == VMaxAbs([i \in 1..Len(J) |-> VMaxAbs(J[i])])
Norm2Sq(v) == VDot(v, v)
=============================================================================
