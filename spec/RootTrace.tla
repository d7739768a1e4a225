------------------------------ MODULE RootTrace ------------------------------
(* Judges recorded root findings (C16).  A run: g (polynomial residual map), method, search, alpha, ftol, frtol, xtol, xrtol, eps (rounding
   unit), linear, cut (the record stops before the iteration limit), pts: the batch of points at the start and after 1, 2, ... rounds
   (each a sequence of samples); a point equal to the one before means the iteration has stopped there.
   The specification carries, per sample, the inverse Jacobian estimate and a bound on the rounding error in it; it stops judging when that
   bound is no longer small. *)
EXTENDS Root, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, J, err, verdict
vars == <<r, k, J, err, verdict>>
R == Runs[r]
NS == Len(R.pts[1])
Dim == Len(R.g)
P(i) == R.pts[i]
G(x) == MapVal(R.g, 0, x)
\* rounding error of a residual
DG(x) == RMul(RMul(40, R.eps), VMaxAbs(MapVal(AbsMap(R.g), 0, AbsV(x))))
RSum3(a, b, c) == RAdd(a, RAdd(b, c))
Cut(M) == [i \in 1..Len(M) |-> VRound(M[i], 200)]
Sm == RMul(20, R.eps)
MaxIn(f) == VMaxAbs([s \in 1..NS |-> f[s]])
Init == /\ r \in 1..Len(Runs) /\ k = 0 /\ J = <<>> /\ err = <<>> /\ verdict = ""
Start == /\ verdict = "" /\ k = 0
         /\ J' = [s \in 1..NS |-> Cut(Inverse(Jac(R.g, Dim, 0, P(1)[s])))]
         /\ err' = [s \in 1..NS |-> LET A == Jac(R.g, Dim, 0, P(1)[s]) I == Inverse(A) IN
                      RMul(RMul(200, R.eps), RMul(RowMax(I), RAdd(1, RMul(RowMax(A), RowMax(I)))))]
         /\ k' = 1 /\ UNCHANGED <<r, verdict>>
\* the step from pts[k] to pts[k+1]
Dir(s) == Direction(J[s], G(P(k)[s]))
DirTol(s) == LET gv == G(P(k)[s]) IN RSum3(RMul(err[s], Norm1(gv)), RMul(RowMax(J[s]), DG(P(k)[s])), RMul(Sm, RMul(RowMax(J[s]), VMaxAbs(gv))))
Same(i) == i < Len(R.pts) /\ P(i) = P(i + 1)
First == k = 1
\* the pair (sample, coordinate) where the direction is largest, and the step length seen there
Big == LET m == VMaxAbs([s \in 1..NS |-> VMaxAbs(Dir(s))]) IN CHOOSE q \in (1..NS) \X (1..Dim) : REq(RAbs(Dir(q[1])[q[2]]), m)
Alpha == IF R.search = "none" \/ First THEN R.alpha
         ELSE LET q == Big d == Dir(q[1])[q[2]] IN IF REq(d, 0) THEN "0" ELSE RDiv(RSub(P(k)[q[1]][q[2]], P(k + 1)[q[1]][q[2]]), d)
Moved(a, s) == VSub(P(k)[s], VScale(a, Dir(s)))
StepTol(a, s) == RAdd(RMul(RMul(3, RAbs(a)), RAdd(DirTol(s), IF R.search = "none" \/ First THEN "0" ELSE DirTol(Big[1]))),
                      RMul(Sm, RAdd(VMaxAbs(P(k)[s]), RMul(RAbs(a), VMaxAbs(Dir(s))))))
\* the coordinate the length was read from carries its own rounding
ReadTol(s) == IF R.search = "none" \/ First THEN "0"
              ELSE LET q == Big d == RAbs(Dir(q[1])[q[2]]) IN IF REq(d, 0) THEN "0" ELSE RDiv(RMul(VMaxAbs(Dir(s)), RMul(Sm, VMaxAbs(P(k)[q[1]]))), d)
StepOK == LET a == Alpha IN \A s \in 1..NS : NearV(P(k + 1)[s], Moved(a, s), Const(RAdd(StepTol(a, s), ReadTol(s)), Dim))
\* line search
Phi(z) == VSum([s \in 1..NS |-> Norm2Sq(G(z[s]))])
Rho == RMax(RMul("1000000", R.eps), "1/1000000")
Slack(z) == RDiv(VSum([s \in 1..NS |-> RMul(Dim, RMul(DG(z[s]), DG(z[s])))]), Rho)
Shortest == IF R.search = "naive" THEN "1/1000000" ELSE "1/100"
SearchOK == \/ First \/ R.search = "none"
            \/ LET short == [s \in 1..NS |-> Moved(Shortest, s)] p == RMax(Phi(P(k)), Phi(short)) IN
               RLe(Phi(P(k + 1)), RSum3(RMul(p, RAdd(1, Rho)), Slack(P(k)), Slack(P(k + 1))))
LengthOK == First \/ R.search = "none" \/ RLe(RMul(RNeg(RMul(4, R.eps)), RAdd(1, VMaxAbs([s \in 1..NS |-> VMaxAbs(P(k)[s])]))), RMul(Alpha, VMaxAbs(Dir(Big[1]))))
LinearOK == (R.linear /\ First /\ REq(R.alpha, 1)) => \A s \in 1..NS : LET y == P(2)[s] A == Jac(R.g, Dim, 0, y) IN
               RLe(VMaxAbs(G(y)), RSum3(RMul(4, DG(y)), RMul(RMul(4, RowMax(A)), StepTol("1", s)), RMul(RMul(Sm, RowMax(A)), RAdd(VMaxAbs(y), VMaxAbs(P(1)[s])))))
\* the stop test after the step to pts[j] (j > 1); squares of 2-norms.  Where the statement leaves a choice (residual at the start or after the
\* first step, step with or without its length) a stop is allowed in the laxest and demanded in the strictest reading.
Sq(a) == RMul(a, a)
Lax(a) == RMul(a, RAdd(1, RMul(4, Rho)))
G0(s, mx) == LET a == Norm2Sq(G(P(1)[s])) b == Norm2Sq(G(P(2)[s])) IN IF mx THEN RMax(a, b) ELSE RMin(a, b)
StepLen(s, d, mx) == LET a == Norm2Sq(d[s]) b == Norm2Sq(VSub(P(k + 1)[s], P(k)[s])) IN IF mx THEN RMax(a, b) ELSE RMin(a, b)
MayStop(d) == \A s \in 1..NS : LET g == Norm2Sq(G(P(k + 1)[s])) x == StepLen(s, d, FALSE) sl == RMul(Dim, Sq(RMul(2, DG(P(k + 1)[s])))) xs == RMul(Dim, Sq(DirTol(s))) IN
   /\ RLe(g, RAdd(Lax(Sq(R.ftol)), sl)) /\ RLe(g, RAdd(Lax(RMul(Sq(R.frtol), G0(s, TRUE))), sl))
   /\ RLe(x, RAdd(Lax(Sq(R.xtol)), xs)) /\ RLe(x, RAdd(Lax(RMul(Sq(R.xrtol), RMax(Norm2Sq(P(k + 1)[s]), Norm2Sq(P(k)[s])))), xs))
MustStop(d) == \A s \in 1..NS : LET g == Lax(RAdd(Norm2Sq(G(P(k + 1)[s])), RMul(Dim, Sq(RMul(2, DG(P(k + 1)[s])))))) x == Lax(RAdd(StepLen(s, d, TRUE), RMul(Dim, Sq(DirTol(s))))) IN
   /\ RLe(RMul(g, RAdd(1, Rho)), Sq(R.ftol)) /\ RLe(RMul(g, RAdd(1, Rho)), RMul(Sq(R.frtol), G0(s, FALSE)))
   /\ RLe(x, Sq(R.xtol)) /\ RLe(x, RMul(Sq(R.xrtol), RMin(Norm2Sq(P(k + 1)[s]), Norm2Sq(P(k)[s]))))
NewJ(s) == LET dz == VSub(P(k + 1)[s], P(k)[s]) dg == VSub(G(P(k + 1)[s]), G(P(k)[s])) den == Den(R.method, J[s], dz, dg, "1/1000000") IN
           IF REq(den, 0) THEN J[s] ELSE Cut(Update(R.method, J[s], dz, dg, "1/1000000"))
NewErr(s) ==
  LET dz == VSub(P(k + 1)[s], P(k)[s]) dg == VSub(G(P(k + 1)[s]), G(P(k)[s])) eg == RMul(2, RAdd(DG(P(k)[s]), DG(P(k + 1)[s])))
      den == RAbs(Den(R.method, J[s], dz, dg, "1/1000000")) rm == RowMax(J[s])
      N == VMaxAbs(Num(J[s], dz, dg)) rw == Row(R.method, J[s], dz, dg) Pm == VMaxAbs(rw)
      eN == RSum3(RMul(Sm, RAdd(VMaxAbs(dz), RMul(rm, VMaxAbs(dg)))), RMul(err[s], Norm1(dg)), RMul(rm, eg))
      eP == IF R.method = "broyden" THEN RAdd(RMul(Norm1(dz), err[s]), RMul(Sm, RMul(Norm1(dz), MaxEntry(J[s])))) ELSE eg
      eD == IF R.method = "broyden" THEN RMul(Norm1(dz), RSum3(RMul(err[s], Norm1(dg)), RMul(rm, eg), RMul(Sm, RMul(rm, VMaxAbs(dg))))) ELSE RMul(RMul(4, Norm1(dg)), eg)
  IN IF RLe(den, RMul(4, eD)) THEN "inf"
     ELSE RSum3(RAdd(err[s], RMul(Sm, MaxEntry(NewJ(s)))), RDiv(RAdd(RMul(eN, Pm), RMul(RMul(2, N), eP)), RMul("3/4", den)), RDiv(RMul(RMul(2, N), RMul(Pm, eD)), RMul(den, den)))
Ill == \E s \in 1..NS : ~RFin(err[s]) \/ RLt(RMul("1/1000", MaxEntry(J[s])), err[s])
StepClause ==
  CASE ~StepOK -> IF First \/ R.search = "none" THEN "an iterate is not the last one minus the step length times the estimate applied to the residual" ELSE "a searched step is not along its own direction"
    [] ~LinearOK -> "a linear system is not solved by the first full step"
    [] ~LengthOK -> "a searched step goes against its direction"
    [] ~SearchOK -> "a searched step leaves a larger residual than none and the shortest one"
    [] k + 1 < Len(R.pts) /\ ~Same(k + 1) /\ MustStop([s \in 1..NS |-> Dir(s)]) -> "goes on although all tolerances are met"
    [] OTHER -> ""
\* the iteration stopped at pts[k+1]: its later results are all the same
StopClause(nj) ==
  IF \A i \in (k + 1)..(Len(R.pts) - 1) : Same(i)
  THEN IF MayStop([s \in 1..NS |-> Dir(s)]) THEN ""
       ELSE \* or the next step is too short to be seen
            IF \A s \in 1..NS : LET d == Direction(nj[s], G(P(k + 1)[s])) IN
                 RLe(RMul(IF R.search = "none" THEN R.alpha ELSE Shortest, VMaxAbs(d)), RMul(RMul(1000, R.eps), RAdd(VMaxAbs(P(k + 1)[s]), "1/1000")))
            THEN "" ELSE "stops although a tolerance is not met"
  ELSE "stops and starts again"
Step == /\ verdict = "" /\ k > 0 /\ k < Len(R.pts) /\ ~Ill
        /\ LET nj == [s \in 1..NS |-> NewJ(s)] ne == [s \in 1..NS |-> NewErr(s)] c == StepClause
               e == IF c # "" THEN c ELSE IF Same(k + 1) THEN StopClause(nj) ELSE "" IN
           /\ verdict' = IF e # "" THEN e ELSE IF Same(k + 1) THEN "ok" ELSE ""
           /\ J' = nj /\ err' = [s \in 1..NS |-> RRound(ne[s], 30)] /\ k' = (IF e = "" THEN k + 1 ELSE k) /\ UNCHANGED r
End == verdict = "" /\ k > 0 /\ (k >= Len(R.pts) \/ Ill) /\ verdict' = "ok" /\ UNCHANGED <<r, k, J, err>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, k, J, err>>
Next == Start \/ Step \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
