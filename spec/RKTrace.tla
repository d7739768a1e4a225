------------------------------ MODULE RKTrace ------------------------------
(* Judges recorded steps and solves of the real methods on the tree systems (C03, C04).
   A run: sys, order (advertised), eps, tol (multiple of eps x size), t0, y0, and obs, a sequence of
     [kind |-> "solve",  s, y]            the state the solver returned at t0 + s
     [kind |-> "interp", s, y]            the same through the interpolant
     [kind |-> "err",    s, y]            error estimate of one step of length s from t0, y0 (embedded order emb)
     [kind |-> "slope",  s, x, y]         slope handed on by that step, x the state at its end
     [kind |-> "same",   s, x, y]         two records that have to be identical
     [kind |-> "quartic", ...]            the interpolant against its defining polynomial               *)
EXTENDS Flow, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, l, flow, size, wt, verdict
vars == <<r, l, flow, size, wt, verdict>>
R == Runs[r]
O == R.obs[l]
Near(a, b, tol) == RFin(a) /\ RLe(RAbs(RSub(a, b)), tol)
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ verdict = "" /\ wt = Weights(Runs[r].sys)
        /\ flow = Flow(Runs[r].sys, Runs[r].t0, Runs[r].y0)
        /\ size = Flow(AbsSys(Runs[r].sys), RAdd(RAbs(Runs[r].t0), Runs[r].hmax), VAbs(Runs[r].y0))
Has(v) == Len(v) = Len(R.sys) /\ \A i \in 1..Len(v) : RFin(v[i])
(* quartic in theta through the end states, the end slopes (times dt) and the midpoint *)
Q4(i, th) ==
  LET x0 == O.x0[i]  x1 == O.x1[i]  f0 == RMul(O.dt, O.f0[i])  f1 == RMul(O.dt, O.f1[i])  xm == O.xm[i]
  IN PEval(<<x0, f0,
             RAdd(RAdd(RMul(-11, x0), RMul(-5, x1)), RAdd(RMul(16, xm), RSub(f1, RMul(4, f0)))),
             RAdd(RAdd(RMul(18, x0), RMul(14, x1)), RAdd(RMul(-32, xm), RSub(RMul(5, f0), RMul(3, f1)))),
             RAdd(RAdd(RMul(-8, x0), RMul(-8, x1)), RAdd(RMul(16, xm), RMul(2, RSub(f1, f0))))>>, th)
Q4Size(i) == RMul(100, RAdd(RAdd(RAbs(O.x0[i]), RAbs(O.x1[i])), RAdd(RAbs(O.xm[i]), RMul(O.dt, RAdd(RAbs(O.f0[i]), RAbs(O.f1[i]))))))
Clause ==
  LET ex == At(flow, O.s)  fld == Field(R.sys, RAdd(R.t0, O.s), O.x)
      sz == [i \in 1..Len(R.sys) |-> RAdd(PEval(size[i], RAbs(O.s)), RAbs(R.y0[i]))]
      fsz == Field(AbsSys(R.sys), RAdd(RAbs(R.t0), RAbs(O.s)), VAdd(VAbs(O.x), sz))
      Tol(i) == RMul(RMul(R.tol, R.eps), sz[i])
      SlopeTol(i) == RMul(RMul(RMul(R.tol, R.eps), 10), fsz[i])
  IN
  CASE O.kind # "same" /\ O.kind # "quartic" /\ ~Has(O.y) -> "a value is missing or not finite"
    [] O.kind = "solve" /\ \E i \in 1..Len(R.sys) : wt[i] <= R.order /\ ~Near(O.y[i], ex[i], Tol(i)) -> "order condition of the solver"
    [] O.kind = "interp" /\ \E i \in 1..Len(R.sys) : wt[i] <= 4 /\ ~Near(O.y[i], ex[i], RAdd(Tol(i), RMul("1/100000000", sz[i]))) -> "order condition of the interpolant"
    [] O.kind = "err" /\ \E i \in 1..Len(R.sys) : wt[i] <= R.emb /\ ~Near(O.y[i], 0, Tol(i)) -> "the error estimate is not zero up to the embedded order"
    [] O.kind = "err" /\ R.emberr /\ \A i \in 1..Len(R.sys) : wt[i] = R.emb + 1 => Near(O.y[i], 0, Tol(i)) -> "the error estimate vanishes beyond the embedded order"
    [] O.kind = "slope" /\ \E i \in 1..Len(R.sys) : ~Near(O.y[i], fld[i], SlopeTol(i)) -> "the carried slope is not the field at the end of the step"
    [] O.kind = "same" /\ O.x # O.y -> "interpolation changes the steps taken"
    [] O.kind = "quartic" /\ \E k \in 1..Len(O.th), i \in 1..Len(O.x0) : ~Near(O.v[k][i], Q4(i, O.th[k]), RMul(RMul(R.tol, R.eps), Q4Size(i))) -> "the interpolant is not the quartic through the step's ends, slopes and midpoint"
    [] OTHER -> ""
Step == /\ verdict = "" /\ l <= Len(R.obs)
        /\ verdict' = Clause /\ l' = (IF Clause = "" THEN l + 1 ELSE l) /\ UNCHANGED <<r, flow, size, wt>>
End == verdict = "" /\ l > Len(R.obs) /\ verdict' = "ok" /\ UNCHANGED <<r, l, flow, size, wt>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, l>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, l, flow, size, wt>>
Next == Step \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
