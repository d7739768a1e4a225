---------------------------- MODULE ClosedTrace ----------------------------
(* Judges recorded solves of problems with closed forms or conserved quantities (C20).  A run: p, cons, x0 (samples), t (returned times), span,
   atol, rtol, eps, numel, n (steps), and
     kind "adaptive": solver, sol[k][b];      kind "fixed": solver, order, loose, lev[j][k][b] (steps halve from one level to the next).  *)
EXTENDS Closed, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, b, verdict
vars == <<r, b, verdict>>
R == Runs[r]
Show == "SHOW" \in DOMAIN IOEnv
MaxOf(S) == LET RECURSIVE G(_) G(q) == IF q = {} THEN "0" ELSE LET e == CHOOSE e \in q : TRUE IN RMax(e, G(q \ {e})) IN G(S)
K == 1..Len(R.t)
T0 == R.span[1]
X == R.x0[b]
Want == [k \in K |-> Sol(R.p, X, T0, R.t[k])]
Init == r \in 1..Len(Runs) /\ b = 1 /\ verdict = ""
Samples == Len(R.x0)
-----------------------------------------------------------------------------
\* adaptive: errors in tolerances.  The worst case over n steps is n * sqrt(numel) of them (ClosedMC, and the error norm is a mean over
\* the batch); the methods carry the solution of the higher order, and solves stay below a third of these limits.
Entries(v) == {RAbs(v[i]) : i \in 1..Len(v)}
Unit(m) == RMul(Work(R.p, m, T0, R.t[Len(R.t)]), RAdd(R.atol, RMul(R.rtol, m)))
Round(m) == RMul(RMul(RMul(R.eps, 40), R.n), m)
Multiple(err, unit, floor) == IF RLe(err, floor) THEN "0" ELSE RDiv(RSub(err, floor), unit)
AdaptiveErr ==
  LET W == Want
      m == MaxOf(UNION {Entries(W[k]) : k \in K})
      a == MaxOf({Amp(R.p, X, T0, R.t[k]) : k \in K})
  IN MaxOf({Multiple(VMaxAbs(VSub(R.sol[k][b], W[k])), RMul(a, Unit(m)), RMul(a, Round(m))) : k \in K})
AdaptiveCons ==
  LET m == MaxOf(UNION {Entries(R.sol[k][b]) : k \in K} \cup Entries(X))
      rho == "1/2"  g == Grad(R.p, m, rho)  i0 == Invs(R.p, X)
  IN MaxOf({Multiple(VMaxAbs(VSub(Invs(R.p, R.sol[k][b]), i0)), RMul(g, Unit(m)), RMul(g, Round(m))) : k \in K})
-----------------------------------------------------------------------------
\* fixed: the error of the finest grid against those of the coarsest ones (losing one order costs a factor of at least 16)
L == Len(R.lev)
Err(j) == IF R.cons THEN LET i0 == Invs(R.p, X) IN MaxOf({VMaxAbs(VSub(Invs(R.p, R.lev[j][k][b]), i0)) : k \in K})
          ELSE LET W == Want IN MaxOf({VMaxAbs(VSub(R.lev[j][k][b], W[k])) : k \in K})
FixedMul ==
  LET m == RAdd(MaxOf(UNION {Entries(R.lev[L][k][b]) : k \in K} \cup Entries(X)), IF R.cons THEN 1 ELSE 0)
      e == Err(L)  coarse == MaxOf({RMul(Err(j), RTwo(-(R.order * (L - j)))) : j \in 1..(L - 4)})
      floor == RMul(IF R.cons THEN Grad(R.p, m, "1/2") ELSE Amp(R.p, X, T0, R.t[Len(R.t)]), IF R.loose THEN RMul("1/1000", m) ELSE Round(m))
  IN IF RLe(e, floor) THEN "0" ELSE RDiv(RSub(e, floor), coarse)
\* steps far beyond the stability of the method say nothing about its order
Sane == \A j \in 1..(L - 4) : \A k \in K : RLe(VMaxAbs(R.lev[j][k][b]), RMul(10, RAdd(VMaxAbs(R.lev[L][k][b]), VMaxAbs(X))))
Mult == CASE R.kind = "adaptive" /\ ~R.cons -> AdaptiveErr
          [] R.kind = "adaptive" /\ R.cons -> AdaptiveCons
          [] OTHER -> IF Sane THEN FixedMul ELSE "0"
Limit == IF R.kind = "fixed" THEN "7" ELSE IF R.solver = "dopri5/4th" THEN "25" ELSE IF R.cons THEN "12"
         ELSE CASE R.p.kind \in {"exp", "jordan", "relax"} -> "1" [] R.p.kind \in {"rot", "spiral", "gauss"} -> "2" [] R.p.kind = "poly" -> "6" [] R.p.kind = "logistic" -> "10" [] OTHER -> "80"
Finite == \A k \in K : IF R.kind = "fixed" THEN RFin(VMaxAbs(R.lev[L][k][b])) ELSE RFin(VMaxAbs(R.sol[k][b]))
Clause ==
  IF ~Finite THEN "a state is not finite"
  ELSE LET q == Mult IN
       IF Show /\ ~PrintT(<<"RATIO", R.kind, R.solver, R.id, b, RShow(q)>>) THEN "" ELSE
       IF RLe(q, Limit) THEN ""
       ELSE CASE R.kind = "adaptive" /\ ~R.cons -> "the error is not a modest multiple of the tolerance"
              [] R.kind = "adaptive" -> "a conserved quantity drifts by more than a modest multiple of the tolerance"
              [] ~R.cons -> "the error does not shrink with the order of the method"
              [] OTHER -> "the drift of a conserved quantity does not shrink with the order of the method"
Judge == /\ verdict = "" /\ b <= Samples
         /\ LET c == Clause IN IF c = "" THEN b' = b + 1 /\ UNCHANGED <<r, verdict>> ELSE verdict' = c /\ UNCHANGED <<r, b>>
Times == \A k \in 1..Len(R.span) : \E j \in K : R.t[j] = R.span[k]
End == /\ verdict = "" /\ b > Samples /\ verdict' = (IF Times THEN "ok" ELSE "a time of the span is not returned") /\ UNCHANGED <<r, b>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, b>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, b>>
Next == Judge \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
