---------------------------- MODULE SystemsTrace ----------------------------
(* Judges recorded evaluations of the benchmark systems (C22).  A run: name, eps, ev: events in order
   [ev |-> "draw", p, lo, hi, shape]  parameters after construction or after they are drawn again (lo, hi: the ranges asked for; changed: not the previous ones)
   [ev |-> "call", ts, many, x, y, count, evals]  one evaluation: its time(s), whether they were given as a vector, states and answers row by row,
   the system's own counter of evaluations (-1: none) and the number made so far. *)
EXTENDS Systems, FiniteSets, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, l, p, verdict
vars == <<r, l, p, verdict>>
R == Runs[r]
E == R.ev[l]
In(v, rg) == \A i \in 1..Len(v) : RLe(RSub(rg[1], RMul(R.eps, RAbs(rg[1]))), v[i]) /\ RLe(v[i], RAdd(rg[2], RMul(R.eps, RAbs(rg[2]))))
DrawClause ==
  CASE ~E.sameshape -> "parameters drawn again have another shape"
    [] ~E.fresh -> "parameters drawn again are the previous ones"
    [] Forced(R.name) /\ \E i \in 1..Len(E.p.banks) : \E k \in 1..2 : LET b == E.p.banks[i][k] IN
          ~In(b.a, E.ranges.a) \/ ~In(b.w, E.ranges.w) \/ ~In(b.phi, E.ranges.phi) -> "a parameter is outside the range of its distribution"
    [] OTHER -> ""
\* rounding: the size of the terms summed, a bound on their number, and for the waves the size of the argument
One(v) == [i \in 1..Len(v) |-> RAdd(1, RAbs(v[i]))]
Tol0(t, x) ==
  CASE Forced(R.name) ->
         LET a == VSum([i \in 1..Len(p.banks) |-> VSum([k \in 1..2 |-> LET b == p.banks[i][k] IN
                   VSum([h \in 1..Len(b.a) |-> RMul(RAbs(b.a[h]), RAdd(RAdd(20, RMul(4, RAbs(RMul(b.w[h], t)))), RMul(4, RAbs(b.phi[h]))))])])])
         IN  IF R.name = "CoupledFourierSystem" THEN RMul(4, RAdd(1, RMul(a, RAdd(1, VSum([i \in 1..Len(p.lin.w) |-> VMaxAbs(p.lin.w[i])]))))) ELSE a
    [] R.name = "SineSystem" -> RAdd(8, RMul(4, RAbs(t)))
    [] R.name \in {"MatMulSystem", "MatMulBoundedSystem"} ->
         RMul(p.tol, RAdd(1, VMaxAbs(x)))
    [] R.name = "LTISystem" -> RMul(8 * (1 + Len(x)), RAdd(1, RAdd(VMaxAbs(p.lin.b), RMul(VMaxAbs(x), VSum([i \in 1..Len(p.lin.w) |-> VMaxAbs(p.lin.w[i])])))))
    [] R.name = "VanDerPol" -> RMul(RAdd(1, RMul(16, RAbs(p.alpha))), RPow(RAdd(1, VMaxAbs(x)), 3))
    [] OTHER -> RMul(200, RPow(RAdd(1, VMaxAbs(x)), 3))
Tol(t, x) == RMul(R.eps, Tol0(t, x))
Close(a, b, tol) == RFin(a) /\ RLe(RAbs(RSub(a, b)), tol)
CloseV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
RowOK(i) == LET t == IF E.many THEN E.ts[i] ELSE E.ts[1]
                x == IF Forced(R.name) THEN <<>> ELSE E.x[i] IN
            CloseV(E.y[i], Field(R.name, p, t, x), Tol(t, x))
CallClause ==
  CASE Len(E.y) # (IF Forced(R.name) THEN (IF E.many THEN Len(E.ts) ELSE 1) ELSE Len(E.x)) -> "the number of answers"
    [] \E i \in 1..Len(E.y) : ~RowOK(i) -> "the field of the system"
    [] R.name = "MatMulBoundedSystem" /\ \E i \in 1..Len(E.y) : ~RLe(VMaxAbs(E.y[i]), 1) -> "a bounded field is not"
    [] E.count >= 0 /\ E.count # E.evals -> "the counter of evaluations"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ l = 1 /\ p = [none |-> 0] /\ verdict = ""
Draw == /\ verdict = "" /\ l <= Len(R.ev) /\ E.ev = "draw" /\ UNCHANGED r
        /\ IF DrawClause = "" THEN p' = E.p /\ l' = l + 1 /\ UNCHANGED verdict ELSE verdict' = DrawClause /\ UNCHANGED <<l, p>>
Call == /\ verdict = "" /\ l <= Len(R.ev) /\ E.ev = "call" /\ UNCHANGED <<r, p>>
        /\ IF CallClause = "" THEN l' = l + 1 /\ UNCHANGED verdict ELSE verdict' = CallClause /\ UNCHANGED l
End == verdict = "" /\ l > Len(R.ev) /\ verdict' = "ok" /\ UNCHANGED <<r, l, p>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, l>>) /\ verdict' = "reported" /\ UNCHANGED <<r, l, p>>
Next == Draw \/ Call \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
