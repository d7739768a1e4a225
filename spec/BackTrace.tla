----------------------------- MODULE BackTrace -----------------------------
(* Judges recorded solves over decreasing spans (C06).
   A run: sys, order, y0, t0 (start, the largest time), req (times asked for, in the order asked), all (every
   evaluated point was asked for), ordered (req is decreasing), eps, tol, res: [t, y], calls: times at which the field was evaluated,
   lo, hi (the span), refl: states of the forward solve of the reflected problem at the returned times (<<>>: none),
   rtol: allowed difference to them, back: state after integrating back to the start (<<>>: none).
   sys is <<>> when the field is not one of the tree systems.                                  *)
EXTENDS Flow, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, verdict
R == Runs[r]
Near(a, b, tol) == RFin(a) /\ RFin(b) /\ RLe(RAbs(RSub(a, b)), tol)
Times == [i \in 1..Len(R.res) |-> R.res[i].t]
Slack == RMul(RMul(16, R.eps), RMax(RAbs(R.lo), RAbs(R.hi)))
RECURSIVE SubseqAt(_, _, _)
SubseqAt(q, v, j) == IF q = <<>> THEN TRUE
                     ELSE IF j > Len(v) THEN FALSE
                     ELSE IF v[j] = Head(q) THEN SubseqAt(Tail(q), v, j + 1) ELSE SubseqAt(q, v, j + 1)
Init == r \in 1..Len(Runs) /\ verdict = ""
FlowClause ==
  IF R.sys = <<>> THEN ""
  ELSE LET wt == Weights(R.sys)
           fl == Flow(R.sys, R.t0, R.y0)
           sz == Flow(AbsSys(R.sys), RAdd(RAbs(R.t0), RSub(R.hi, R.lo)), VAbs(R.y0))
           Bad(i, k) == LET s == RSub(R.res[k].t, R.t0) IN
                          ~Near(R.res[k].y[i], PEval(fl[i], s), RMul(RMul(R.tol, R.eps), RAdd(PEval(sz[i], RAbs(s)), RAbs(R.y0[i]))))
           BadBack(i) == ~Near(R.back[i], R.y0[i], RMul(RMul(RMul(100, R.tol), R.eps), RAdd(RAdd(1, RAbs(R.y0[i])), PEval(sz[i], RSub(R.hi, R.lo)))))
       IN CASE \E k \in 1..Len(R.res), i \in 1..Len(R.sys) : wt[i] <= R.order /\ Bad(i, k) -> "a state is not the flow of the same equation backwards"
            [] R.back # <<>> /\ \E i \in 1..Len(R.sys) : wt[i] <= R.order /\ BadBack(i) -> "integrating forward again does not return to the start"
            [] OTHER -> ""
Clause ==
  CASE ~R.all /\ Times # R.req -> "the returned times are not the requested ones"
    [] R.all /\ \E i \in 1..(Len(Times) - 1) : ~RLt(Times[i + 1], Times[i]) -> "the returned times do not decrease"
    [] R.all /\ ~SubseqAt(R.req, Times, 1) -> "a requested time is missing"
    [] \E i \in 1..Len(R.calls) : RLt(R.calls[i], RSub(R.lo, Slack)) \/ RLt(RAdd(R.hi, Slack), R.calls[i]) -> "the field is evaluated outside the span"
    [] R.refl # <<>> /\ (Len(R.refl) # Len(R.res) \/ \E k \in 1..Len(R.res) : \E i \in 1..Len(R.refl[k]) : ~Near(R.res[k].y[i], R.refl[k][i], R.rtol))
         -> "the states differ from those of the reflected forward solve"
    [] OTHER -> FlowClause
Judge == verdict = "" /\ verdict' = (IF Clause = "" THEN "ok" ELSE Clause) /\ UNCHANGED r
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, 0>>) /\ verdict' = "reported" /\ UNCHANGED r
Next == Judge \/ Report
Spec == Init /\ [][Next]_<<r, verdict>>
=============================================================================
