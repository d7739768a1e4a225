-------------------------- MODULE OtherStepsTrace --------------------------
(* Judges recorded steps (C18).  A run: f, net, p (order of the base), eps, tol (multiple of eps x size), rtol
   (absolute tolerance of the implicit equations, times the size), obs:
     [kind |-> "hyper", t, h, x, b, y]      b the base solver's own step, y the hypersolver's
     [kind |-> "alf", t, h, x, v, yx, yv]   a leapfrog step
     [kind |-> "back", x, y]                a leapfrog step and its reverse
     [kind |-> "implicit", t, h, x, y]      y has to solve the implicit equation
     [kind |-> "same", x, y]                                                          *)
EXTENDS OtherSteps, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, l, verdict
vars == <<r, l, verdict>>
R == Runs[r]
O == R.obs[l]
Init == r \in 1..Len(Runs) /\ l = 1 /\ verdict = ""
Eps(k) == RMul(RMul(R.tol, R.eps), k)
Grown(t, x, h) == VAdd(AbsV(x), VScale(RAbs(h), MapVal(AbsMap(R.f), RAdd(RAbs(t), RAbs(h)), AbsV(x))))
AlfSize == LET ah == RAbs(O.h) at == RAdd(RAdd(1, RAbs(O.t)), ah) xm == VAdd(AbsV(O.x), VScale(ah, AbsV(O.v)))
               vm == MapVal(AbsMap(R.f), at, xm) v1 == VAdd(VScale(3, vm), AbsV(O.v)) IN
           [x |-> VAdd(VAdd(xm, VScale(RAdd(ah, R.eps), v1)), R.ones), v |-> VAdd(VAdd(v1, R.ones), v1)]
Finite(v) == \A i \in 1..Len(v) : RFin(v[i])
Clause ==
  CASE O.kind = "hyper" /\ R.zero /\ O.y # O.b -> "a zero correction changes the base step"
    [] O.kind = "hyper" /\ ~NearV(O.y, HyperStep(O.b, R.net, R.p, O.t, O.x, O.h),
                              VScale(Eps(1), VAdd(AbsV(O.b), VAdd(AbsV(O.x), VScale(RPow(RAbs(O.h), R.p + 1), MapVal(AbsMap(R.net), RAdd(1, RAbs(O.t)), AbsV(O.x)))))))
         -> "the hypersolver step is not the base step plus the scaled correction"
    [] O.kind = "hyper" /\ ~NearV(O.b, Base(R.p, R.f, O.t, O.x, O.h), VScale(Eps(8), VAdd(R.ones, Grown(O.t, Grown(O.t, Grown(O.t, Grown(O.t, O.x, O.h), O.h), O.h), O.h)))) -> "the base step is not its formula"
    [] O.kind = "alf" /\ LET q == Alf(R.f, O.t, O.x, O.v, O.h) z == AlfSize IN
                          ~(NearV(O.yx, q.x, VScale(Eps(1), z.x)) /\ NearV(O.yv, q.v, VScale(Eps(1), z.v))) -> "the leapfrog step is not its formula"
    [] O.kind = "back" /\ ~NearV(O.y, O.x, VScale(Eps(1), O.size)) -> "the leapfrog step is not undone by its reverse"
    [] O.kind = "implicit" /\ (~Finite(O.y) \/ \E i \in 1..Len(O.y) : ~Near(ImplicitResidual(R.f, O.t, O.x, O.y, O.h)[i], 0, RMul(R.rtol, RAdd(1, VMaxAbs(O.x))))) -> "the implicit equation is not solved"
    [] O.kind = "same" /\ O.x # O.y -> "two values that have to be identical differ"
    [] OTHER -> ""
Step == /\ verdict = "" /\ l <= Len(R.obs)
        /\ verdict' = Clause /\ l' = (IF Clause = "" THEN l + 1 ELSE l) /\ UNCHANGED r
End == verdict = "" /\ l > Len(R.obs) /\ verdict' = "ok" /\ UNCHANGED <<r, l>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, l>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, l>>
Next == Step \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
