-------------------------- MODULE StepControlTrace --------------------------
(* Trace specification: is each recorded adaptive solve a behaviour of StepControl?
   mode "control" judges the controller (property C02), mode "output" judges what is
   returned, taking the accepted steps from the record (property C01).
   A run: c (configuration, see StepControl, plus eps, tolx, dt0, exact, checkmid), x0,
   ev: trials [t, dt, x, k, xn, fn, err, mid, last, pt, px, pk] where p* is what the next
   trial starts from, res: [t, x] returned points.                                   *)
EXTENDS StepControl, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, l, s, ps, verdict
vars == <<r, l, s, ps, verdict>>
R == Runs[r]
C == R.c
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
TolT == RMul(RMul(8, C.eps), RMax(RAbs(C.req[1]), RAbs(LastOf(C.req))))
Fuzz == "1/100000"

Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ verdict = ""
        /\ s = [t |-> Runs[r].c.req[1], x |-> Runs[r].x0, k |-> Runs[r].k0, ck |-> 2, out |-> First(Runs[r].c, Runs[r].x0)]
        /\ ps = IF Runs[r].c.dt0 = "" THEN {} ELSE {[v |-> Runs[r].c.dt0, w |-> RMul(Fuzz, Runs[r].c.dt0)]}

(* ------------------------------ control ------------------------------ *)
E == R.ev[l]
G == Gap(C, s)
(* ways to read this trial: the proposal q uncut, or cut to the gap (both, when they agree to rounding) *)
Readings ==
  IF ps = {} THEN {[v |-> E.dt, w |-> "0", cut |-> FALSE]}
  ELSE {[v |-> E.dt, w |-> "0", cut |-> FALSE] : q \in {p \in ps : RLe(p.v, RAdd(G, RAdd(p.w, TolT))) /\ Near(E.dt, p.v, RAdd(p.w, TolT))}}
       \cup {[v |-> q.v, w |-> q.w, cut |-> TRUE] : q \in {p \in ps : RLe(RSub(G, RAdd(p.w, TolT)), p.v) /\ Near(E.dt, G, TolT)}}
Reached == REq(E.pt, Target(C, s))
R2 == Ratio2(C, E.x, E)
Band == "1/100000"
Acc == IF RLe(R2, RSub(1, Band)) THEN TRUE
       ELSE IF RLe(RAdd(1, Band), R2) THEN FALSE
       ELSE IF C.exact /\ REq(R2, 1) THEN TRUE
       ELSE E.last \/ (E.px = E.xn /\ E.px # E.x)
ControlClause ==
  CASE ~RFin(E.dt) \/ ~RLt("0", E.dt) -> "the step has no positive length"
    [] ~Near(E.t, s.t, TolT) -> "the trial does not start at the current time"
    [] E.x # s.x -> "the trial does not start from the current state"
    [] E.k # <<>> /\ E.k # s.k -> "the trial does not start with the current slope"
    [] RLt(Target(C, s), RSub(RAdd(s.t, E.dt), TolT)) -> "the trial overshoots the next requested time or the end"
    [] Readings = {} -> "the step is not the proposal allowed by the previous trial"
    [] ~RFin(R2) -> "the error ratio is not finite"
    [] E.last /\ ~Acc -> "the solve ends after a rejected trial"
    [] E.last /\ ~Near(RAdd(s.t, E.dt), LastOf(C.req), TolT) -> "the solve ends before the end time"
    [] ~E.last /\ Acc /\ E.px # E.xn -> "an accepted state is not carried into the next trial"
    [] ~E.last /\ Acc /\ E.pk # <<>> /\ E.pk # E.fn -> "the slope at the end of an accepted step is not carried"
    [] ~E.last /\ Acc /\ ~Near(E.pt, RAdd(s.t, E.dt), TolT) -> "time does not advance by the accepted step"
    [] ~E.last /\ ~Acc /\ (E.px # s.x) -> "a rejected trial changes the state"
    [] ~E.last /\ ~Acc /\ E.pk # <<>> /\ E.pk # s.k -> "a rejected trial changes the slope"
    [] ~E.last /\ ~Acc /\ ~Near(E.pt, s.t, TolT) -> "a rejected trial changes the time"
    [] ~E.last /\ Acc /\ REq(E.pt, LastOf(C.req)) -> "a trial is made after the end"
    [] OTHER -> ""
(* landing on a requested time consumes it; plain steps consume nothing (interp: only the end counts) *)
ControlAfter ==
  IF ~Acc \/ E.last THEN s
  ELSE [s EXCEPT !.t = E.pt, !.x = E.xn, !.k = E.fn, !.ck = IF Reached /\ ~C.interp THEN @ + 1 ELSE @]
BasesOf(q) == IF ~q.cut THEN {[v |-> q.v, w |-> q.w]}
              ELSE {[v |-> z, w |-> RAdd(q.w, TolT)] : z \in {q.v, G, RSub(q.v, G), RSub(RMin(q.v, RSub(LastOf(C.req), s.t)), G)}}
NextPs ==
  IF ps = {} /\ Near(E.dt, G, TolT) THEN {}
  ELSE LET all == UNION {{[v |-> RMul(f, b.v), w |-> RMul(f, RAdd(b.w, RMul(Fuzz, RAbs(b.v))))] : f \in Factors(C, R2), b \in BasesOf(q)} : q \in Readings}
       IN {z \in all : RLt("0", RAdd(z.v, z.w))}
Control == /\ C.mode = "control" /\ verdict = "" /\ l <= Len(R.ev)
           /\ LET cl == ControlClause IN
              IF cl # "" THEN verdict' = cl /\ UNCHANGED <<r, l, s, ps>>
              ELSE /\ s' = ControlAfter /\ ps' = NextPs /\ l' = l + 1 /\ UNCHANGED r
                   /\ verdict' = IF E.last THEN "ok" ELSE ""

(* ------------------------------ output ------------------------------ *)
Advanced == E.last \/ E.pt # E.t
Tn == IF E.last THEN LastOf(C.req) ELSE E.pt
S1 == [s EXCEPT !.t = E.t, !.x = E.x, !.k = IF E.k = <<>> THEN @ ELSE E.k]
Skips == ~C.interp /\ Advanced /\ s.ck <= Len(C.req) /\ RLt(C.req[s.ck], Tn)
Output == /\ C.mode = "output" /\ verdict = "" /\ l <= Len(R.ev)
          /\ IF Skips THEN verdict' = "an accepted step passes a requested time without landing on it" /\ UNCHANGED <<r, l, s, ps>>
             ELSE /\ s' = IF Advanced THEN LET em == Emit(C, S1, [E EXCEPT !.k = S1.k], Tn) IN
                                 [S1 EXCEPT !.t = Tn, !.x = E.xn, !.k = E.fn, !.ck = em.ck,
                                            !.out = @ \o [i \in 1..Len(em.out) |-> IF em.out[i].kind = "step" THEN em.out[i]
                                                                                   ELSE [mid |-> E.mid] @@ em.out[i]]]
                          ELSE s
                  /\ l' = l + 1 /\ UNCHANGED <<r, ps, verdict>>
(* the interpolant: the quartic through both end states and slopes and the midpoint x + dt/2 mid *)
Quartic(o, i) ==
  LET th == RDiv(RSub(o.t, o.t0), RSub(o.t1, o.t0))
      x0 == o.x[i]  x1 == o.xn[i]  f0 == RMul(o.dt, o.k[i])  f1 == RMul(o.dt, o.fn[i])
      xm == RAdd(x0, RMul(RMul(o.dt, "1/2"), o.mid[i]))
      c1 == RAdd(RSub(RMul(2, RSub(f1, f0)), RMul(8, RAdd(x1, x0))), RMul(16, xm))
      c2 == RSub(RAdd(RAdd(RSub(RMul(5, f0), RMul(3, f1)), RMul(18, x0)), RMul(14, x1)), RMul(32, xm))
      c3 == RAdd(RSub(RSub(RSub(f1, RMul(4, f0)), RMul(11, x0)), RMul(5, x1)), RMul(16, xm))
  IN  RAdd(x0, RMul(th, RAdd(f0, RMul(th, RAdd(c3, RMul(th, RAdd(c2, RMul(th, c1))))))))
Mag(o, i) == LET xm == RMul(o.dt, RAbs(o.mid[i])) IN
  RAdd(RAdd(RAdd(RAbs(o.x[i]), RAbs(o.xn[i])), xm), RMul(o.dt, RAdd(RAbs(o.k[i]), RAbs(o.fn[i]))))
TolI(o, i) == RMul(RMul(RMul(1000, Mag(o, i)), C.tolx), RAdd(1, RDiv(RMax(RAbs(o.t0), RAbs(o.t1)), RSub(o.t1, o.t0))))
SameState(o, v) == IF o.kind = "step" THEN v = o.x
                   ELSE ~C.checkmid \/ (Len(v) = Len(o.x) /\ \A i \in 1..Len(v) : Near(v[i], Quartic(o, i), TolI(o, i)))
OutputClause ==
  LET out == s.out  res == R.res IN
  CASE ~Done(C, s) -> "the end time is not reached"
    [] Len(res) # Len(out) -> "the number of returned points"
    [] \E i \in 1..Len(out) : i \in DOMAIN res /\ res[i].t # out[i].t -> "a returned time"
    [] \E i \in 1..Len(out) : ~SameState(out[i], res[i].x) -> "a returned state is not the one at its time"
    [] OTHER -> "ok"
OutputEnd == /\ C.mode = "output" /\ verdict = "" /\ l > Len(R.ev)
             /\ verdict' = OutputClause /\ UNCHANGED <<r, l, s, ps>>
Empty == /\ C.mode = "control" /\ verdict = "" /\ l > Len(R.ev)
         /\ verdict' = "the record ends before the solve does" /\ UNCHANGED <<r, l, s, ps>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, l>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, l, s, ps>>
Next == Control \/ Output \/ OutputEnd \/ Empty \/ Report
Spec == Init /\ [][Next]_vars
TimesInSpan == RLe(s.t, RAdd(LastOf(C.req), TolT))
CkInRange == s.ck \in 2..(Len(C.req) + 1)
=============================================================================
