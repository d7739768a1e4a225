---------------------------- MODULE StepControl ----------------------------
(* Adaptive stepping as a state machine.

   The controller owns a time t, the state x and slope k there, a proposed step
   p, and ck, the index of the next requested time.  One trial computes a step of
   length Clip (the proposal, cut so as to land on the next requested time, or,
   with an interpolator, only on the end), and is either accepted or rejected by
   its error ratio.  The operators below are the single source of truth: the
   design model (StepControlMC) explores them with small numbers, and the trace
   specification (StepControlTrace) replays recorded runs of the code on them.

   Configuration c: req    requested times, strictly increasing, req[1] the start
                    interp with interpolator          all   all step ends are asked for
                    atol, rtol, order, safety, minf, maxf     semi  leading entries in the norm (0: all)
   A trial e:       dt, xn, fn (slope at the end), err                              *)
EXTENDS Rat, Integers, Sequences

LastOf(q) == q[Len(q)]
Target(c, s) == IF c.interp THEN LastOf(c.req) ELSE c.req[s.ck]
Gap(c, s) == RSub(Target(c, s), s.t)
Clip(c, s, p) == RMin(p, Gap(c, s))
Lands(c, s, p) == RLe(Gap(c, s), p)
Cut(c, s, p) == RLt(Gap(c, s), p)
Done(c, s) == s.ck > Len(c.req)

(* ---- error ratio: root mean square of err / (atol + rtol max(|x|, |xn|)), squared *)
Lead(c, v) == IF c.semi = 0 THEN v ELSE SubSeq(v, 1, c.semi)
Ratio2(c, x, e) ==
  LET er == Lead(c, e.err)
      q == [i \in 1..Len(er) |-> RDiv(er[i], RAdd(c.atol, RMul(c.rtol, RMax(RAbs(x[i]), RAbs(e.xn[i])))))]
  IN  RDiv(VDot(q, q), Len(er))

(* ---- step-size factor: safety / ratio^(1/order) clamped; at least 1 below ratio 1 *)
Factors(c, r2) ==
  IF REq(r2, 0) THEN {c.maxf}
  ELSE LET raw == RDiv(c.safety, RRoot(r2, 2 * c.order, 60))
           cl(lo) == RMin(c.maxf, RMax(raw, lo))
       IN IF RLt(r2, 1) THEN {cl("1")}
          ELSE IF REq(r2, 1) THEN {cl("1"), cl(c.minf)} ELSE {cl(c.minf)}

(* ---- proposals allowed after a trial made from proposal p.  When the trial was cut, the
        factor may apply to the cut length, to what was left of the proposal, or to all of it *)
Bases(c, s, p) == IF Cut(c, s, p) THEN {p, Gap(c, s), RSub(p, Gap(c, s))} ELSE {Clip(c, s, p)}
Proposals(c, s, p, r2) == {RMul(f, b) : f \in Factors(c, r2), b \in Bases(c, s, p)}

(* ---- what an accepted step from s to time tn emits.  A requested time strictly inside the step
        is emitted by the interpolant of the step, the end of the step with its own state        *)
RECURSIVE Inside(_, _, _)
Inside(c, j, tn) == IF j <= Len(c.req) /\ RLt(c.req[j], tn) THEN 1 + Inside(c, j + 1, tn) ELSE 0
Emit(c, s, e, tn) ==
  LET n == IF c.interp THEN Inside(c, s.ck, tn) ELSE 0
      inner == [i \in 1..n |-> [t |-> c.req[s.ck + i - 1], kind |-> "interp", x |-> s.x, k |-> s.k, t0 |-> s.t, t1 |-> tn,
                                dt |-> e.dt, xn |-> e.xn, fn |-> e.fn]]
      hit == s.ck + n <= Len(c.req) /\ REq(c.req[s.ck + n], tn)
      end == IF hit \/ c.all THEN <<[t |-> tn, kind |-> "step", x |-> e.xn]>> ELSE <<>>
  IN  [out |-> inner \o end, ck |-> s.ck + n + (IF hit THEN 1 ELSE 0)]
First(c, x0) == <<[t |-> c.req[1], kind |-> "step", x |-> x0]>>

AfterAccept(c, s, e, tn) ==
  LET em == Emit(c, s, e, tn)
  IN  [s EXCEPT !.t = tn, !.x = e.xn, !.k = e.fn, !.ck = em.ck, !.out = @ \o em.out]
AfterReject(c, s) == s
=============================================================================
