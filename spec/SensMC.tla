------------------------------- MODULE SensMC -------------------------------
(* The backward pass of a solve whose loss reads its states at several times: the adjoint starts from the last one read, flows back to the one before, where the
   weights of that state are added, and so on.  What arrives at the start, and what it collected on the way, is the gradient by forward sensitivities. *)
EXTENDS Sens, FiniteSets
CONSTANTS MaxTimes
Mo(c, m, e) == [c |-> c, m |-> m, e |-> e]
Systems == {
  <<<<Mo("2", 0, <<>>)>>, <<Mo("1/2", 1, <<1>>), Mo("-1", 0, <<2>>)>>, <<Mo("-3/4", 0, <<1, 1>>)>>>>,
  <<<<Mo("1", 2, <<>>), Mo("-1/2", 0, <<>>)>>, <<Mo("1", 0, <<>>)>>, <<Mo("2/3", 0, <<0, 2>>), Mo("1/5", 1, <<1, 0>>)>>>>,
  <<<<Mo("0", 0, <<>>)>>, <<Mo("1", 0, <<3>>)>>, <<Mo("1", 0, <<0, 1>>)>>>>}
W == {<<"0", "0", "0">>, <<"1", "-1/2", "2">>, <<"0", "0", "1">>}
Y0 == <<"1/2", "-1", "3/2">>
Start == {"0", "-1/3"}
Steps == {"1/2", "-1/2"}
VARIABLES f, t0, dt, w, i, lam, mu, ph
vars == <<f, t0, dt, w, i, lam, mu, ph>>
N == 3
Params == {<<a, q>> : a \in 1..N, q \in 1..2}
Has(p) == p[2] <= Len(f[p[1]])
S(k) == RMul(dt, k - 1)  \* elapsed time at point k
Ys == Flow(f, t0, Y0)
J == JacAlong(f, Ys, t0)
Init == /\ f \in Systems /\ t0 \in Start /\ dt \in Steps /\ (\E n \in 2..MaxTimes : w \in [1..n -> W])
        /\ i = Len(w) /\ lam = w[Len(w)] /\ mu = [p \in Params |-> "0"] /\ ph = "flow"
Back == ph = "flow" /\ i > 1 /\ LET l == Adjoint(J, lam, S(i)) IN
          /\ lam' = At(l, S(i - 1))
          /\ mu' = [p \in Params |-> IF Has(p) THEN RAdd(mu[p], Collect(f, Ys, t0, l, p[1], p[2], S(i - 1), S(i))) ELSE "0"]
          /\ i' = i - 1 /\ ph' = "jump" /\ UNCHANGED <<f, t0, dt, w>>
Jump == ph = "jump" /\ lam' = VAdd(lam, w[i]) /\ ph' = "flow" /\ UNCHANGED <<f, t0, dt, w, i, mu>>
Arrive == ph = "flow" /\ i = 1 /\ ph' = "done" /\ UNCHANGED <<f, t0, dt, w, i, lam, mu>>
Next == Back \/ Jump \/ Arrive
Spec == Init /\ [][Next]_vars
Total(z) == VSum([k \in 1..Len(w) |-> VDot(w[k], At(z, S(k)))])
Gradients == ph = "done" =>
  /\ \A k \in 1..N : lam[k] = Total(DState(f, J, k))
  /\ \A p \in Params : Has(p) => mu[p] = Total(DCoef(f, J, Ys, t0, p[1], p[2]))
\* the sensitivities are derivatives: a loss is a polynomial of degree three at most in each initial coordinate and coefficient here,
\* so that the central difference with steps h and 2h, extrapolated, is exact
Loss(g, y) == LET ys == Flow(g, t0, y) IN VSum([k \in 1..Len(w) |-> VDot(w[k], At(ys, S(k)))])
Slope(F(_)) == LET D(h) == RDiv(RSub(F(h), F(RNeg(h))), RMul(2, h)) IN RDiv(RSub(RMul(4, D("1")), D("2")), "3")
Derivatives == ph = "done" =>
  /\ \A k \in 1..N : LET F(h) == Loss(f, [Y0 EXCEPT ![k] = RAdd(@, h)]) IN Slope(F) = lam[k]
  /\ \A p \in Params : Has(p) => LET F(h) == Loss([f EXCEPT ![p[1]][p[2]].c = RAdd(@, h)], Y0) IN Slope(F) = mu[p]
\* the gradient in the times: each state read moves along the field, the start against it (the loss has degree six at most in each time, so the slope is exact)
Slope6(F(_)) == LET D(h) == RDiv(RSub(F(h), F(RNeg(h))), RMul(2, h)) IN RAdd(RSub(RMul("3/2", D("1")), RMul("3/5", D("2"))), RMul("1/10", D("3")))
LossAt(a, s) == LET ys == Flow(f, a, Y0) IN VSum([k \in 1..Len(w) |-> VDot(w[k], At(ys, s[k]))])
Times == ph = "done" =>
  /\ \A k \in 2..Len(w) : LET F(h) == LossAt(t0, [j \in 1..Len(w) |-> IF j = k THEN RAdd(S(j), h) ELSE S(j)])
                          IN Slope6(F) = VDot(w[k], MapVal(f, RAdd(t0, S(k)), At(Ys, S(k))))
  /\ LET F(h) == LossAt(RAdd(t0, h), [j \in 1..Len(w) |-> IF j = 1 THEN "0" ELSE RSub(S(j), h)])
         rate == MapVal(f, t0, Y0)
     IN Slope6(F) = RSub(VDot(w[1], rate), VDot(lam, rate))
=============================================================================
