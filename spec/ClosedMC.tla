------------------------------ MODULE ClosedMC ------------------------------
(* TLC checks, on every problem family: the closed forms start at their initial state and satisfy their equations; a solve
   that makes any sequence of local errors of at most one tolerance, each, is off the closed form by no more than
   (number of steps) x (tolerance) x Amp at every time; conserved quantities do not change along their fields.  *)
EXTENDS Closed, TLC
Problems ==
  {[p |-> [kind |-> "exp", c |-> <<a>>], x |-> <<"3/2">>] : a \in {"-2", "1/2", "5/4"}} \cup
  {[p |-> [kind |-> "rot", c |-> <<w>>], x |-> <<"1", "-1/2">>] : w \in {"1", "-7/2"}} \cup
  {[p |-> [kind |-> "spiral", c |-> c], x |-> <<"1/2", "1">>] : c \in {<<"-1/2", "3">>, <<"3/4", "2">>}} \cup
  {[p |-> [kind |-> "logistic", c |-> c], x |-> <<x>>] : c \in {<<"1", "2">>, <<"5/2", "1">>}, x \in {"1/8", "3/4"}} \cup
  {[p |-> [kind |-> "riccati", c |-> <<q>>], x |-> <<"1", "1/4">>] : q \in {"1/4", "1/8"}} \cup
  {[p |-> [kind |-> "gauss", c |-> <<q>>], x |-> <<"1">>] : q \in {"-1/2", "1/4"}} \cup
  {[p |-> [kind |-> "poly", c |-> <<"1", "-2", "3/4">>], x |-> <<"0">>]} \cup
  {[p |-> [kind |-> "relax", c |-> c], x |-> <<"2">>] : c \in {<<"1/2", "2">>, <<"3/2", "1">>}} \cup
  {[p |-> [kind |-> "jordan", c |-> c], x |-> <<"1", "-1">>] : c \in {<<"-1", "1">>, <<"1/4", "-1/2">>}}
Conserved ==
  {[p |-> [kind |-> "rot", c |-> <<"2">>], x |-> <<"1", "-1/2">>]} \cup
  {[p |-> [kind |-> k, c |-> <<"3/2">>], x |-> x] : k \in {"quartic", "pendulum"}, x \in {<<"1", "1/2">>, <<"-3/4", "1">>, <<"0", "1">>}} \cup
  {[p |-> [kind |-> "rigid", c |-> <<"1", "-2", "5/4">>], x |-> x] : x \in {<<"1", "1/2", "-1">>, <<"0", "1", "3/4">>}} \cup
  {[p |-> [kind |-> "kepler", c |-> <<"1">>], x |-> x] : x \in {<<"1", "0", "0", "9/8">>, <<"3/4", "1/2", "-1/2", "1">>}}
CONSTANT N
Gap == <<"1/4", "1/8", "1/2", "3/8">>
Starts == {"0", "-1/2", "3/4"}
Tol == RTwo(-30)
VARIABLES o, t0, t, n, y, sgn
vars == <<o, t0, t, n, y, sgn>>
Flow == o \in Problems
Init == /\ o \in Problems \cup Conserved /\ sgn \in {1, -1} /\ t0 \in Starts /\ t = t0 /\ n = 0 /\ y = o.x
Step == /\ Flow /\ n < N
        /\ \E e \in {-1, 0, 1} :
             LET u == RAdd(t, RMul(sgn, Gap[n + 1])) IN
             /\ t' = u /\ n' = n + 1
             /\ y' = VRound(VAdd(Sol(o.p, y, t, u), [i \in 1..Len(y) |-> RMul(e, Tol)]), 100)
        /\ UNCHANGED <<o, t0, sgn>>
Next == Step
Spec == Init /\ [][Next]_vars
Near(a, b, d) == RLe(VMaxAbs(VSub(a, b)), d)
Starting == Flow => Sol(o.p, o.x, t0, t0) = o.x \/ Near(Sol(o.p, o.x, t0, t0), o.x, RTwo(-80))
\* central differences with a step of 2^-20 are off by at most 2^-40 times a third derivative
Equation == Flow => LET d == RTwo(-20)  a == Sol(o.p, o.x, t0, RAdd(t, d))  b == Sol(o.p, o.x, t0, RSub(t, d)) IN
            Near(VScale(RDiv(1, RMul(2, d)), VSub(a, b)), Field(o.p, t, Sol(o.p, o.x, t0, t)), RTwo(-26))
\* two entries of a sample may both be perturbed: a factor two, and a little for the curvature
Bound == Flow => Near(y, Sol(o.p, o.x, t0, t), RMul(RMul(RMul(n, Tol), RMul(2, "1001/1000")), Amp(o.p, o.x, t0, t)))
Tight == n = 0 => y = o.x
Conserve == ~Flow => LET d == RTwo(-20)  f == CField(o.p, t, o.x) IN
            Near(Invs(o.p, VAdd(o.x, VScale(d, f))), Invs(o.p, VSub(o.x, VScale(d, f))), RTwo(-50))
GradBound == ~Flow => \A i \in 1..Len(o.x) : LET d == RTwo(-20)  z == [o.x EXCEPT ![i] = RAdd(@, d)]
                                                 rho == IF o.p.kind = "kepler" THEN RSqrt(RAdd(Sq(o.x[1]), Sq(o.x[2])), Bits) ELSE "1"
                                           IN Near(Invs(o.p, z), Invs(o.p, o.x), RMul(RMul("101/100", d), Grad(o.p, VMaxAbs(o.x), rho)))
=============================================================================
