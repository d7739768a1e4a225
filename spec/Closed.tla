------------------------------- MODULE Closed -------------------------------
(* Problems with a known closed-form solution or known conserved quantities (C20), in exact numbers.
   A problem p: [kind, c], c the sequence of its parameters.  A state is the sequence of the entries of one sample.
     exp      x' = a x                                   c = <<a>>
     rot      (x, y)' = (w y, -w x)                      c = <<w>>
     spiral   (x, y)' = (a x + w y, a y - w x)           c = <<a, w>>
     logistic x' = r x (1 - x / m)                       c = <<r, m>>
     riccati  x' = -q x^2                                c = <<q>>
     gauss    x' = 2 q t x                               c = <<q>>
     poly     x' = c1 + c2 t + c3 t^2 + ..               c = coefficients
     relax    x' = -k (x - sin w t) + w cos w t          c = <<k, w>>
     jordan   x' = a x + b y,  y' = a y                  c = <<a, b>>                        *)
EXTENDS Rat, Integers, Sequences
Bits == 90
Ex(a) == RExp(a, Bits)
Sol(p, x, t0, t) ==
  LET h == RSub(t, t0)  c == p.c IN
  CASE p.kind = "exp" -> VScale(Ex(RMul(c[1], h)), x)
    [] p.kind = "rot" -> LET a == RMul(c[1], h)  u == RCos(a, Bits)  v == RSin(a, Bits)
                         IN <<RAdd(RMul(u, x[1]), RMul(v, x[2])), RSub(RMul(u, x[2]), RMul(v, x[1]))>>
    [] p.kind = "spiral" -> LET a == RMul(c[2], h)  u == RCos(a, Bits)  v == RSin(a, Bits)
                         IN VScale(Ex(RMul(c[1], h)), <<RAdd(RMul(u, x[1]), RMul(v, x[2])), RSub(RMul(u, x[2]), RMul(v, x[1]))>>)
    [] p.kind = "logistic" -> [i \in 1..Len(x) |-> LET e == Ex(RMul(c[1], h)) IN RDiv(RMul(RMul(c[2], x[i]), e), RAdd(c[2], RMul(x[i], RSub(e, 1))))]
    [] p.kind = "riccati" -> [i \in 1..Len(x) |-> RDiv(x[i], RAdd(1, RMul(RMul(c[1], h), x[i])))]
    [] p.kind = "gauss" -> VScale(Ex(RMul(c[1], RSub(RMul(t, t), RMul(t0, t0)))), x)
    [] p.kind = "poly" -> LET q == PInt(c) d == RSub(PEval(q, t), PEval(q, t0)) IN [i \in 1..Len(x) |-> RAdd(x[i], d)]
    [] p.kind = "relax" -> LET e == Ex(RNeg(RMul(c[1], h)))  s == RSin(RMul(c[2], t), Bits)  s0 == RSin(RMul(c[2], t0), Bits)
                         IN [i \in 1..Len(x) |-> RAdd(s, RMul(RSub(x[i], s0), e))]
    [] p.kind = "jordan" -> LET e == Ex(RMul(c[1], h)) IN <<RMul(e, RAdd(x[1], RMul(RMul(c[2], h), x[2]))), RMul(e, x[2])>>
Field(p, t, x) ==
  LET c == p.c IN
  CASE p.kind = "exp" -> VScale(c[1], x)
    [] p.kind = "rot" -> <<RMul(c[1], x[2]), RNeg(RMul(c[1], x[1]))>>
    [] p.kind = "spiral" -> <<RAdd(RMul(c[1], x[1]), RMul(c[2], x[2])), RSub(RMul(c[1], x[2]), RMul(c[2], x[1]))>>
    [] p.kind = "logistic" -> [i \in 1..Len(x) |-> RMul(RMul(c[1], x[i]), RSub(1, RDiv(x[i], c[2])))]
    [] p.kind = "riccati" -> [i \in 1..Len(x) |-> RNeg(RMul(c[1], RMul(x[i], x[i])))]
    [] p.kind = "gauss" -> VScale(RMul(RMul(2, c[1]), t), x)
    [] p.kind = "poly" -> [i \in 1..Len(x) |-> PEval(c, t)]
    [] p.kind = "relax" -> [i \in 1..Len(x) |-> RAdd(RNeg(RMul(c[1], RSub(x[i], RSin(RMul(c[2], t), Bits)))), RMul(c[2], RCos(RMul(c[2], t), Bits)))]
    [] p.kind = "jordan" -> <<RAdd(RMul(c[1], x[1]), RMul(c[2], x[2])), RMul(c[1], x[2])>>
\* bound of the growth of a perturbation from any time between t0 and t on, up to t (x: the initial state)
Pos(a) == RMax(a, 0)
Amp(p, x, t0, t) ==
  LET h == RSub(t, t0)  c == p.c IN
  CASE p.kind \in {"exp", "spiral"} -> Ex(Pos(RMul(c[1], h)))
    [] p.kind \in {"rot", "poly"} -> "1"
    [] p.kind = "logistic" -> Ex(Pos(RAbs(RMul(c[1], h))))
    [] p.kind = "riccati" -> LET q == RAdd(1, RMul(RMul(c[1], h), VMaxAbs(x))) IN RMax(1, RDiv(1, RMul(q, q)))
    [] p.kind = "gauss" -> Ex(RMul(RAbs(c[1]), RMax(RMul(t, t), RMul(t0, t0))))
    [] p.kind = "relax" -> Ex(Pos(RNeg(RMul(c[1], h))))
    [] p.kind = "jordan" -> Ex(Pos(RAdd(RMul(c[1], h), RAbs(RMul(c[2], h)))))
\* how many characteristic times of the problem lie between t0 and t (entries of the solution below m)
Work(p, m, t0, t) ==
  LET h == RAbs(RSub(t, t0))  c == [i \in 1..Len(p.c) |-> RAbs(p.c[i])] IN
  RAdd(1, CASE p.kind \in {"exp", "rot", "logistic"} -> RMul(h, c[1])
    [] p.kind \in {"spiral", "relax", "jordan"} -> RMul(h, RAdd(c[1], c[2]))
    [] p.kind = "riccati" -> RMul(h, RMul(c[1], m))
    [] p.kind = "gauss" -> RMul(h, RMul(RMul(2, c[1]), RMax(RAbs(t), RAbs(t0))))
    [] p.kind = "poly" -> RDiv(Len(c), 2)
    [] p.kind \in {"quartic", "pendulum", "kepler"} -> RMul(RMul(h, c[1]), RAdd(1, m))
    [] p.kind = "rigid" -> RMul(RMul(h, c[1]), RMul(m, RAdd(c[2], c[3]))))
-----------------------------------------------------------------------------
(* Conserved quantities.
     rot      x^2 + y^2
     quartic  (q, p)' = (w p, -w q^3)                    2 p^2 + q^4
     pendulum (q, p)' = (w p, -w sin q)                  p^2 - 2 cos q
     rigid    (x, y, z)' = w (a y z, b z x, -(a+b) x y)  x^2 + y^2 + z^2,  b x^2 - a y^2
     kepler   (q1, q2, p1, p2)' = w (p1, p2, -q / |q|^3) |p|^2 - 2 / |q|,  q1 p2 - q2 p1         *)
Sq(a) == RMul(a, a)
Invs(p, x) ==
  LET c == p.c IN
  CASE p.kind = "rot" -> <<RAdd(Sq(x[1]), Sq(x[2]))>>
    [] p.kind = "quartic" -> <<RAdd(RMul(2, Sq(x[2])), RPow(x[1], 4))>>
    [] p.kind = "pendulum" -> <<RSub(Sq(x[2]), RMul(2, RCos(x[1], Bits)))>>
    [] p.kind = "rigid" -> <<VDot(x, x), RSub(RMul(c[3], Sq(x[1])), RMul(c[2], Sq(x[2])))>>
    [] p.kind = "kepler" -> <<RSub(RAdd(Sq(x[3]), Sq(x[4])), RDiv(2, RSqrt(RAdd(Sq(x[1]), Sq(x[2])), Bits))), RSub(RMul(x[1], x[4]), RMul(x[2], x[3]))>>
\* bound of the sum of the absolute entries of their gradients where no entry exceeds m and, for kepler, the radius is at least rho
Grad(p, m, rho) ==
  CASE p.kind = "rot" -> RMul(4, m)
    [] p.kind = "quartic" -> RAdd(RMul(4, m), RMul(4, RPow(m, 3)))
    [] p.kind = "pendulum" -> RAdd(RMul(2, m), 2)
    [] p.kind = "rigid" -> RMul(RMul(6, m), RMax(1, RMax(RAbs(p.c[2]), RAbs(p.c[3]))))
    [] p.kind = "kepler" -> RAdd(RMul(4, m), RDiv(4, Sq(rho)))
CField(p, t, x) ==
  LET c == p.c IN
  CASE p.kind = "rot" -> Field(p, t, x)
    [] p.kind = "quartic" -> VScale(c[1], <<x[2], RNeg(RPow(x[1], 3))>>)
    [] p.kind = "pendulum" -> VScale(c[1], <<x[2], RNeg(RSin(x[1], Bits))>>)
    [] p.kind = "rigid" -> VScale(c[1], <<RMul(c[2], RMul(x[2], x[3])), RMul(c[3], RMul(x[3], x[1])), RNeg(RMul(RAdd(c[2], c[3]), RMul(x[1], x[2])))>>)
    [] p.kind = "kepler" -> LET r == RSqrt(RAdd(Sq(x[1]), Sq(x[2])), Bits)  k == RDiv(-1, RPow(r, 3)) IN VScale(c[1], <<x[3], x[4], RMul(k, x[1]), RMul(k, x[2])>>)
=============================================================================
