-------------------------------- MODULE Data --------------------------------
(* Geometry of the toy datasets and the index map of augmentation. *)
EXTENDS Rat, Integers, Sequences
B == 70
Len2(p) == RSqrt(VDot(p, p), B)
OnSphere(p, r, nu) == RLe(RAbs(RSub(Len2(p), r)), nu)
\* class 0: upper half of the unit circle at the origin; class 1: lower half of the one at (1, 1/2)
OnMoon(c, p, nu) == IF c = 0 THEN OnSphere(p, 1, nu) /\ RLe(RNeg(nu), p[2])
                    ELSE LET q == VSub(p, <<"1", "1/2">>) IN OnSphere(q, 1, nu) /\ RLe(q[2], nu)
\* r (-cos r, sin r), or its opposite
Spiral(c, r) == VScale(IF c = 0 THEN r ELSE RNeg(r), <<RNeg(RCos(r, B)), RSin(r, B)>>)
SpiralGap(c, p) == LET q == Spiral(c, Len2(p)) IN VMaxAbs(VSub(p, q))
\* ring of k centres: distance of neighbours
Chord(r, k) == RMul(RMul(2, r), RSin(RDiv(RPi(B), k), B))
\* law of cosines for centres an angle 2 pi / k apart
ArcGap(r1, r2, j, k) == RSqrt(RMax(0, RSub(RAdd(RMul(r1, r1), RMul(r2, r2)), RMul(RMul(2, RMul(r1, r2)), RCos(RDiv(RMul(2 * j, RPi(B)), k), B)))), B)
Lin(a, b, i, n) == IF n = 1 THEN a ELSE RAdd(a, RMul(RSub(b, a), RDiv(i, n - 1)))
\* augmentation: sizes as <<outer, along, inner>> around the dimension augmented
AugLen(sz, a) == sz[1] * (sz[2] + a) * sz[3]
AugAt(sz, a, first, i) ==
  LET w == sz[2] + a o == i \div (w * sz[3]) m == (i \div sz[3]) % w q == i % sz[3]
      new == IF first THEN m < a ELSE m >= sz[2]
  IN IF new THEN <<"new", (o * a + (IF first THEN m ELSE m - sz[2])) * sz[3] + q>>
     ELSE <<"data", (o * sz[2] + (IF first THEN m - a ELSE m)) * sz[3] + q>>
=============================================================================
