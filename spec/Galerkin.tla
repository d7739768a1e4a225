------------------------------ MODULE Galerkin ------------------------------
(* Galerkin layers: weights expanded in a basis of the depth.  A layer keeps one row of coefficients per weight entry and per bias entry:
   coefficient [row][degree][function]; rows of the weight come first, output-major. *)
EXTENDS Rat, Integers, Sequences
GB == 80
\* frequency grid: deg points from 0 to deg
GridAt(deg, k) == IF deg = 1 THEN "0" ELSE RDiv(RMul(deg, k - 1), deg - 1)
Grid(deg) == [k \in 1..deg |-> GridAt(deg, k)]
\* s^n for s >= 0 and rational n = p/q given as a pair
RatPow(s, p, q) == IF p = 0 THEN "1" ELSE RRoot(RPow(s, p), q, GB)
RECURSIVE Cheb(_, _)
Cheb(n, s) == IF n = 0 THEN "1" ELSE IF n = 1 THEN s ELSE RSub(RMul(RMul(2, s), Cheb(n - 1, s)), Cheb(n - 2, s))
\* radial functions: b = [centers, scales] per degree, joint: the radius over all centers together
Radius(b, k, s, joint) == IF joint THEN RSqrt(VSum([i \in 1..Len(b.centers) |-> RPow(RSub(s, b.centers[i]), 2)]), GB) ELSE RAbs(RSub(s, b.centers[k]))
Gauss(b, k, n, s, joint) == RExp(RNeg(RPow(RMul(Radius(b, k, s, joint), RDiv(RSub(n, b.centers[k]), b.scales[k])), 2)), GB)
Vanilla(b, k, n, s, joint) == RMul(Radius(b, k, s, joint), RDiv(n, b.scales[k]))
Multiquad(b, k, n, s, joint) == RAdd(1, RSqrt(RAdd(1, RPow(Vanilla(b, k, n, s, joint), 2)), GB))
\* value of every basis function at s, [function][degree]; ns: the grid; den: common denominator of the grid (for powers)
IntOf(n, den) == RFloor(RMul(n, den))
Basis(b, ns, den, s, joint) ==
  LET D == 1..Len(ns) IN
  CASE b.name = "Fourier" -> <<[k \in D |-> RCos(RMul(s, ns[k]), GB)], [k \in D |-> RSin(RMul(s, ns[k]), GB)]>>
    [] b.name = "Polynomial" -> <<[k \in D |-> RatPow(s, IntOf(ns[k], den), den)]>>
    [] b.name = "Chebychev" -> <<[k \in D |-> Cheb(k - 1, s)]>>
    [] b.name = "GaussianRBF" -> <<[k \in D |-> Gauss(b, k, ns[k], s, joint)]>>
    [] b.name = "VanillaRBF" -> <<[k \in D |-> Vanilla(b, k, ns[k], s, joint)]>>
    [] b.name = "MultiquadRBF" -> <<[k \in D |-> Multiquad(b, k, ns[k], s, joint)]>>
\* one expanded entry
Entry(c, bs) == VSum([d \in 1..Len(bs[1]) |-> VSum([e \in 1..Len(bs) |-> RMul(c[d][e], bs[e][d])])])
EntrySize(c, bs) == VSum([d \in 1..Len(bs[1]) |-> VSum([e \in 1..Len(bs) |-> RAbs(RMul(c[d][e], bs[e][d]))])])
\* rows
LinRow(j, i, ni) == (j - 1) * ni + i
ConvRow(o, c, u, v, nc, ks) == (((o - 1) * nc + c - 1) * ks + u - 1) * ks + v
BiasRow(j, nw) == nw + j
Linear(w, b, x, ni) == [j \in 1..Len(b) |-> RAdd(b[j], VSum([i \in 1..ni |-> RMul(w[LinRow(j, i, ni)], x[i])]))]
\* convolution of x[channel][row][column] with zero padding
At(x, c, u, v) == IF u \in 1..Len(x[c]) /\ v \in 1..Len(x[c][1]) THEN x[c][u][v] ELSE "0"
ConvOut(n, ks, pad, stride) == (n + 2 * pad - ks) \div stride + 1
Conv(w, b, x, g) ==
  LET H == ConvOut(Len(x[1]), g.ks, g.pad, g.stride) W == ConvOut(Len(x[1][1]), g.ks, g.pad, g.stride) IN
  [o \in 1..Len(b) |-> [p \in 1..H |-> [q \in 1..W |->
    RAdd(b[o], VSum([m \in 1..(Len(x) * g.ks * g.ks) |->
      LET c == (m - 1) \div (g.ks * g.ks) + 1 u == (((m - 1) \div g.ks) % g.ks) + 1 v == ((m - 1) % g.ks) + 1 IN
      RMul(w[ConvRow(o, c, u, v, Len(x), g.ks)], At(x, c, (p - 1) * g.stride + u - g.pad, (q - 1) * g.stride + v - g.pad))]))]]]
=============================================================================
