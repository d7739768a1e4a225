------------------------------ MODULE Systems ------------------------------
(* The benchmark systems: vector fields of a time and one state (a sequence of numbers), with their parameters p. *)
EXTENDS Rat, Integers, Sequences
SB == 90
Lorenz(x) == <<RMul(10, RSub(x[2], x[1])), RSub(RMul(x[1], RSub(28, x[3])), x[2]), RSub(RMul(x[1], x[2]), RMul("8/3", x[3]))>>
VanDerPol(a, x) == <<x[2], RSub(RMul(RMul(a, RSub(1, RPow(x[1], 2))), x[2]), x[1])>>
RabFab(x) == <<RAdd(RMul(x[2], RAdd(RSub(x[3], 1), RPow(x[1], 2))), RMul("87/100", x[1])),
               RAdd(RMul(x[1], RSub(RAdd(RMul(3, x[3]), 1), RPow(x[1], 2))), RMul("87/100", x[2])),
               RMul(RMul(-2, x[3]), RAdd("11/10", RMul(x[1], x[2])))>>
Sine(t, x) == [i \in 1..Len(x) |-> RSin(t, SB)]
Scaled(c, x) == VScale(c, x)
Affine(p, x) == [i \in 1..Len(p.w) |-> RAdd(p.b[i], VDot(p.w[i], x))]
\* amplitudes, phases and frequencies are given per coordinate as two sequences, one per harmonic of each of the two banks
Wave(b, t) == VSum([h \in 1..Len(b.a) |-> RMul(b.a[h], RCos(RAdd(RMul(b.w[h], t), b.phi[h]), SB))])
Fourier(p, t) == [i \in 1..Len(p) |-> RAdd(Wave(p[i][1], t), Wave(p[i][2], t))]
Tanh(z) == LET e == RExp(RMul(-2, RAbs(z)), SB) v == RRound(RDiv(RSub(1, e), RAdd(1, e)), SB) IN IF RLt(z, 0) THEN RNeg(v) ELSE v
VTanh(v) == [i \in 1..Len(v) |-> Tanh(v[i])]
RECURSIVE Net(_, _, _)
Net(ls, x, bounded) == LET y == VRound(Affine(ls[1], x), SB) IN
  IF Len(ls) = 1 THEN (IF bounded THEN VTanh(y) ELSE y) ELSE Net(Tail(ls), VTanh(y), bounded)
Field(name, p, t, x) ==
  CASE name = "Lorenz" -> Lorenz(x)
    [] name = "VanDerPol" -> VanDerPol(p.alpha, x)
    [] name = "ODEProblem2" -> Scaled("1/2", x)
    [] name = "ODEProblem3" -> Scaled("-1/10", x)
    [] name = "ODEProblem4" -> RabFab(x)
    [] name = "SineSystem" -> Sine(t, x)
    [] name = "LTISystem" -> Affine(p.lin, x)
    [] name \in {"FourierSystem", "StiffFourierSystem"} -> Fourier(p.banks, t)
    [] name = "CoupledFourierSystem" -> Affine(p.lin, Fourier(p.banks, t))
    [] name = "MatMulSystem" -> Net(p.layers, x, FALSE)
    [] name = "MatMulBoundedSystem" -> Net(p.layers, x, TRUE)
Forced(name) == name \in {"FourierSystem", "StiffFourierSystem", "CoupledFourierSystem"}   \* a function of time alone
=============================================================================
