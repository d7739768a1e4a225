----------------------------- MODULE SDESchemes -----------------------------
(* One step of each scheme for dX = f(t,X) dt + g(t,X) dW, entry by entry (diagonal noise), from (t, x) over h with
   the noise increment dw.  The derivative-free Milstein schemes use the support x + f h + g sqrt(h). *)
EXTENDS Poly
Bits == 70
EulerMaruyama(f, g, t, x, h, dw) == VAdd(x, VAdd(VScale(h, MapVal(f, t, x)), VMul(MapVal(g, t, x), dw)))
EulerHeun(f, g, t, x, h, dw) ==
  LET gx == MapVal(g, t, x)
      gp == MapVal(g, RAdd(t, h), VAdd(x, VMul(gx, dw)))
  IN VAdd(x, VAdd(VScale(h, MapVal(f, t, x)), VMul(VScale("1/2", VAdd(gx, gp)), dw)))
Milstein(f, g, t, x, h, dw, ito) ==
  LET fx == MapVal(f, t, x)  gx == MapVal(g, t, x)  q == RSqrt(h, Bits)
      gp == MapVal(g, t, VAdd(x, VAdd(VScale(h, fx), VScale(q, gx))))
      v == [i \in 1..Len(x) |-> IF ito THEN RSub(RMul(dw[i], dw[i]), h) ELSE RMul(dw[i], dw[i])]
  IN VAdd(x, VAdd(VAdd(VScale(h, fx), VMul(gx, dw)), VMul(VScale(RDiv(1, RMul(2, q)), VSub(gp, gx)), v)))
SStep(scheme, f, g, t, x, h, dw) ==
  CASE scheme = "euler" -> EulerMaruyama(f, g, t, x, h, dw)
    [] scheme = "heun" -> EulerHeun(f, g, t, x, h, dw)
    [] scheme = "milito" -> Milstein(f, g, t, x, h, dw, TRUE)
    [] scheme = "milstr" -> Milstein(f, g, t, x, h, dw, FALSE)
\* the calculus each scheme integrates, and the noise it takes
Calculus(scheme) == IF scheme \in {"euler", "milito"} THEN "ito" ELSE "stratonovich"
Noises == {"general", "diagonal", "scalar", "additive"}
Accepts(scheme, sde, noise) == sde = Calculus(scheme) /\ noise \in Noises
=============================================================================
