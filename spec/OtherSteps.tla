----------------------------- MODULE OtherSteps -----------------------------
(* Defining equations of the remaining steppers, for polynomial fields. *)
EXTENDS Poly
\* hypersolver of order p: base step plus h^(p+1) times the correction at the start of the step
HyperStep(base, net, p, t, x, h) == VAdd(base, VScale(RPow(h, p + 1), MapVal(net, t, x)))
\* asynchronous leapfrog on (position, velocity)
Alf(f, t, x, v, h) ==
  LET xm == VAdd(x, VScale(RMul("1/2", h), v))
      vm == MapVal(f, RAdd(t, RMul("1/2", h)), xm)
      v1 == VSub(VScale(2, vm), v)
  IN [x |-> VAdd(xm, VScale(RMul("1/2", h), v1)), v |-> v1]
\* implicit Euler: what has to vanish
ImplicitResidual(f, t, x, y, h) == VSub(VSub(y, x), VScale(h, MapVal(f, RAdd(t, h), y)))
\* explicit Runge-Kutta steps
Euler(f, t, x, h) == VAdd(x, VScale(h, MapVal(f, t, x)))
Midpoint(f, t, x, h) == LET k == MapVal(f, t, x) IN VAdd(x, VScale(h, MapVal(f, RAdd(t, RMul("1/2", h)), VAdd(x, VScale(RMul("1/2", h), k)))))
RK4(f, t, x, h) ==
  LET hh == RMul("1/2", h) tm == RAdd(t, hh)
      k1 == MapVal(f, t, x) k2 == MapVal(f, tm, VAdd(x, VScale(hh, k1))) k3 == MapVal(f, tm, VAdd(x, VScale(hh, k2)))
      k4 == MapVal(f, RAdd(t, h), VAdd(x, VScale(h, k3)))
  IN VAdd(x, VScale(RDiv(h, 6), VAdd(VAdd(k1, k4), VScale(2, VAdd(k2, k3)))))
Base(p, f, t, x, h) == CASE p = 1 -> Euler(f, t, x, h) [] p = 2 -> Midpoint(f, t, x, h) [] p = 4 -> RK4(f, t, x, h)
=============================================================================
