------------------------------ MODULE EnergyMC ------------------------------
(* All energies with small coefficients on a plane, all small points: the Hamiltonian and the skew field move along level sets, the gradient field
   downhill, the Lagrangian field keeps the Lagrangian's energy.  For quadratic energies the implicit midpoint rule, exact in rationals, walks along the
   fields: it keeps the energy of the first two at every step and never raises it under the third. *)
EXTENDS Energy, TLC
CONSTANTS Cs, Steps
VARIABLES H, quad, kind, x, k
vars == <<H, quad, kind, x, k>>
Mon(c, a, b) == [c |-> c, m |-> 0, e |-> <<a, b>>]
Quads == {<<Mon(a, 2, 0), Mon(b, 1, 1), Mon(c, 0, 2)>> : a, b, c \in Cs}
Cubic == {<<Mon(a, 2, 1), Mon(b, 1, 2), Mon(c, 0, 2), Mon("1", 3, 0), Mon("1", 1, 0)>> : a, b, c \in Cs}
M == <<<<<<Mon("1", 1, 0)>>, <<Mon("2", 0, 0), Mon("1", 0, 1)>>>>, <<<<Mon("1", 1, 1)>>, <<Mon("3", 0, 0)>>>>>>
Init == /\ \/ H \in Quads /\ quad = TRUE
           \/ H \in Cubic /\ quad = FALSE
        /\ kind \in {"ham", "skew", "grad", "lag"} /\ x \in {<<a, b>> : a, b \in {"-1", "0", "1/2", "2"}} /\ k = 0
Lag == kind = "lag"
Regular == ~Lag \/ ~REq(Det(LMass(H, 2, x)), 0)
Field == CASE kind = "ham" -> MapVal(HamField(H, 2), 0, x) [] kind = "grad" -> MapVal(GradField(H, 2), 0, x) [] kind = "skew" -> SkewField(H, M, 2, x) [] Lag -> LagField(H, 2, x)
G == MapVal(Grad(H, 2), 0, x)
Along == ~Regular \/ CASE kind \in {"ham", "skew"} -> VDot(G, Field) = "0"
                     [] kind = "grad" -> RLe(VDot(G, Field), 0) /\ (VDot(G, Field) = "0" => G = <<"0", "0">>)
                     [] Lag -> VDot(LEnergyGrad(H, 2, x), Field) = "0"
\* implicit midpoint step of length 1 for a linear field
A == Jac(IF kind = "ham" THEN HamField(H, 2) ELSE GradField(H, 2), 2, 0, x)
Eye(s) == [i \in 1..2 |-> [j \in 1..2 |-> RAdd(IF i = j THEN "1" ELSE "0", RMul(s, A[i][j]))]]
Mid == quad /\ kind \in {"ham", "grad"} /\ k < Steps /\ ~REq(Det(Eye("-1/2")), 0) /\ x' = MatVec(Inverse(Eye("-1/2")), MatVec(Eye("1/2"), x)) /\ k' = k + 1 /\ UNCHANGED <<H, quad, kind>>
Spec == Init /\ [][Mid]_vars
E(y) == PVal(H, 0, y)
Kept == [][IF kind = "ham" THEN E(x') = E(x) ELSE RLe(E(x'), E(x))]_vars
=============================================================================
