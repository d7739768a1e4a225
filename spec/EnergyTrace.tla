---------------------------- MODULE EnergyTrace ----------------------------
(* Judges recorded fields of the energy-based models (C14).  A run: model, d, H (polynomial), M (matrix of polynomials, for the skew model), eps,
   samples: x, f (the field there), gx (the gradient of sum w . f in x), w; gc: the gradient in every coefficient of H. *)
EXTENDS Energy, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, signs, verdict
vars == <<r, k, signs, verdict>>
R == Runs[r]
D == R.d
Nh == D \div 2
S == R.samples[k]
\* everything below for a given H, so that sizes come from the same formulas with absolute values
Map(H) == IF R.model = "HNN" THEN HamField(H, D) ELSE GradField(H, D)
Plus(p) == [i \in 1..Len(p) |-> [p[i] EXCEPT !.c = RAbs(@)]]
AbsM(M) == [i \in 1..D |-> [j \in 1..D |-> Plus(M[i][j])]]
SumM(M) == [i \in 1..D |-> [j \in 1..D |-> Plus(M[i][j]) \o Plus(M[j][i])]]
\* skew model, with the matrix polynomial Q given
Apply(Q, H, x) == LET g == MapVal(Grad(H, D), 0, x) IN [i \in 1..D |-> VSum([j \in 1..D |-> RMul(PVal(Q[i][j], 0, x), g[j])])]
ApplyGrad(Q, H, x, w) == LET g == MapVal(Grad(H, D), 0, x) hs == Jac(Grad(H, D), D, 0, x) IN
  [m \in 1..D |-> VSum([i \in 1..D |-> RMul(w[i], VSum([j \in 1..D |-> RAdd(RMul(PVal(PDiff(Q[i][j], m), 0, x), g[j]), RMul(PVal(Q[i][j], 0, x), hs[j][m]))]))])]
\* Lagrangian: w . qdd has the gradient  lambda . (d force - d mass qdd),  lambda = mass^-1 w
LagDer(L, x, lam, qdd, m) ==
  VSum([i \in 1..Nh |-> RMul(lam[i], RSub(RSub(PVal(PD2(L, i, m), 0, x),
      RAdd(VSum([j \in 1..Nh |-> RMul(PVal(PDiff(PD2(L, Nh + i, j), m), 0, x), x[Nh + j])]), IF m > Nh THEN PVal(PD2(L, Nh + i, m - Nh), 0, x) ELSE "0")),
      VSum([j \in 1..Nh |-> RMul(PVal(PDiff(PD2(L, Nh + i, Nh + j), m), 0, x), qdd[j])])))])
LagDerC(L, x, lam, qdd) == VSum([i \in 1..Nh |-> RMul(lam[i], RSub(LForce(L, D, x)[i], VSum([j \in 1..Nh |-> RMul(PVal(PD2(L, Nh + i, Nh + j), 0, x), qdd[j])])))])
RowMax(J) == VMaxAbs([i \in 1..Len(J) |-> VSum(AbsV(J[i]))])
Mass == LMass(R.H, D, S.x)
MassInv == Inverse(Mass)
One(q) == <<[q EXCEPT !.c = "1"]>>
\* sizes of the Lagrangian model
LSize == LET A == Plus(R.H) y == AbsV(S.x) n == VMaxAbs(S.f) IN
         RMul(RAdd(1, n), VMaxAbs([i \in 1..D |-> RAdd(PVal(PDiff(A, i), 0, y), VSum([j \in 1..D |-> RMul(PVal(PD2(A, i, j), 0, y), RAdd(1, RAbs(S.x[j])))]))]))
LSize3 == LET A == Plus(R.H) y == AbsV(S.x) IN
         RAdd(LSize, RMul(RMul(RAdd(1, VMaxAbs(S.f)), RAdd(1, VMaxAbs(S.x))), VSum([i \in 1..D |-> VSum([j \in 1..D |-> VSum([m \in 1..D |-> PVal(PDiff(PD2(A, i, j), m), 0, y)])])])))
K == RMul(400, R.eps)
Tol(size) == [i \in 1..Len(size) |-> RMul(K, RAdd("1/1000", size[i]))]
LagTol == RMul(RMul(K, 10), RMul(LSize, RMul(RAdd(1, RowMax(MassInv)), RAdd(1, RowMax(MassInv)))))
FieldOK(sign) ==
  CASE R.model \in {"HNN", "GNF"} -> NearV(S.f, MapVal(Map(R.H), 0, S.x), Tol(MapVal(AbsMap(Map(R.H)), 0, AbsV(S.x))))
    [] R.model = "SNF" -> NearV(S.f, VScale(sign, SkewField(R.H, R.M, D, S.x)), Tol(Apply(SumM(R.M), Plus(R.H), AbsV(S.x))))
    [] R.model = "LNN" -> NearV(S.f, LagField(R.H, D, S.x), [i \in 1..D |-> IF i <= Nh THEN "0" ELSE LagTol])
W == IF R.model = "LNN" THEN [i \in 1..Nh |-> S.w[Nh + i]] ELSE S.w
Lam == MatVec(MassInv, W)
Qdd == [i \in 1..Nh |-> LagField(R.H, D, S.x)[Nh + i]]
GradXOK(sign) ==
  CASE R.model \in {"HNN", "GNF"} -> NearV(S.gx, VecMat(S.w, Jac(Map(R.H), D, 0, S.x)), Tol(VecMat(AbsV(S.w), Jac(AbsMap(Map(R.H)), D, 0, AbsV(S.x)))))
    [] R.model = "SNF" -> NearV(S.gx, VScale(sign, ApplyGrad(Skew(R.M, D), R.H, S.x, S.w)), Tol(ApplyGrad(SumM(R.M), Plus(R.H), AbsV(S.x), AbsV(S.w))))
    [] R.model = "LNN" -> NearV(S.gx, [m \in 1..D |-> RAdd(LagDer(R.H, S.x, Lam, Qdd, m), IF m > Nh THEN S.w[m - Nh] ELSE "0")],
                                [m \in 1..D |-> RMul(RMul(LagTol, 20), RMul(RAdd(1, LSize3), RMul(RAdd(1, VMaxAbs(S.w)), RAdd(1, RowMax(MassInv)))))])
\* gradient in the coefficients: the contribution of one sample to coefficient m
Con(H, s, m, sign) ==
  LET q == One(H[m]) IN
  CASE R.model \in {"HNN", "GNF"} -> VDot(s.w, MapVal(Map(q), 0, s.x))
    [] R.model = "SNF" -> RMul(sign, VDot(s.w, Apply(Skew(R.M, D), q, s.x)))
    [] R.model = "LNN" -> LET mi == Inverse(LMass(H, D, s.x)) lf == LagField(H, D, s.x) IN
         LagDerC(q, s.x, MatVec(mi, [i \in 1..Nh |-> s.w[Nh + i]]), [i \in 1..Nh |-> lf[Nh + i]])
ConSize(H, s, m) ==
  LET q == One(H[m]) IN
  CASE R.model \in {"HNN", "GNF"} -> VDot(AbsV(s.w), MapVal(AbsMap(Map(q)), 0, AbsV(s.x)))
    [] R.model = "SNF" -> VDot(AbsV(s.w), Apply(SumM(R.M), q, AbsV(s.x)))
    [] R.model = "LNN" -> LET mi == RAdd(1, RowMax(Inverse(LMass(H, D, s.x)))) IN
         RMul(RMul(2000, RAdd(1, VMaxAbs(s.w))), RMul(RAdd(1, RPow(RAdd(1, VMaxAbs(s.f)), 2)), RMul(RPow(RAdd(1, VMaxAbs(s.x)), 4), RPow(mi, 3))))
GradCOK(sign) == R.gc = <<>> \/ (Len(R.gc) = Len(R.H) /\ \A m \in 1..Len(R.H) : LET v == VSum([s \in 1..Len(R.samples) |-> Con(R.H, R.samples[s], m, sign)]) z == VSum([s \in 1..Len(R.samples) |-> ConSize(R.H, R.samples[s], m)]) IN
       RFin(R.gc[m]) /\ RLe(RAbs(RSub(R.gc[m], v)), RMul(K, RAdd("1/1000", z))))
\* which sign of the skew matrix is meant is not said; it must be the same everywhere
Init == r \in 1..Len(Runs) /\ k = 1 /\ verdict = "" /\ signs = (IF Runs[r].model = "SNF" THEN {1, -1} ELSE {1})
Sample == /\ verdict = "" /\ k <= Len(R.samples) /\ UNCHANGED r
          /\ LET f == {s \in signs : FieldOK(s)} g == {s \in f : S.gx = <<>> \/ GradXOK(s)} IN
             /\ verdict' = (IF f = {} THEN "the field of the energy" ELSE IF g = {} THEN "the gradient in the state" ELSE "")
             /\ signs' = g /\ k' = IF g # {} THEN k + 1 ELSE k
End == /\ verdict = "" /\ k > Len(R.samples) /\ UNCHANGED <<r, k, signs>>
       /\ verdict' = IF \E s \in signs : GradCOK(s) THEN "ok" ELSE "the gradient in the parameters"
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k, signs>>
Next == Sample \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
