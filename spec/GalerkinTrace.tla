--------------------------- MODULE GalerkinTrace ---------------------------
(* Judges recorded calls of Galerkin layers and basis modules (C15).  A run: kind, b (basis: name, centers, scales), deg or ns and den, coeffs,
   hasbias, dil, shift, eps, calls (t, x, y with the inputs and outputs of a batch, without the depth), ni, no / g (convolution). *)
EXTENDS Galerkin, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, verdict
vars == <<r, k, verdict>>
R == Runs[r]
C == R.calls[k]
Ns == IF R.kind = "basis" THEN R.ns ELSE Grid(R.deg)
Den == IF R.kind = "basis" THEN R.den ELSE IF R.deg = 1 THEN 1 ELSE R.deg - 1
Sv == RAdd(RMul(R.dil, C.t), R.shift)
\* sensitivity of the basis to rounding of its argument and grid
NMax == VMaxAbs(Ns)
ArgErr == RMul(R.eps, RMul(60, RAdd(1, RMul(RAdd(1, NMax), RAdd(1, RAdd(RAbs(RMul(R.dil, C.t)), RAbs(R.shift)))))))
SizeB(bs) == [e \in 1..Len(bs) |-> [d \in 1..Len(bs[e]) |-> RAdd(1, RAbs(bs[e][d]))]]
\* Chebychev polynomials and squares in radial functions amplify rounding of the argument
Amp == IF R.b.name = "Chebychev" THEN RMul(8, RPow(RAdd(1, RMul(2, RAbs(Sv))), Len(Ns))) ELSE IF R.b.name \in {"GaussianRBF", "MultiquadRBF"} THEN RMul(4, RPow(RMul(RAdd(2, NMax), RAdd(2, RAbs(Sv))), 2)) ELSE "4"
CloseT(a, b, tol) == RFin(a) /\ RLe(RAbs(RSub(a, b)), tol)
Close(a, b, size) == CloseT(a, b, RMul(RMul(ArgErr, Amp), size))
Rows(bs, n) == [m \in 1..n |-> Entry(R.coeffs[m], bs)]
RowSizes(bs, n) == [m \in 1..n |-> EntrySize(R.coeffs[m], SizeB(bs))]
BasisOK(j) == LET bs == Basis(R.b, Ns, Den, Sv, j) IN Len(C.y) = Len(bs) /\ \A e \in 1..Len(bs) : Len(C.y[e]) = Len(bs[e]) /\ \A d \in 1..Len(bs[e]) : Close(C.y[e][d], bs[e][d], SizeB(bs)[e][d])
NW == IF R.kind = "linear" THEN R.ni * R.no ELSE R.ni * R.no * R.g.ks * R.g.ks
Bias(w) == [j \in 1..R.no |-> IF R.hasbias THEN w[BiasRow(j, NW)] ELSE "0"]
AbsV(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
LinearOK(j) ==
  LET bs == Basis(R.b, Ns, Den, Sv, j) n == NW + (IF R.hasbias THEN R.no ELSE 0) w == Rows(bs, n) sz == RowSizes(bs, n) IN
  \A s \in 1..Len(C.x) : LET y == Linear(w, Bias(w), C.x[s], R.ni) q == Linear(sz, Bias(sz), AbsV(C.x[s]), R.ni) IN
     Len(C.y[s]) = R.no /\ \A o \in 1..R.no : Close(C.y[s][o], y[o], q[o])
AbsIm(x) == [c \in 1..Len(x) |-> [u \in 1..Len(x[c]) |-> AbsV(x[c][u])]]
ConvOK(j) ==
  LET bs == Basis(R.b, Ns, Den, Sv, j) n == NW + (IF R.hasbias THEN R.no ELSE 0) w == Rows(bs, n) sz == RowSizes(bs, n) IN
  \A s \in 1..Len(C.x) : LET y == Conv(w, Bias(w), C.x[s], R.g) q == Conv(sz, Bias(sz), AbsIm(C.x[s]), R.g) IN
     /\ Len(C.y[s]) = R.no
     /\ \A o \in 1..R.no : Len(C.y[s][o]) = Len(y[o]) /\ \A u \in 1..Len(y[o]) : Len(C.y[s][o][u]) = Len(y[o][u]) /\ \A v \in 1..Len(y[o][u]) : Close(C.y[s][o][u][v], y[o][u][v], q[o][u][v])
OK(j) == CASE R.kind = "basis" -> BasisOK(j) [] R.kind = "linear" -> LinearOK(j) [] R.kind = "conv" -> ConvOK(j)
\* centers given one per degree: the documentation leaves open whether the radius is taken per degree or over all of them
Open == Len(R.b.centers) > 1 /\ R.adaptive
Init == r \in 1..Len(Runs) /\ k = 1 /\ verdict = ""
Call == /\ verdict = "" /\ k <= Len(R.calls) /\ UNCHANGED r
        /\ IF OK(FALSE) \/ (Open /\ OK(TRUE)) THEN k' = k + 1 /\ UNCHANGED verdict
           ELSE verdict' = (CASE R.kind = "basis" -> "the basis functions" [] R.kind = "linear" -> "the linear map of the expanded weights" [] OTHER -> "the convolution with the expanded weights") /\ UNCHANGED k
End == verdict = "" /\ k > Len(R.calls) /\ verdict' = "ok" /\ UNCHANGED <<r, k>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k>>
Next == Call \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
