------------------------------ MODULE CNFTrace ------------------------------
(* Judges recorded histories of a normalizing flow (C13).  A run: f, hutch, eps, ev: a sequence of
     [ev |-> "solve", n]            a solve of n samples starts
     [ev |-> "draw", e]             noise vectors drawn, one per row
     [ev |-> "eval", t, x, y, w, gx, gc]   an evaluation: rows of states and fields, and (or <<>>) the gradient of sum w . y in x and in the coefficients. *)
EXTENDS CNF, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, n, noise, verdict
vars == <<r, k, n, noise, verdict>>
R == Runs[r]
V == R.ev[k]
D == Len(R.f)
Kt == RMul(300, R.eps)
E(b) == IF R.hutch THEN noise[b] ELSE <<>>
Data(x) == Tail(x)
F(b) == Field(R.f, E(b))
Tol(size) == [i \in 1..Len(size) |-> RMul(Kt, RAdd("1/1000", size[i]))]
RowOK(b) == NearV(V.y[b], MapVal(F(b), V.t, Data(V.x[b])), Tol(MapVal(AbsMap(F(b)), RAbs(V.t), AbsV(Data(V.x[b])))))
GradOK(b) == V.gx = <<>> \/ NearV(V.gx[b], <<"0">> \o VecMat(V.w[b], Jac(F(b), D, V.t, Data(V.x[b]))), <<"0">> \o Tol(VecMat(AbsV(V.w[b]), Jac(AbsMap(F(b)), D, RAbs(V.t), AbsV(Data(V.x[b]))))))
\* coefficient q of f[i]: the field of the map that has this monomial alone, with coefficient one
Alone(i, q) == [j \in 1..D |-> IF j = i THEN <<[R.f[i][q] EXCEPT !.c = "1"]>> ELSE <<>>]
Part(i, q, b, abs) == LET G == Field(Alone(i, q), E(b)) x == Data(V.x[b]) IN
  IF abs THEN VDot(AbsV(V.w[b]), MapVal(AbsMap(G), RAbs(V.t), AbsV(x))) ELSE VDot(V.w[b], MapVal(G, V.t, x))
CoefOK == V.gc = <<>> \/ \A i \in 1..D : \A q \in 1..Len(R.f[i]) :
  Near(V.gc[i][q], VSum([b \in 1..Len(V.x) |-> Part(i, q, b, FALSE)]), RMul(Kt, RAdd("1/1000", VSum([b \in 1..Len(V.x) |-> Part(i, q, b, TRUE)]))))
EvalClause ==
  CASE R.hutch /\ noise = <<>> -> "an evaluation before the noise is drawn"
    [] R.hutch /\ Len(noise) # Len(V.x) -> "not one noise vector per sample"
    [] n > 0 /\ Len(V.x) # n -> "the batch of an evaluation"
    [] Len(V.y) # Len(V.x) -> "the number of rows"
    [] ~\A b \in 1..Len(V.x) : RowOK(b) -> "the field of the flow"
    [] ~\A b \in 1..Len(V.x) : GradOK(b) -> "the gradient in the state"
    [] ~CoefOK -> "the gradient in the parameters"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ k = 1 /\ n = 0 /\ noise = <<>> /\ verdict = ""
More == verdict = "" /\ k <= Len(R.ev) /\ UNCHANGED r
Start == More /\ V.ev = "solve" /\ n' = V.n /\ noise' = <<>> /\ k' = k + 1 /\ UNCHANGED verdict
Draw == More /\ V.ev = "draw" /\ (IF R.hutch /\ noise # <<>> THEN verdict' = "the noise is drawn again within a solve" /\ UNCHANGED <<noise, k>>
                                  ELSE noise' = V.e /\ k' = k + 1 /\ UNCHANGED verdict) /\ UNCHANGED n
Eval == More /\ V.ev = "eval" /\ (LET c == EvalClause IN verdict' = c /\ k' = IF c = "" THEN k + 1 ELSE k) /\ UNCHANGED <<n, noise>>
End == verdict = "" /\ k > Len(R.ev) /\ verdict' = "ok" /\ UNCHANGED <<r, k, n, noise>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k, n, noise>>
Next == Start \/ Draw \/ Eval \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
