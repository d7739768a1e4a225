------------------------------ MODULE SensTrace ------------------------------
(* Judges recorded solves and gradients (C09, C10).  A run: a triangular map f (its first d coordinates in the hidden coordinates y = Ainv x; with an integral loss
   coordinate d+1 is its rate), A, Ainv, t0, ts (times read by the loss), xs (rows of initial states), w[k][b] (weights of the state of row b at ts[k]), kappa (weight of the
   integral up to the last time read, the one at position last), groups (the entries <<i, q, s>> of a parameter: the coefficient q of f[i] is s times it),
   first (the position in ts of the start of the span, 0 when it is not read), tw (weights of the returned times themselves, start included at first),
   vs: variants of the same solve [name, tol, sol (sol[k][b]), lead (lead[k][b] growth of the leading coordinate, or <<>>), gx, gc, gt, zero]; gt is <<>> or the gradient
   in the start of the span, in each of ts and then in all its other points.
   same (the states of all variants have to be bit-identical). *)
EXTENDS Sens, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, v, truth, verdict
vars == <<r, v, truth, verdict>>
R == Runs[r]
V == R.vs[v]
N == Len(R.f)
K == Len(R.ts)
T(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
AbsM(M) == [i \in 1..Len(M) |-> AbsV(M[i])]
Pad(y) == IF N > R.d THEN Append(y, "0") ELSE y
\* everything the exact solution says about row b; with abs, the same with all quantities replaced by their sizes
Row(b, abs) ==
  LET f == IF abs THEN AbsMap(R.f) ELSE R.f
      AA == IF abs THEN AbsM(R.A) ELSE R.A
      AI == IF abs THEN AbsM(R.Ainv) ELSE R.Ainv
      t0 == IF abs THEN RAbs(R.t0) ELSE R.t0
      s == [k \in 1..K |-> LET e == RSub(R.ts[k], R.t0) IN IF abs THEN RAbs(e) ELSE e]
      y0 == Pad(MatVec(AI, IF abs THEN AbsV(R.xs[b]) ELSE R.xs[b]))
      w == [k \in 1..K |-> LET u == MatVec(T(AA), IF abs THEN AbsV(R.w[k][b]) ELSE R.w[k][b]) IN IF N > R.d THEN Append(u, IF k = R.last THEN R.kappa ELSE "0") ELSE u]
      ys == Flow(f, t0, y0)
      J == JacAlong(f, ys, t0)
      Total(z) == VSum([k \in 1..K |-> VDot(w[k], At(z, s[k]))])
      at == [k \in 1..K |-> At(ys, s[k])]
      gyi == [k \in 1..N |-> Total(DState(f, J, k))]
      gy == SubSeq(gyi, 1, R.d)
      \* a state read later lies further along the field; a later start moves the solution against it
      later == [k \in 1..K |-> VDot(w[k], MapVal(f, RAdd(t0, s[k]), at[k]))]
      start == VDot(gyi, MapVal(f, t0, y0))
      c(g) == VSum([j \in 1..Len(g) |-> RMul(IF abs THEN RAbs(g[j].s) ELSE g[j].s, Total(DCoef(f, J, ys, t0, g[j].i, g[j].q)))])
  IN [x |-> [k \in 1..K |-> MatVec(AA, SubSeq(at[k], 1, R.d))], lead |-> [k \in 1..K |-> IF N > R.d THEN at[k][N] ELSE "0"], later |-> later, start |-> start, gx |-> MatVec(T(AI), gy), gc |-> [g \in 1..Len(R.groups) |-> c(R.groups[g])]]
B == Len(R.xs)
Truth == LET rows == [b \in 1..B |-> Row(b, FALSE)] sizes == [b \in 1..B |-> Row(b, TRUE)]
             sumc(q) == [g \in 1..Len(R.groups) |-> VSum([b \in 1..B |-> q[b].gc[g]])]
             later(q, k) == VSum([b \in 1..B |-> q[b].later[k]])
             start(q) == VSum([b \in 1..B |-> q[b].start])
             read(k) == RAdd(R.tw[k], later(rows, k))
             begin == RSub(IF R.first > 0 THEN read(R.first) ELSE "0", start(rows))
         IN [rows |-> rows, sizes |-> sizes, gc |-> sumc(rows), sc |-> sumc(sizes), gt |-> <<begin>> \o [k \in 1..K |-> IF k = R.first THEN begin ELSE read(k)],
             st |-> RAdd(start(sizes), RAdd(VSum([k \in 1..K |-> later(sizes, k)]), VSum([k \in 1..K |-> RAbs(R.tw[k])])))]
Tol(size) == RMul(V.tol, RAdd("1/4", size))
Ok(a, b, size) == Near(a, b, Tol(size))
OkV(a, b, size) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Ok(a[i], b[i], size[i])
Clause ==
  CASE V.sol # <<>> /\ \E k \in 1..K : \E b \in 1..B : ~OkV(V.sol[k][b], truth.rows[b].x[k], truth.sizes[b].x[k]) -> "the states of the solve"
    [] R.same /\ V.sol # R.vs[1].sol -> "the states depend on the sensitivity method"
    [] V.lead # <<>> /\ \E k \in 1..K : \E b \in 1..B : ~Ok(V.lead[k][b], truth.rows[b].lead[k], truth.sizes[b].lead[k]) -> "the integral along the trajectory"
    [] V.gx # <<>> /\ \E b \in 1..B : ~OkV(V.gx[b], truth.rows[b].gx, truth.sizes[b].gx) -> "the gradient in the initial state"
    [] ~OkV(V.gc, truth.gc, truth.sc) -> "the gradient in the parameters"
    [] \E i \in 1..Len(V.gt) : ~Ok(V.gt[i], IF i <= K + 1 THEN truth.gt[i] ELSE "0", truth.st) -> "the gradient in the times"
    [] \E i \in 1..Len(V.zero) : V.zero[i] # "0" -> "the gradient in an unused parameter"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ v = 0 /\ truth = <<>> /\ verdict = ""
Solve == verdict = "" /\ v = 0 /\ truth' = Truth /\ v' = 1 /\ UNCHANGED <<r, verdict>>
Judge == verdict = "" /\ v > 0 /\ v <= Len(R.vs) /\ (LET c == Clause IN verdict' = (IF c = "" THEN "" ELSE V.name \o ": " \o c) /\ v' = v + 1) /\ UNCHANGED <<r, truth>>
End == verdict = "" /\ v > Len(R.vs) /\ verdict' = "ok" /\ truth' = <<>> /\ UNCHANGED <<r, v>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, v>>) /\ verdict' = "reported" /\ truth' = <<>> /\ UNCHANGED <<r, v>>
Next == Solve \/ Judge \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
