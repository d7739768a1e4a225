--------------------------- MODULE PararealTrace ---------------------------
(* Judges recorded parallel-in-time solves (C08).  A run: f, rule, fine, coarse (orders), subs (fine intervals per interval), h
   (length of an interval), x0, guess (<<>> or the points given), init (the points used without rounds when no guess is given: the coarse
   solution on the grid), iters (results for 0, 1, 2, ... rounds asked for), seq (recorded sequential fine solution), tol. *)
EXTENDS OtherSteps, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, off, verdict
vars == <<r, k, off, verdict>>
R == Runs[r]
Cut(v) == VRound(v, 140)
Sub1 == RDiv(R.h, R.subs)
RECURSIVE Many(_, _, _)
Many(p, x, n) == IF n = 0 THEN x ELSE Many(p, Cut(Base(p, R.f, 0, x, Sub1)), n - 1)
(* directional derivative of a step, by propagating the tangent *)
JV(x, v) == MatVec(Jac(R.f, Len(R.f), 0, x), v)
F(x) == MapVal(R.f, 0, x)
DStep(p, x, v) ==
  LET h == Sub1 hh == RMul("1/2", h) k1 == F(x) d1 == JV(x, v)
      x2 == VAdd(x, VScale(hh, k1)) v2 == VAdd(v, VScale(hh, d1)) k2 == F(x2) d2 == JV(x2, v2)
      x3 == VAdd(x, VScale(hh, k2)) v3 == VAdd(v, VScale(hh, d2)) k3 == F(x3) d3 == JV(x3, v3)
      x4 == VAdd(x, VScale(h, k3)) v4 == VAdd(v, VScale(h, d3)) d4 == JV(x4, v4)
  IN CASE p = 1 -> VAdd(v, VScale(h, d1)) [] p = 2 -> VAdd(v, VScale(h, d2))
       [] p = 4 -> VAdd(v, VScale(RDiv(h, 6), VAdd(VAdd(d1, d4), VScale(2, VAdd(d2, d3)))))
RECURSIVE DMany(_, _, _, _)
DMany(p, x, v, n) == IF n = 0 THEN v ELSE DMany(p, Cut(Base(p, R.f, 0, x, Sub1)), Cut(DStep(p, x, v)), n - 1)
P == INSTANCE Parareal WITH Fine <- LAMBDA x : Many(R.fine, x, R.subs), Coarse <- LAMBDA x : Many(R.coarse, x, R.subs),
                            DFine <- LAMBDA x, v : DMany(R.fine, x, v, R.subs), Add <- LAMBDA a, b : VAdd(a, b), Sub <- LAMBDA a, b : VSub(a, b)
Round(B) == IF R.rule = "zero" THEN P!ZeroRound(B) ELSE P!NewtonRound(B)
Close(A, B) == Len(A) = Len(B) /\ \A m \in 1..Len(B) : NearV(A[m], B[m], [i \in 1..Len(B[m]) |-> RMul(R.tol, RAdd(1, VMaxAbs(B[m])))])
N == Len(R.seq)
Init == r \in 1..Len(Runs) /\ k = 0 /\ off = -1 /\ verdict = ""
CoarseGrid == LET RECURSIVE G(_)
                  G(done) == IF Len(done) = N THEN done ELSE G(Append(done, Cut(Base(R.coarse, R.f, 0, done[Len(done)], R.h)))) IN G(<<R.x0>>)
Guess == IF R.guess = <<>> THEN CoarseGrid ELSE <<R.x0>> \o Tail(R.guess)
Bs == R.iters[k]
StartClause ==
  CASE ~Close(R.seq, P!Sequential(R.x0, N)) -> "the sequential fine solution"
    [] Len(R.iters[1]) # N -> "the number of points"
    [] OTHER -> ""
(* asked for m rounds the code may make m or m + 1 *)
Start == /\ verdict = "" /\ k = 0
         /\ LET c == StartClause IN
            IF c # "" THEN verdict' = c /\ UNCHANGED <<r, k, off>>
            ELSE LET o == IF Close(R.iters[1], Round(Guess)) THEN 1 ELSE IF Close(R.iters[1], Guess) THEN 0 ELSE -1 IN
                 /\ verdict' = (IF o < 0 THEN "the first round is not the advertised update" ELSE "") /\ off' = o /\ k' = 1 /\ UNCHANGED r
PointClause ==
  CASE Len(Bs) # N -> "the number of points"
    [] Bs[1] # R.x0 -> "the first point is not the initial state"
    [] ~Close(SubSeq(Bs, 1, IF k < N THEN k ELSE N), SubSeq(R.seq, 1, IF k < N THEN k ELSE N)) -> "the first points are not those of the sequential fine solve"
    [] k > 1 /\ ~Close(Bs, Round(R.iters[k - 1])) -> "a round is not the advertised update"
    [] OTHER -> ""
Check == /\ verdict = "" /\ k > 0 /\ k <= Len(R.iters)
         /\ LET c == PointClause IN verdict' = c /\ k' = (IF c = "" THEN k + 1 ELSE k) /\ UNCHANGED <<r, off>>
End == verdict = "" /\ k > Len(R.iters) /\ verdict' = "ok" /\ UNCHANGED <<r, k, off>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, k, off>>
Next == Start \/ Check \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
