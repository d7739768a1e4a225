------------------------------ MODULE SDETrace ------------------------------
(* Judges recorded SDE solves (C17).  A run: kind "solve": scheme, f, g, grid, save (indices; <<>> for an off-grid request), want,
   x0, eps, q: queries of the noise path [a, b, w] in order, all: states at every grid point, res: [t, x] of a second
   solve on the same path with the save request, q2 its queries, refused, inputs_kept.
   kind "types": combos [scheme, sde, noise, refused].  *)
EXTENDS SDESchemes, FixedGrid, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, s, l, verdict
vars == <<r, s, l, verdict>>
R == Runs[r]
C == [grid |-> R.grid, save |-> R.save]
Tol == RMul(RMul(16, R.eps), VMaxAbs(R.grid))
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ verdict = ""
        /\ s = IF Runs[r].kind = "solve" THEN GStart(Runs[r].x0) ELSE GStart(<<>>)
Types == /\ verdict = "" /\ R.kind = "types"
         /\ verdict' = (IF \E k \in 1..Len(R.combos) : LET c == R.combos[k] IN c.refused = Accepts(c.scheme, c.sde, c.noise)
                        THEN "an SDE is accepted or refused against its declared calculus and noise" ELSE "ok")
         /\ UNCHANGED <<r, s, l>>
\* queries of the current interval: from l on, as long as they start before its end
InStep(q) == RLt(q.a, RSub(R.grid[s.i + 1], Tol))
RECURSIVE Last1(_)
Last1(k) == IF k < Len(R.q) /\ InStep(R.q[k + 1]) THEN Last1(k + 1) ELSE k
TMax == RAdd(1, VMaxAbs(R.grid))
H == RSub(R.grid[s.i + 1], R.grid[s.i])
Size(x, dw) ==
  LET ad == AbsV(dw)  ax == AbsV(x)
      F1 == MapVal(AbsMap(R.f), TMax, ax)  G1 == MapVal(AbsMap(R.g), TMax, ax)  q == RSqrt(H, 20)
      far == VAdd(ax, VAdd(VScale(H, F1), VMul(G1, VAdd(ad, Const(q, Len(ax))))))
      G2 == MapVal(AbsMap(R.g), TMax, far)
      v == VAdd(VMul(ad, ad), Const(H, Len(ax)))
  IN VAdd(VAdd(ax, VScale(RAdd(H, VMaxAbs(R.grid)), F1)), VAdd(VMul(VAdd(G1, G2), VAdd(ad, Const(RMul("1/8", q), Len(ax)))), VMul(VScale(RDiv(RAdd(1, TMax), q), VAdd(G1, G2)), v)))
Huge == "1000000000000000000000000000000"
StepClause ==
  LET k == Last1(l)  x == R.all[s.i + 1]  dw == R.q[l].w IN
  CASE l > Len(R.q) -> "the noise of an interval is not queried"
    [] ~InStep(R.q[l]) -> "the noise of an interval is not queried"
    [] \E n \in l..k : ~(Near(R.q[n].a, R.grid[s.i], Tol) /\ Near(R.q[n].b, R.grid[s.i + 1], Tol)) -> "a noise query is not the step's interval"
    [] RLt(Huge, VMaxAbs(Size(s.x, dw))) -> "ok"     \* a run that leaves the range of single precision is judged up to there
    [] ~NearV(x, SStep(R.scheme, R.f, R.g, R.grid[s.i], s.x, H, dw), VScale(RMul(4000, R.eps), Size(s.x, dw))) -> "a step is not its scheme's formula"
    [] OTHER -> ""
Step == /\ verdict = "" /\ R.kind = "solve" /\ GMore(C, s) /\ Len(R.all) = Len(R.grid)
        /\ IF StepClause # "" THEN verdict' = StepClause /\ UNCHANGED <<r, s, l>>
           ELSE s' = GStep(s, R.all[s.i + 1]) /\ l' = Last1(l) + 1 /\ UNCHANGED <<r, verdict>>
EndClause ==
  CASE Len(R.all) # Len(R.grid) -> "the number of states of the default solve"
    [] R.allt # R.grid -> "the returned times of the default solve"
    [] l # Len(R.q) + 1 -> "the noise is queried beyond the end"
    [] R.all[1] # R.x0 -> "the initial state"
    [] ~R.kept -> "the inputs are modified"
    [] R.save = <<>> /\ ~R.refused -> "a time that is not on the grid is not refused"
    [] R.save # <<>> /\ R.refused -> "a time on the grid is refused"
    [] R.save = <<>> -> "ok"
    [] Len(R.res) # Len(R.save) -> "the number of saved points"
    [] \E k \in 1..Len(R.save) : R.res[k].t # R.want[k] -> "a returned time"
    [] \E k \in 1..Len(R.save) : R.res[k].x # GOut(C, s)[k] -> "a saved state is not the one at its time"
    [] R.q2 # R.q -> "saving changes the use of the noise"
    [] OTHER -> "ok"
End == /\ verdict = "" /\ R.kind = "solve" /\ (~GMore(C, s) \/ Len(R.all) # Len(R.grid)) /\ verdict' = EndClause /\ UNCHANGED <<r, s, l>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, s.i>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, s, l>>
Next == Types \/ Step \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
