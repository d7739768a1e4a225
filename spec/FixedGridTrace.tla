-------------------------- MODULE FixedGridTrace --------------------------
(* Judges recorded fixed-step solves (C05).  A run: c (grid, save: indices of the requested times in
   the grid, empty if a requested time is not on it), want (requested times), refused, args, eps, x0 (a record of
   state entries, one called "x" for plain states), ev: [t, dt, x, xn, args], res: [t, x].  *)
EXTENDS FixedGrid, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, s, verdict
vars == <<r, s, verdict>>
R == Runs[r]
C == R.c
E == R.ev[s.i]
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
Tol == RMul(RMul(8, R.eps), VMaxAbs(C.grid))
Init == r \in 1..Len(Runs) /\ s = GStart(Runs[r].x0) /\ verdict = ""
StepClause ==
  CASE s.i > Len(R.ev) -> "fewer steps than intervals"
    [] ~Near(E.t, C.grid[s.i], Tol) -> "a step does not start at its grid point"
    [] ~Near(RAdd(E.t, E.dt), C.grid[s.i + 1], Tol) -> "a step does not end at the next grid point"
    [] E.x # s.x -> "a step does not start from the state of the previous one"
    [] E.args # R.args -> "the extra arguments are not passed to a step"
    [] OTHER -> ""
Refuse == /\ verdict = "" /\ C.save = <<>>
          /\ verdict' = (IF R.refused THEN "ok" ELSE "a time that is not on the grid is not refused") /\ UNCHANGED <<r, s>>
Step == /\ verdict = "" /\ C.save # <<>> /\ GMore(C, s) /\ ~R.refused
        /\ IF StepClause # "" THEN verdict' = StepClause /\ UNCHANGED <<r, s>>
           ELSE s' = GStep(s, E.xn) /\ UNCHANGED <<r, verdict>>
EndClause ==
  CASE R.refused -> "a time on the grid is refused"
    [] Len(R.ev) # Len(C.grid) - 1 -> "more steps than intervals"
    [] Len(R.res) # Len(C.save) -> "the number of returned points"
    [] \E k \in 1..Len(C.save) : R.res[k].t # R.want[k] -> "a returned time"
    [] \E k \in 1..Len(C.save) : R.res[k].x # GOut(C, s)[k] -> "a returned state is not the one at its time"
    [] OTHER -> "ok"
End == /\ verdict = "" /\ C.save # <<>> /\ (R.refused \/ ~GMore(C, s)) /\ verdict' = EndClause /\ UNCHANGED <<r, s>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, s.i>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, s>>
Next == Refuse \/ Step \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
