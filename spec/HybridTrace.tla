----------------------------- MODULE HybridTrace -----------------------------
(* Judges recorded hybrid solves (C07) of systems with exact flows and conditions that are conjunctions of half
   spaces.  A run: sys; cond: per callback a sequence of [w, wt, c] (holds iff w.x + wt t > c for each); etol, jspan, prio;
   span; eps, tol; x0; res: [t, x]; jumps: [i, t, x, y] calls of jump maps; maps: per callback [a, d] (x -> a x + d).  *)
EXTENDS Hybrid, Flow, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, m, flags, verdict
vars == <<r, k, m, flags, verdict>>
R == Runs[r]
N == Len(R.cond)
Last(q) == q[Len(q)]
(* ---- conditions with a margin *)
HalfS(h, t, x, slack) == LET v == RSub(RAdd(VDot(h.w, x), RMul(h.wt, t)), h.c)
                     z == RAdd(slack, RMul(RMul(4000, R.eps), RAdd(RAdd(VDot(VAbs(h.w), VAbs(x)), RAbs(RMul(h.wt, t))), RAdd(1, RAbs(h.c)))))
                 IN IF RLt(z, v) THEN "T" ELSE IF RLt(v, RNeg(z)) THEN "F" ELSE "U"
TriS(j, t, x, speed, gap) ==
  LET q == [n \in 1..Len(R.cond[j]) |-> LET h == R.cond[j][n] IN
              HalfS(h, t, x, RMul(gap, RAdd(VDot(VAbs(h.w), speed), RAbs(h.wt))))] IN
                IF \E n \in 1..Len(q) : q[n] = "F" THEN "F" ELSE IF \A n \in 1..Len(q) : q[n] = "T" THEN "T" ELSE "U"
Tri(j, t, x) == TriS(j, t, x, x, 0)
Now(t, x) == [j \in 1..N |-> Tri(j, t, x)]
(* ---- the flow from a recorded point *)
P == R.res[k]
Q == R.res[k + 1]
FlowFromP(s) == At(Flow(R.sys, P.t, P.x), s)
SizeP(s) == Size(R.sys, P.t, P.x, s)
OnFlow == LET s == RSub(Q.t, P.t) f == FlowFromP(s) z == SizeP(s)
              at == RAdd(RAbs(P.t), RAbs(Q.t))
              g == Field(AbsSys(R.sys), RAdd(at, 1), z)          \* effect of rounding the recorded times
          IN \A i \in 1..Len(R.sys) : RFin(Q.x[i]) /\ RLe(RAbs(RSub(Q.x[i], f[i])), RMul(RMul(R.tol, R.eps), RAdd(RAdd(z[i], RMul(at, g[i])), RAbs(P.x[i]))))
(* ---- where the condition has to hold after the event time: samples of (0, event tolerance] *)
Samples == {RMul(R.etol, q) : q \in {"1/1024", "1/8", "1/4", "3/8", "1/2", "5/8", "3/4", "7/8", "1"}}
\* the margin covers what the condition can do between two samples
AfterSpeed(t, x) == Field(AbsSys(R.sys), RAdd(RAbs(t), R.etol), Size(R.sys, t, x, R.etol))
AtAfter(j, t, x, g, s) == TriS(j, RAdd(t, s), At(Flow(R.sys, t, x), s), g, RDiv(R.etol, 8))
FarTri(j, t, x) == LET g == AfterSpeed(t, x) IN {AtAfter(j, t, x, g, s) : s \in Samples}
\* condition j holds wherever in the last search interval, whose length is above half the tolerance once halved, condition i may
HoldsToo(j, i, t, x, halved) ==
  \/ R.cond[j] = R.cond[i]
  \/ LET g == AfterSpeed(t, x) IN \A s \in Samples : (halved /\ RLt(s, RDiv(R.etol, 2))) \/ AtAfter(j, t, x, g, s) = "T" \/ AtAfter(i, t, x, g, s) = "F"
Merge(S) == IF S = {"T"} THEN "T" ELSE IF S = {"F"} THEN "F" ELSE "U"
ApplyMap(i, x) == [n \in 1..Len(x) |-> RAdd(RMul(R.maps[i].a[n], x[n]), R.maps[i].d[n])]
MapOk(J) == LET y == ApplyMap(J.i, J.x) IN \A n \in 1..Len(y) : RLe(RAbs(RSub(J.y[n], y[n])), RMul(RMul(8, R.eps), RAdd(1, RAdd(RAbs(y[n]), RAbs(J.x[n])))))

StartNow == Now(R.span[1], R.x0)
F0 == [j \in 1..N |-> "F"]
StartJumps == R.prio = "jump" /\ \E j \in 1..N : StartNow[j] = "T"
StartClause ==
  LET J == R.jumps[1] IN
  CASE Len(R.res) = 0 -> "nothing is returned"
    [] R.res[1].t # R.span[1] -> "the first recorded time is not the start"
    [] StartJumps /\ Len(R.jumps) = 0 -> "a condition true at the start is not applied"
    [] StartJumps /\ (J.i # Lowest(Newly(F0, StartNow)) \/ J.t # R.span[1] \/ J.x # R.x0) -> "the jump at the start is not that of the lowest true condition"
    [] StartJumps /\ (J.y # R.res[1].x \/ ~MapOk(J)) -> "the state after the jump at the start"
    [] ~StartJumps /\ R.res[1].x # R.x0 -> "the solve does not start from the initial state"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ k = 0 /\ m = 1 /\ flags = <<>> /\ verdict = ""
Start == /\ verdict = "" /\ k = 0
         /\ IF StartClause # "" THEN verdict' = StartClause /\ UNCHANGED <<r, k, m, flags>>
            ELSE /\ k' = 1 /\ m' = (IF StartJumps THEN 2 ELSE 1) /\ UNCHANGED <<r, verdict>>
                 /\ flags' = IF StartJumps THEN [F0 EXCEPT ![R.jumps[1].i] = Tri(R.jumps[1].i, R.span[1], R.res[1].x)]
                             ELSE IF R.prio = "jump" THEN F0 ELSE StartNow
JumpsDone == m - 1
MoreJumps == m <= Len(R.jumps)
\* an accepted step's end followed by an event located at that very point
StepThenEvent == /\ k + 3 <= Len(R.res) /\ RLt(P.t, Q.t) /\ R.res[k + 2] = Q
                 /\ R.res[k + 3].t = Q.t /\ R.res[k + 3].x = R.jumps[m].y
IsEvent == MoreJumps /\ R.jumps[m].t = Q.t /\ R.jumps[m].x = Q.x /\ ~StepThenEvent
Jumped == Q.t = P.t /\ JumpsDone > 0 /\ R.jumps[m - 1].t = P.t      \* straight after a jump
AtStart == Q.t = P.t /\ k = 1
(* straight after the jump of an event whose bracket was halved: the callback's condition holds at the end of that bracket, wherever that is, and no other
   condition changes there, so crossing into it is still the same event *)
SameEvent(i) == /\ k >= 3 /\ JumpsDone > 0 /\ R.jumps[m - 1].i = i /\ R.jumps[m - 1].t = P.t /\ R.jumps[m - 1].y = P.x /\ RLt(R.res[k - 2].t, P.t)
                /\ RLe(RSub(Q.t, P.t), RDiv(R.etol, 2))
                /\ LET g == AfterSpeed(P.t, P.x) IN
                   /\ \A s \in Samples : RLt(s, RDiv(R.etol, 2)) \/ AtAfter(i, P.t, P.x, g, s) = "T"
                   /\ \A j \in 1..N : j = i \/ ({Tri(j, P.t, P.x)} \cup FarTri(j, P.t, P.x)) \in {{"T"}, {"F"}}
EventClause ==
  LET J == R.jumps[m]
      f == IF Q.t = P.t THEN flags ELSE Now(Q.t, Q.x)      \* what the search has seen on the false side
      held == [j \in 1..N |-> IF Q.t = P.t THEN flags[j] ELSE IF flags[j] = "F" /\ f[j] = "T" THEN "F" ELSE f[j]]
  IN CASE k + 2 > Len(R.res) \/ R.res[k + 2].t # Q.t -> "the state after the jump is not recorded at the event time"
       [] R.res[k + 2].x # J.y -> "the recorded state after the jump is not the jump map's"
       [] ~MapOk(J) -> "the jump map is not applied to the state at the event"
       [] ~OnFlow -> "the state at the event is not on the flow"
       [] RLt(Q.t, P.t) -> "recorded times decrease"
       [] Q.t # P.t /\ \E j \in 1..N : flags[j] = "F" /\ f[j] = "T" -> "the condition already holds at the recorded event time"
       [] flags[J.i] = "T" /\ Q.t = P.t -> "a condition that stays true fires again"
       [] flags[J.i] = "T" /\ f[J.i] = "T" -> "a condition that stays true fires again"
       [] SameEvent(J.i) -> "an event fires twice"
       [] FarTri(J.i, Q.t, Q.x) = {"F"} -> "the event is not within the event tolerance"
       [] \E j \in 1..(J.i - 1) : held[j] = "F" /\ HoldsToo(j, J.i, Q.t, Q.x, Q.t # P.t) -> "a lower-numbered condition triggered too"
       [] JumpsDone >= R.jspan -> "more jumps than allowed"
       [] OTHER -> ""
Event == /\ verdict = "" /\ k > 0 /\ k < Len(R.res) /\ IsEvent
         /\ IF EventClause # "" THEN verdict' = EventClause /\ UNCHANGED <<r, k, m, flags>>
            ELSE LET J == R.jumps[m]
                     f == IF Q.t = P.t THEN flags ELSE Now(Q.t, Q.x)
                     y == R.res[k + 2].x IN
                 /\ flags' = FlagsAfterJump(f, J.i, Merge(FarTri(J.i, Q.t, y) \cup {Tri(J.i, Q.t, y)}))
                 /\ k' = k + 2 /\ m' = m + 1 /\ UNCHANGED <<r, verdict>>
FlowClause ==
  CASE ~RLt(P.t, Q.t) -> "recorded times do not increase along the flow"
    [] RLt(Last(R.span), Q.t) -> "the solve passes the end"
    [] ~OnFlow -> "a recorded state is not on the flow"
    [] Newly(flags, Now(Q.t, Q.x)) # {} -> "an event is missed"
    [] JumpsDone >= R.jspan -> "the solve goes on after the last allowed jump"
    [] OTHER -> ""
FlowStep == /\ verdict = "" /\ k > 0 /\ k < Len(R.res) /\ ~IsEvent
            /\ IF FlowClause # "" THEN verdict' = FlowClause /\ UNCHANGED <<r, k, m, flags>>
               ELSE flags' = Now(Q.t, Q.x) /\ k' = k + 1 /\ UNCHANGED <<r, m, verdict>>
RecTimes == {R.res[n].t : n \in 1..Len(R.res)}
EndClause ==
  CASE MoreJumps -> "a jump map is applied without an event being recorded"
    [] JumpsDone > R.jspan -> "more jumps than allowed"
    [] JumpsDone < R.jspan /\ Last(R.res).t # Last(R.span) -> "the solve ends early"
    [] \E n \in 1..Len(R.span) : RLt(R.span[n], Last(R.res).t) /\ R.span[n] \notin RecTimes -> "a requested time is missing"
    [] OTHER -> "ok"
End == verdict = "" /\ k > 0 /\ k = Len(R.res) /\ verdict' = EndClause /\ UNCHANGED <<r, k, m, flags>>
Report == /\ verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>)
          /\ verdict' = "reported" /\ UNCHANGED <<r, k, m, flags>>
Next == Start \/ Event \/ FlowStep \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
