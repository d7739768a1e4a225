----------------------------- MODULE StepBackMC -----------------------------
(* Stepping down a decreasing grid, written out natively (times fall, steps are subtracted), and
   the claim behind C06: seen through t -> -t it is exactly the increasing automaton of StepControl. *)
EXTENDS Rat, Integers, Sequences
CONSTANTS MaxTrials
VARIABLES c, s, p, n, act
vars == <<c, s, p, n, act>>
Neg(q) == [i \in 1..Len(q) |-> RNeg(q[i])]
Grids == {<<"1", "0">>, <<"3", "1", "0">>, <<"2", "1/2", "0", "-1">>}
Cfgs == {[req |-> g, interp |-> i, all |-> a] : g \in Grids, i \in BOOLEAN, a \in BOOLEAN}
Last(q) == q[Len(q)]
Target == IF c.interp THEN Last(c.req) ELSE c.req[s.ck]
Room == RSub(s.t, Target)
dt == RMin(p, Room)
Init == /\ c \in Cfgs /\ p \in {"1/4", "1", "3/2"} /\ n = 0 /\ act = "init"
        /\ s = [t |-> c.req[1], x |-> 0, ck |-> 2, out |-> <<[t |-> c.req[1], x |-> 0, interp |-> FALSE]>>]
Running == RLt(Last(c.req), s.t) /\ n < MaxTrials
RECURSIVE InsideB(_, _)
InsideB(j, tn) == IF j <= Len(c.req) /\ RLt(tn, c.req[j]) THEN 1 + InsideB(j + 1, tn) ELSE 0
Accept == LET tn == RSub(s.t, dt)
              k == IF c.interp THEN InsideB(s.ck, tn) ELSE 0
              inner == [i \in 1..k |-> [t |-> c.req[s.ck + i - 1], x |-> s.x, interp |-> TRUE]]
              hit == s.ck + k <= Len(c.req) /\ REq(c.req[s.ck + k], tn)
              end == IF hit \/ c.all THEN <<[t |-> tn, x |-> n + 1, interp |-> FALSE]>> ELSE <<>>
          IN s' = [t |-> tn, x |-> n + 1, ck |-> s.ck + k + (IF hit THEN 1 ELSE 0), out |-> s.out \o inner \o end]
Factor == {"1/2", "1", "2"}
Go(a) == /\ Running /\ n' = n + 1 /\ UNCHANGED c /\ act' = a
         /\ \E f \in Factor : \E b \in (IF RLt(Room, p) THEN {p, Room, RSub(p, Room)} ELSE {dt}) : p' = RMul(f, b)
Down == Go("accept") /\ Accept
Stay == Go("reject") /\ UNCHANGED s
Next == Down \/ Stay \/ (~Running /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* ---- the increasing automaton, over the reflected configuration *)
Up == INSTANCE StepControl
RC == [c EXCEPT !.req = Neg(@)]
RS(u) == [t |-> RNeg(u.t), x |-> u.x, k |-> u.x, ck |-> u.ck,
          out |-> [i \in 1..Len(u.out) |-> [t |-> RNeg(u.out[i].t), x |-> u.out[i].x, kind |-> IF u.out[i].interp THEN "interp" ELSE "step"]]]
Bare(u) == [t |-> u.t, x |-> u.x, ck |-> u.ck, out |-> [i \in 1..Len(u.out) |-> [t |-> u.out[i].t, x |-> u.out[i].x, kind |-> u.out[i].kind]]]
Reflected == [][(n' = n + 1 /\ act' = "accept") =>
   LET e == [dt |-> Up!Clip(RC, RS(s), p), xn |-> n + 1, fn |-> n + 1]
       v == Up!AfterAccept(RC, [RS(s) EXCEPT !.out = <<>>], e, RAdd(RNeg(s.t), e.dt))
   IN Bare(RS(s')) = [Bare(v) EXCEPT !.out = Bare(RS(s)).out \o @]]_vars
TimesFall == \A i \in 1..(Len(s.out) - 1) : RLt(s.out[i + 1].t, s.out[i].t)
InSpan == RLe(Last(c.req), s.t) /\ RLe(s.t, c.req[1])
=============================================================================
