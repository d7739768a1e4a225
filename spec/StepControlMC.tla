--------------------------- MODULE StepControlMC ---------------------------
(* Design model: every schedule of proposals, error ratios and cuts over small grids. *)
EXTENDS StepControl, TLC
CONSTANTS Grids, Dt0, Ratios2, MaxTrials
MCGrids == {<<"0", "1">>, <<"0", "1", "3">>, <<"-1", "0", "1/2", "2">>, <<"0", "2", "5/2", "3", "4">>}
MCDt0 == {"1/4", "1", "3/2", "3"}
MCRatios2 == {"0", "1/4", "1", "4", "100"}
VARIABLES c, s, p, n, act
vars == <<c, s, p, n, act>>
Cfgs == {[req |-> g, interp |-> i, all |-> a, order |-> 1, safety |-> "1", minf |-> "1/2", maxf |-> "2"] :
         g \in Grids, i \in BOOLEAN, a \in BOOLEAN}
Init == /\ c \in Cfgs /\ p \in Dt0 /\ n = 0 /\ act = "init"
        /\ s = [t |-> c.req[1], x |-> 0, k |-> 0, ck |-> 2, out |-> First(c, 0)]
Trial == [dt |-> Clip(c, s, p), xn |-> n + 1, fn |-> n + 1]
Running == RLt(s.t, LastOf(c.req)) /\ n < MaxTrials
Go(r2, acc) == /\ Running
               /\ p' \in Proposals(c, s, p, r2) /\ RLt("0", p')
               /\ s' = IF acc THEN AfterAccept(c, s, Trial, RAdd(s.t, Trial.dt)) ELSE AfterReject(c, s)
               /\ n' = n + 1 /\ UNCHANGED c
AcceptPlain(r) == Running /\ RLe(r, 1) /\ ~Lands(c, s, p) /\ Go(r, TRUE) /\ act' = "accept"
AcceptLand(r)  == Running /\ RLe(r, 1) /\ Lands(c, s, p) /\ Go(r, TRUE) /\ act' = "land"
RejectPlain(r) == Running /\ ~RLe(r, 1) /\ ~Lands(c, s, p) /\ Go(r, FALSE) /\ act' = "reject"
RejectLand(r)  == Running /\ ~RLe(r, 1) /\ Lands(c, s, p) /\ Go(r, FALSE) /\ act' = "rejectland"
Stop == ~Running /\ UNCHANGED vars
Next == \/ \E r \in Ratios2 : AcceptPlain(r)
        \/ \E r \in Ratios2 : AcceptLand(r)
        \/ \E r \in Ratios2 : RejectPlain(r)
        \/ \E r \in Ratios2 : RejectLand(r)
        \/ Stop
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
Times == [i \in 1..Len(s.out) |-> s.out[i].t]
Req == {c.req[i] : i \in 1..Len(c.req)}
IsReq(t) == t \in Req
NoOvershoot == RLe(s.t, LastOf(c.req))
TimesIncrease == \A i \in 1..(Len(s.out) - 1) : RLt(s.out[i].t, s.out[i + 1].t)
OnlyRequested == c.all \/ \A i \in 1..Len(s.out) : IsReq(s.out[i].t)
PrefixEmitted == \A j \in 1..Len(c.req) : (j < s.ck) = (\E i \in 1..Len(s.out) : s.out[i].t = c.req[j])
NothingSkipped == (~c.interp) => (s.ck > Len(c.req) \/ RLt(s.t, c.req[s.ck]))
NothingSkippedInterp == s.ck > Len(c.req) \/ RLt(s.t, c.req[s.ck])
DoneAtEnd == Done(c, s) = REq(s.t, LastOf(c.req))
InterpInside == \A i \in 1..Len(s.out) : s.out[i].kind = "interp" => c.interp /\ RLt(s.out[i].t0, s.out[i].t) /\ RLt(s.out[i].t, s.out[i].t1)
FirstIsInitial == s.out[1].t = c.req[1] /\ s.out[1].x = 0
OwnState == \A i \in 1..Len(s.out) : (s.out[i].kind = "step" /\ REq(s.out[i].t, s.t)) => s.out[i].x = s.x
RejectsLeaveNoTrace == [][act' \in {"reject", "rejectland"} => s' = s]_vars
AcceptAdvances == [][act' \in {"accept", "land"} => RLt(s.t, s'.t)]_vars
RejectShrinks == [][act' = "reject" => RLt(p', p)]_vars
PlainNeverShrinksBelowOne == [][act' = "accept" => RLe(p, p')]_vars
=============================================================================
