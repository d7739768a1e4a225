------------------------------ MODULE HybridMC ------------------------------
(* Design model: integer time 0..End, state x growing by one per tick, two callbacks whose conditions are a time
   window or a threshold on the state, steps of one to three ticks cut at requested times. *)
EXTENDS Hybrid, FiniteSets, TLC
CONSTANTS End, MaxJumps
VARIABLES cb, req, prio, t, x, flags, jn, rec, fired, fresh, phase
vars == <<cb, req, prio, t, x, flags, jn, rec, fired, fresh, phase>>
Conds == {[k |-> "win", a |-> a, b |-> b, jump |-> 0] : a \in {0, 2, 4}, b \in {3, 5, End}} \cup
         {[k |-> "thr", a |-> a, b |-> 0, jump |-> j] : a \in {0, 2, 3}, j \in {0, -1, -3, 2}}
Holds(i, tt, xx) == IF cb[i].k = "win" THEN cb[i].a <= tt /\ tt <= cb[i].b ELSE xx >= cb[i].a
TF(b) == IF b THEN "T" ELSE "F"
Now(tt, xx) == [i \in 1..Len(cb) |-> TF(Holds(i, tt, xx))]
Init == /\ cb \in Conds \X Conds /\ req \in {{}, {1, 4}} /\ prio \in {"jump", "flow"}
        /\ t = 0 /\ x = 0 /\ jn = 0 /\ fired = <<>> /\ rec = <<>> /\ flags = <<"F", "F">> /\ phase = "start" /\ fresh = FALSE
Start == /\ phase = "start" /\ phase' = "run"
         /\ IF prio = "jump" /\ Newly(<<"F", "F">>, Now(0, 0)) # {}
            THEN LET i == Lowest(Newly(<<"F", "F">>, Now(0, 0))) IN
                 /\ x' = x + cb[i].jump /\ jn' = 1 /\ fired' = <<[i |-> i, t |-> 0, x |-> x, y |-> x + cb[i].jump, start |-> TRUE]>>
                 /\ flags' = [<<"F", "F">> EXCEPT ![i] = TF(Holds(i, 0, x + cb[i].jump))] /\ fresh' = TRUE
            ELSE x' = x /\ UNCHANGED <<jn, fired>> /\ flags' = (IF prio = "jump" THEN <<"F", "F">> ELSE Now(0, 0)) /\ fresh' = FALSE
         /\ rec' = <<[t |-> 0, x |-> x']>> /\ UNCHANGED <<cb, req, prio, t>>
Running == phase = "run" /\ t < End /\ jn < MaxJumps
Room == LET S == {q \in req \cup {End} : q > t} IN (CHOOSE q \in S : \A z \in S : q <= z) - t
\* flags as they are when the search has moved on to tick u without an event
At(u) == IF u = t THEN flags ELSE Now(u, x + u - t)
RECURSIVE FlagsUpTo(_)
FlagsUpTo(u) == At(u)
EventAt(u) == Newly(IF u = t + 1 THEN flags ELSE FlagsUpTo(u - 1), Now(u, x + u - t)) # {}
Advance(d) == /\ Running /\ d <= Room
              /\ \A u \in (t + 1)..(t + d) : ~EventAt(u)
              /\ t' = t + d /\ x' = x + d /\ flags' = Now(t', x') /\ fresh' = FALSE
              /\ rec' = Append(rec, [t |-> t', x |-> x']) /\ UNCHANGED <<cb, req, prio, jn, fired, phase>>
Fire(d) == /\ Running /\ d <= Room
           /\ \E u \in (t + 1)..(t + d) :
                /\ EventAt(u) /\ \A v \in (t + 1)..(u - 1) : ~EventAt(v)
                /\ LET te == u - 1
                       f0 == At(te)
                       xe == x + te - t
                       i == Lowest(Newly(f0, Now(u, x + u - t)))
                       y == xe + cb[i].jump
                   IN /\ t' = te /\ x' = y /\ jn' = jn + 1 /\ fresh' = TRUE
                      /\ flags' = FlagsAfterJump(f0, i, TF(Holds(i, te + 1, y + 1)))
                      /\ fired' = Append(fired, [i |-> i, t |-> te, x |-> xe, y |-> y, start |-> FALSE])
                      /\ rec' = rec \o <<[t |-> te, x |-> xe], [t |-> te, x |-> y]>>
           /\ UNCHANGED <<cb, req, prio, phase>>
Stop == phase = "run" /\ ~Running /\ UNCHANGED vars
Next == Start \/ (\E d \in 1..3 : Advance(d)) \/ (\E d \in 1..3 : Fire(d)) \/ Stop
Spec == Init /\ [][Next]_vars
TimesNeverDecrease == \A k \in 1..(Len(rec) - 1) : rec[k].t <= rec[k + 1].t
Budget == Len(fired) = jn /\ jn <= MaxJumps
EndsRight == (phase = "run" /\ ~Running) => t = End \/ jn = MaxJumps
RequestedAppear == phase = "run" => \A q \in req : q < t => \E k \in 1..Len(rec) : rec[k].t = q
Located == \A k \in 1..Len(fired) : LET f == fired[k] IN ~f.start => Holds(f.i, f.t + 1, f.x + 1)
(* a callback fires from a false condition, except straight after another jump or the start put it there *)
FalseSide == \A k \in 1..Len(fired) : LET f == fired[k] IN
               (~f.start /\ Holds(f.i, f.t, f.x)) => f.t = 0 \/ \E m \in 1..(k - 1) : fired[m].t = f.t
(* between two firings of one callback its condition was false *)
Refire == \A k, m \in 1..Len(fired) : (k < m /\ fired[k].i = fired[m].i /\ fired[k].t < fired[m].t) =>
             \E q \in fired[k].t..fired[m].t : \E z \in -10..20 : ~Holds(fired[k].i, q, z)
=============================================================================
