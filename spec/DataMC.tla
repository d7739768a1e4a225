------------------------------- MODULE DataMC -------------------------------
(* Walks through the entries of every small augmented tensor: every data entry and every new entry is met exactly once and in order.
   Rational points of the circle: the two moons are told apart; opposite points of a spiral belong to opposite classes. *)
EXTENDS Data, FiniteSets
CONSTANT Max
VARIABLES sz, a, first, i, seen
vars == <<sz, a, first, i, seen>>
Init == sz \in (1..Max) \X (1..Max) \X (1..Max) /\ a \in 0..Max /\ first \in BOOLEAN /\ i = 0 /\ seen = <<>>
Walk == i < AugLen(sz, a) /\ seen' = Append(seen, AugAt(sz, a, first, i)) /\ i' = i + 1 /\ UNCHANGED <<sz, a, first>>
Spec == Init /\ [][Walk]_vars
Of(kind) == SelectSeq(seen, LAMBDA e : e[1] = kind)
Ordered == \A kind \in {"data", "new"} : LET s == Of(kind) IN \A k \in 1..Len(s) : s[k][2] = k - 1
Complete == i = AugLen(sz, a) => Len(Of("data")) = sz[1] * sz[2] * sz[3] /\ Len(Of("new")) = sz[1] * a * sz[3]
Ts == {"0", "1/7", "1/5", "1/3", "1/2", "2/3", "4/5", "1", "5/4", "2", "3", "5", "9"}
Pyth(t) == LET d == RAdd(1, RMul(t, t)) IN <<RDiv(RSub(1, RMul(t, t)), d), RDiv(RMul(2, t), d)>>
Moon1(p) == VSub(<<"1", "1/2">>, p)
ASSUME \A t \in Ts : LET p == Pyth(t) IN /\ OnMoon(0, p, "1/100000") /\ ~OnMoon(1, p, "1/20") /\ OnMoon(1, Moon1(p), "1/100000") /\ ~OnMoon(0, Moon1(p), "1/20")
ASSUME \A r \in {"1", "5/2", "7", "13"} : LET p == Spiral(0, r) IN RLt(SpiralGap(0, p), "1/1000000") /\ RLt("1/2", SpiralGap(1, p)) /\ RLt(SpiralGap(1, VScale(-1, p)), "1/1000000")
ASSUME \A k \in 2..9 : RLt(RAbs(RSub(Chord("3", k), ArcGap("3", "3", 1, k))), "1/1000000")
=============================================================================
