------------------------------- MODULE SDEMC -------------------------------
(* Design check of the schemes on linear equations dX = a X dt + b X dW over grids with square steps and a
   two-point noise +-sqrt(h) (probability one half each), the whole tree of noise paths explored:
   the noise intervals tile the grid, conditional means are those of the calculus
   (Ito: (1 + a h) x; Stratonovich: (1 + a h + b^2 h / 2) x), and the strong order-one schemes carry the term b^2 (dw^2 - h)/2, b^2 dw^2/2. *)
EXTENDS SDESchemes, FixedGrid
CONSTANT MaxSteps
Schemes == {"euler", "heun", "milito", "milstr"}
Squares == <<"1", "1/4", "1/16">>
VARIABLES sch, a, b, grid, s, used, w
vars == <<sch, a, b, grid, s, used, w>>
Lin(c) == <<<<[c |-> c, m |-> 0, e |-> <<1>>]>>>>
C == [grid |-> grid, save |-> <<1>>]
H(i) == RSub(grid[i + 1], grid[i])
RECURSIVE Cum(_, _)
Cum(hs, i) == IF i = 0 THEN "0" ELSE RAdd(Cum(hs, i - 1), hs[i])
Init == /\ sch \in Schemes /\ a \in {"0", "1", "-1/2"} /\ b \in {"0", "1", "-2"}
        /\ \E n \in 1..MaxSteps : \E k \in [1..n -> 1..3] : grid = [i \in 1..(n + 1) |-> Cum([j \in 1..n |-> Squares[k[j]]], i - 1)]
        /\ s = GStart(<<"1">>) /\ used = <<>> /\ w = "0"
Out(dw) == SStep(sch, Lin(a), Lin(b), grid[s.i], s.x, H(s.i), <<dw>>)
Step == /\ GMore(C, s)
        /\ \E sg \in {"1", "-1"} : LET dw == RMul(sg, RSqrt(H(s.i), 4)) IN
             s' = GStep(s, Out(dw)) /\ used' = Append(used, <<grid[s.i], grid[s.i + 1]>>) /\ w' = RAdd(w, dw)
        /\ UNCHANGED <<sch, a, b, grid>>
Done == ~GMore(C, s) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Tiles == /\ \A k \in 1..(Len(used) - 1) : used[k][2] = used[k + 1][1]
         /\ used # <<>> => used[1][1] = grid[1]
         /\ ~GMore(C, s) => used[Len(used)][2] = grid[Len(grid)]
Mean == GMore(C, s) => LET q == RSqrt(H(s.i), 4)
                           m == RDiv(RAdd(Out(q)[1], Out(RNeg(q))[1]), 2)
                           d == RAdd(1, RMul(a, H(s.i)))
                           strat == RAdd(d, RDiv(RMul(RMul(b, b), H(s.i)), 2))
                           \* the derivative-free correction differs from b g' by the drift part of its support: order h^(3/2)
                           extra == RMul(RMul(a, b), RMul(RMul("1/2", q), H(s.i)))
                       IN m = RMul(s.x[1], IF Calculus(sch) = "ito" THEN d ELSE IF sch = "heun" THEN strat ELSE RAdd(strat, extra))
StrongTerm == (GMore(C, s) /\ a = "0") => \A dw \in {"0", "1/2", "-3"} :
                 LET o == Out(dw)[1]  lin == RAdd(1, RMul(b, dw))  b2 == RDiv(RMul(b, b), 2) IN
                 /\ sch \in {"heun", "milstr"} => o = RMul(s.x[1], RAdd(lin, RMul(b2, RMul(dw, dw))))
                 /\ sch = "milito" => o = RMul(s.x[1], RAdd(lin, RMul(b2, RSub(RMul(dw, dw), H(s.i)))))
=============================================================================
