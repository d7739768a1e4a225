---------------------------- MODULE FixedGridMC ----------------------------
EXTENDS FixedGrid, FiniteSets
CONSTANT MaxLen
VARIABLES c, s, hist
vars == <<c, s, hist>>
Grid(n) == [i \in 1..n |-> RDiv(i * i, 2)]
Saves(n) == UNION {{q \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => q[i] # q[j]} : k \in 1..n}
Init == /\ \E n \in 2..MaxLen : \E q \in Saves(n) : c = [grid |-> Grid(n), save |-> q]
        /\ s = GStart(<<>>) /\ hist = <<>>
\* the abstract step rule records which interval it was used on
Step == /\ GMore(c, s) /\ s' = GStep(s, Append(s.x, <<c.grid[s.i], c.grid[s.i + 1]>>))
        /\ hist' = Append(hist, <<c.grid[s.i], c.grid[s.i + 1]>>) /\ UNCHANGED c
Done == ~GMore(c, s) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Tiles == /\ \A k \in 1..(Len(hist) - 1) : hist[k][2] = hist[k + 1][1]
         /\ hist # <<>> => hist[1][1] = c.grid[1]
Carried == s.x = hist
OnePerInterval == ~GMore(c, s) => Len(hist) = Len(c.grid) - 1 /\ hist[Len(hist)][2] = c.grid[Len(c.grid)]
Aligned == ~GMore(c, s) => \A k \in 1..Len(c.save) :
              LET x == GOut(c, s)[k] t == GTimes(c)[k] IN
              /\ Len(x) = c.save[k] - 1 /\ (x # <<>> => x[Len(x)][2] = t) /\ (x = <<>> => t = c.grid[1])
Ends == <>(~GMore(c, s))
=============================================================================
