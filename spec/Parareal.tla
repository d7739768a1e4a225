------------------------------ MODULE Parareal ------------------------------
(* Rounds of the parallel-in-time iterations on shooting points B[1..n].  Fine(x) and Coarse(x) advance one interval.
   Zero order:       new[1] = B[1],  new[m] = Coarse(new[m-1]) - Coarse(B[m-1]) + Fine(B[m-1])
   Derivative based: new[1] = B[1],  new[m] = Fine(B[m-1]) + DFine(B[m-1]) (new[m-1] - B[m-1])            *)
EXTENDS Integers, Sequences
CONSTANTS Fine(_), Coarse(_), DFine(_, _), Add(_, _), Sub(_, _)
RECURSIVE ZeroFrom(_, _), NewtonFrom(_, _)
ZeroFrom(B, new) == LET m == Len(new) + 1 IN
  IF m > Len(B) THEN new
  ELSE ZeroFrom(B, Append(new, Add(Sub(Coarse(new[m - 1]), Coarse(B[m - 1])), Fine(B[m - 1]))))
ZeroRound(B) == ZeroFrom(B, <<B[1]>>)
NewtonFrom(B, new) == LET m == Len(new) + 1 IN
  IF m > Len(B) THEN new
  ELSE NewtonFrom(B, Append(new, Add(Fine(B[m - 1]), DFine(B[m - 1], Sub(new[m - 1], B[m - 1])))))
NewtonRound(B) == NewtonFrom(B, <<B[1]>>)
RECURSIVE SeqFrom(_, _)
SeqFrom(n, done) == IF Len(done) = n THEN done ELSE SeqFrom(n, Append(done, Fine(done[Len(done)])))
Sequential(x, n) == SeqFrom(n, <<x>>)
=============================================================================
