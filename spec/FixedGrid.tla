----------------------------- MODULE FixedGrid -----------------------------
(* Stepping on a given grid, shared by the ODE (C05) and SDE (C17) solvers.
   The state x is carried from grid point to grid point, one step per interval; the points whose
   indices are asked for are kept and returned in the order in which they were asked for.
   A configuration c: grid (times), save (indices into it, in the order requested).      *)
EXTENDS Rat, Integers, Sequences, TLC
GStart(x0) == [i |-> 1, x |-> x0, kept |-> (1 :> x0)]
GMore(c, s) == s.i < Len(c.grid)
GStep(s, xn) == [i |-> s.i + 1, x |-> xn, kept |-> s.kept @@ (s.i + 1 :> xn)]
GOut(c, s) == [k \in 1..Len(c.save) |-> s.kept[c.save[k]]]
GTimes(c) == [k \in 1..Len(c.save) |-> c.grid[c.save[k]]]
=============================================================================
