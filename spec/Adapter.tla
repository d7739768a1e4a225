------------------------------- MODULE Adapter -------------------------------
(* What a vector field wrapped for a neural differential equation is given, and what is made of its answer (C12).  States are rows of numbers. *)
EXTENDS Rat, Integers, Sequences
\* an order-n equation: the derivative of each block is the next block, of the last one the answer y of the field
Blocks(row, y, n) == LET s == Len(row) \div n IN SubSeq(row, s + 1, Len(row)) \o y
\* evaluations of a solve backwards in time run on -f(-t, x)
TimeOf(t, back) == IF back THEN RNeg(t) ELSE t
Answer(row, y, n, back) == LET b == Blocks(row, y, n) IN IF back THEN [i \in 1..Len(b) |-> RNeg(b[i])] ELSE b
\* a depth-aware submodule appends the time, a data-control one the initial state of the call
WithTime(rows, t) == [b \in 1..Len(rows) |-> Append(rows[b], t)]
WithControl(rows, c) == [b \in 1..Len(rows) |-> rows[b] \o c[b]]
=============================================================================
