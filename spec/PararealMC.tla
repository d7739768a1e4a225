----------------------------- MODULE PararealMC -----------------------------
(* Every pair of maps fine, coarse on the integers modulo M, every initial guess: after k rounds the first k + 1 points are the
   sequential fine solution, and with as many rounds as intervals all of them, and then they stay.  The derivative
   rule is checked with an arbitrary linearised map: slope[x] * difference.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M, N
VARIABLES fine, coarse, slope, rule, B, k
vars == <<fine, coarse, slope, rule, B, k>>
Z == 0..(M - 1)
P == INSTANCE Parareal WITH Fine <- LAMBDA x : fine[x], Coarse <- LAMBDA x : coarse[x], DFine <- LAMBDA x, v : (slope[x] * v) % M,
                            Add <- LAMBDA a, b : (a + b) % M, Sub <- LAMBDA a, b : (a - b) % M
Init == /\ fine \in [Z -> Z] /\ B \in [1..N -> Z] /\ k = 0
        /\ \/ rule = "zero" /\ coarse \in [Z -> Z] /\ slope = [x \in Z |-> 0]
           \/ rule = "newton" /\ slope \in [Z -> {0, 1}] /\ coarse = [x \in Z |-> 0]
Round == k < N + 1 /\ B' = (IF rule = "zero" THEN P!ZeroRound(B) ELSE P!NewtonRound(B)) /\ k' = k + 1 /\ UNCHANGED <<fine, coarse, slope, rule>>
Spec == Init /\ [][Round]_vars
ExactUpTo == \A m \in 1..N : m <= k + 1 => B[m] = P!Sequential(B[1], N)[m]
Stays == [][k >= N - 1 => B' = B]_vars
FirstKept == [][B'[1] = B[1]]_vars
=============================================================================
