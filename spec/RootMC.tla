------------------------------- MODULE RootMC -------------------------------
(* Broyden iterations on every invertible linear map with small integer entries, from every start, with every small
   integer initial estimate: the secant equation, one-step solution from the true inverse, and termination
   within twice the dimension for both updates. *)
EXTENDS Root, FiniteSets, TLC
CONSTANTS Size
VARIABLES A, b, z, J, m, k, exact
vars == <<A, b, z, J, m, k, exact>>
S == {ToString(i) : i \in {-Size, 1}} \cup {"0"}
Mats == {<<<<a, c>>, <<d, e>>>> : a, c, d, e \in S}
G(x) == VAdd(MatVec(A, x), b)
Zero(v) == \A i \in 1..Len(v) : REq(v[i], 0)
Init == /\ A \in {M \in Mats : ~REq(Det(M), 0)} /\ b \in {<<"1", "0">>, <<"2", "-1">>} /\ z = <<"0", "1">> /\ m \in {"broyden", "broyden_fast"} /\ k = 0
        /\ J \in {M \in Mats : ~REq(Det(M), 0)} \cup {Inverse(A)}
        /\ exact = (J = Inverse(A))
DZ == VScale(-1, Direction(J, G(z)))
DG == VSub(G(VAdd(z, DZ)), G(z))
Solved == Zero(G(z))
Step == /\ ~Solved /\ k < 5 /\ z' = VAdd(z, DZ) /\ k' = k + 1
        /\ ~REq(Den(m, J, DZ, DG, 0), 0) /\ J' = Update(m, J, DZ, DG, 0)
        /\ UNCHANGED <<A, b, m, exact>>
Spec == Init /\ [][Step]_vars
Secant == [][MatVec(J', DG) = DZ]_vars
InverseIsInverse == [i \in 1..2 |-> MatVec(A, [j \in 1..2 |-> Inverse(A)[j][i]])] = <<<<"1", "0">>, <<"0", "1">>>>
OneStep == exact /\ k >= 1 => Solved

Singular == REq(Det(J), 0)
Finite == k >= 4 => Solved \/ Singular
=============================================================================
