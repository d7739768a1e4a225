------------------------------ MODULE TreeScen ------------------------------
(* The tree systems for the drivers: for W = 1..MaxW one coordinate per monomial in the time and in
   the earlier coordinates whose weight is W - 1, i.e. one per rooted tree of W nodes whose
   leaves are unit coordinates or the time.                                             *)
EXTENDS Flow, FiniteSets, SequencesExt, Json, IOUtils, TLC
RECURSIVE Mons(_, _)
\* exponent sequences over the coordinates of weights ws with total weight exactly rem
Mons(ws, rem) == IF ws = <<>> THEN IF rem = 0 THEN {<<>>} ELSE {}
                 ELSE UNION {{<<k>> \o q : q \in Mons(Tail(ws), rem - k * Head(ws))} : k \in 0..(rem \div Head(ws))}
RECURSIVE Build(_, _, _)
Build(w, maxw, sys) ==
  IF w > maxw THEN sys
  ELSE LET ws == Weights(sys)
           new == UNION {{[c |-> "1", m |-> m, e |-> q] : q \in Mons(ws, w - 1 - m)} : m \in 0..(w - 1)}
       IN Build(w + 1, maxw, sys \o SetToSeq(new))
System(w) == Build(1, w, <<>>)
VARIABLE done
Init == done = JsonSerialize(IOEnv.SCEN_FILE, [sys |-> [w \in 1..5 |-> System(w)]])
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
