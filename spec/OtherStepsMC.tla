---------------------------- MODULE OtherStepsMC ----------------------------
(* Design checks.  Leapfrog: from any state, any sequence of steps is undone by the same steps with negated lengths in
   reverse order; started with the consistent velocity it is exact on the coordinates of weight at most two
   (second order) and, for fields of time alone of degree one, keeps the velocity consistent.  A zero correction
   network leaves the base step.  For linear fields the implicit step is the inverse of the explicit step of the reflected field. *)
EXTENDS OtherSteps, Flow, FiniteSets, TLC
CONSTANT Depth
VARIABLES f, s, stack, start
vars == <<f, s, stack, start>>
Mon(c, m, e) == [c |-> c, m |-> m, e |-> e]
Fields == { <<<<Mon("1", 0, <<>>)>>, <<Mon("1", 0, <<1>>)>>>>,
            <<<<Mon("1", 1, <<0, 1>>)>>, <<Mon("-1/2", 0, <<2>>), Mon("3", 2, <<>>)>>>>,
            <<<<Mon("2", 0, <<1, 1>>)>>, <<Mon("1", 1, <<>>)>>>>,
            <<<<Mon("-1", 0, <<1>>)>>, <<Mon("1", 0, <<0, 3>>)>>>> }
Hs == {"1/2", "-1/4", "1"}
Vals == {"0", "1", "-1/2"}
Init == /\ f \in Fields
        /\ \E a, b, c \in Vals : s = [t |-> a, x |-> <<b, c>>, v |-> <<c, a>>]
        /\ stack = <<>> /\ start = s
Forward(h) == /\ Len(stack) < Depth
              /\ LET q == Alf(f, s.t, s.x, s.v, h) IN s' = [t |-> RAdd(s.t, h), x |-> q.x, v |-> q.v]
              /\ stack' = Append(stack, [h |-> h, s |-> s]) /\ UNCHANGED <<f, start>>
Next == \E h \in Hs : Forward(h)
Spec == Init /\ [][Next]_vars
Undone == stack = <<>> \/ LET top == stack[Len(stack)]
                              q == Alf(f, s.t, s.x, s.v, RNeg(top.h)) IN q.x = top.s.x /\ q.v = top.s.v
\* weight-two systems: x' = 1, y' = x (or t): second-order exactness from consistent velocities
W2 == { <<[c |-> "1", m |-> 0, e |-> <<>>], [c |-> "2", m |-> 0, e |-> <<1>>]>>, <<[c |-> "3", m |-> 1, e |-> <<>>]>> }
AsMap(sys) == [i \in 1..Len(sys) |-> <<sys[i]>>]
Second == stack = <<>> => \A sys \in W2, h \in Hs : LET y0 == [i \in 1..Len(sys) |-> s.x[i]] g == AsMap(sys) IN
             Alf(g, s.t, y0, MapVal(g, s.t, y0), h).x = At(Flow(sys, s.t, y0), h)
ZeroNet == stack = <<>> => \A p \in {1, 2, 4}, h \in Hs : HyperStep(Base(p, f, s.t, s.x, h), <<<<>>, <<>>>>, p, s.t, s.x, h) = Base(p, f, s.t, s.x, h)
Lin == {<<<<Mon("1/2", 0, <<1>>)>>, <<Mon("-1", 0, <<1>>), Mon("1", 0, <<0, 1>>)>>>>}
Implicit == stack = <<>> => \A g \in Lin, h \in {"1/2", "-1/4"} :
              \* y solves the implicit step from x exactly when the explicit step with -h takes y to x
              LET y == s.x  x == Euler(g, s.t, y, RNeg(h)) IN \A i \in 1..2 : ImplicitResidual(g, s.t, x, y, h)[i] = "0"
=============================================================================
