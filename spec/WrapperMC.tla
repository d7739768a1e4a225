------------------------------ MODULE WrapperMC ------------------------------
(* Histories of a model object: spans are assigned, calls are made; a call resolves its span, makes its evaluations one by one through the counting wrapper and answers.
   The wrapper's only memory is the assigned span and the count. *)
EXTENDS Wrapper
CONSTANTS Spans, Saves, MaxEvals, MaxCalls
VARIABLES assigned, call, phase, evals, nfe, total, answers, calls
vars == <<assigned, call, phase, evals, nfe, total, answers, calls>>
Hows == {"forward", "trajectory", "odeint"}
Calls == [how : Hows, given : Spans \cup {0}, save : Saves]
NoCall == [how |-> "forward", given |-> 0, save |-> 0]
Cost(s) == 1 + ((s.span + s.save) % MaxEvals)   \* evaluations of the functional solve
Init == assigned = 0 /\ call = NoCall /\ phase = "idle" /\ evals = 0 /\ nfe = 0 /\ total = 0 /\ answers = {} /\ calls = 0
Assign == phase = "idle" /\ \E s \in Spans \cup {0} : s # assigned /\ assigned' = s /\ UNCHANGED <<call, phase, evals, nfe, total, answers, calls>>
Call == phase = "idle" /\ calls < MaxCalls /\ \E c \in Calls : (c.how = "forward" \/ c.given # 0) /\ call' = [c EXCEPT !.given = Span(c.given, assigned)] /\ phase' = "run" /\ evals' = 0
        /\ answers' = {} /\ calls' = calls + 1 /\ UNCHANGED <<assigned, nfe, total>>
This == Stands(call.how, call.given, assigned, call.save, 0)
Evaluate == phase = "run" /\ evals < Cost(This) /\ evals' = evals + 1 /\ nfe' = nfe + 1 /\ total' = total + 1 /\ UNCHANGED <<assigned, call, phase, answers, calls>>
Answer == phase = "run" /\ evals = Cost(This) /\ answers' = {This} /\ phase' = "idle" /\ UNCHANGED <<assigned, call, evals, nfe, total, calls>>
Next == Assign \/ Call \/ Evaluate \/ Answer
Spec == Init /\ [][Next]_vars
Counted == nfe = total
Functional == \A a \in answers : a.span \in Spans \cup {Unit} /\ (call.how = "trajectory" => a.save = 0) /\ a.span = call.given
Resolved == phase = "run" => (call.given \in Spans \/ (call.given = Unit /\ assigned = 0))
=============================================================================
