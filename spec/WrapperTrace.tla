----------------------------- MODULE WrapperTrace -----------------------------
(* Judges recorded histories of problem and model objects (C21).  A run: pairs (does the object return times), table: what the functional solver returned for
   [span, save, args, how] (how: "solve", or "trajectory", which interpolates nothing), ev: a sequence of
     [ev |-> "assign", span]                                             a span is assigned to the object, 0: none
     [ev |-> "call", how, span, save, args, out, t, x, seen, counted]    a call, its outcome ("pair" or "states"), the evaluations the field has seen and those the object counted
     [ev |-> "back", sens, own, bymain, byadj, seen, counted]            a backward pass: steps taken by the solver and by the adjoint's own solver (own: there is one)
     [ev |-> "tighter", name, loose, tight]                              evaluations with a loose and with a tight setting of the option
   Texts of t and x name type, shape and all bits. *)
EXTENDS Wrapper, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, assigned, verdict
vars == <<r, k, assigned, verdict>>
R == Runs[r]
V == R.ev[k]
Rows(s) == {i \in 1..Len(R.table) : R.table[i].span = s.span /\ R.table[i].save = s.save /\ R.table[i].args = s.args /\ R.table[i].how = s.how}
CallClause ==
  LET s == Stands(V.how, V.span, assigned, V.save, V.args)
      f == R.table[CHOOSE i \in Rows(s) : TRUE]
  IN CASE Rows(s) = {} -> "no functional solve is known for this call"
       [] V.out # (IF Pair(V.how, R.pairs) THEN "pair" ELSE "states") -> "what the call returns"
       [] V.out = "pair" /\ V.t # f.t -> "the times differ from those of the functional solver"
       [] V.x # f.x -> "the states differ from those of the functional solver"
       [] V.counted # V.seen -> "evaluations are not counted exactly once"
       [] OTHER -> ""
BackClause ==
  CASE V.sens = "autograd" /\ V.bymain + V.byadj > 0 -> "back-propagation takes solver steps"
    [] V.sens # "autograd" /\ V.own /\ (V.bymain > 0 \/ V.byadj = 0) -> "the backward pass does not use the adjoint's solver"
    [] V.sens # "autograd" /\ ~V.own /\ V.bymain = 0 -> "the backward pass does not use the solver"
    [] V.counted # V.seen -> "evaluations of the backward pass are not counted exactly once"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ k = 1 /\ assigned = 0 /\ verdict = ""
More == verdict = "" /\ k <= Len(R.ev) /\ UNCHANGED r
Judge(c) == verdict' = c /\ k' = IF c = "" THEN k + 1 ELSE k
Assign == More /\ V.ev = "assign" /\ assigned' = V.span /\ Judge("")
Call == More /\ V.ev = "call" /\ Judge(CallClause) /\ UNCHANGED assigned
Back == More /\ V.ev = "back" /\ Judge(BackClause) /\ UNCHANGED assigned
Tighter == More /\ V.ev = "tighter" /\ Judge(IF V.tight <= V.loose THEN "an option has no effect: " \o V.name ELSE "") /\ UNCHANGED assigned
End == verdict = "" /\ k > Len(R.ev) /\ verdict' = "ok" /\ UNCHANGED <<r, k, assigned>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k, assigned>>
Next == Assign \/ Call \/ Back \/ Tighter \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
