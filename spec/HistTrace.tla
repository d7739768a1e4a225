------------------------------ MODULE HistTrace ------------------------------
(* Judges recorded histories of solves over shared objects (C11).  A run: ev, a sequence of
     [ev |-> "solve", key, fails, res, fresh, before, after]   a solve with the arguments named by key: what it returned, what fresh objects return for the same arguments,
                                                               and its inputs (initial state, span, save times, arguments, parameters) before and after
     [ev |-> "old", at, res]                                    the result of event `at`, read again after the whole history
     [ev |-> "batch", rows, alone]                              the rows of a batch and each of its samples solved on its own
   Values are exact: texts that name type, shape and all bits of a tensor.  The automaton is HistoryMC: a solve may fail half-way, and the memo remembers the result of every key. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, memo, verdict
vars == <<r, k, memo, verdict>>
R == Runs[r]
V == R.ev[k]
SolveClause ==
  CASE V.before # V.after -> "a solve modifies its inputs"
    [] V.res # V.fresh -> "the result differs from the one of fresh objects"
    [] V.key \in DOMAIN memo /\ memo[V.key] # V.res -> "the result differs from the one of an earlier solve with the same arguments"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ k = 1 /\ memo = <<>> /\ verdict = ""
More == verdict = "" /\ k <= Len(R.ev) /\ UNCHANGED r
Judge(c) == verdict' = c /\ k' = IF c = "" THEN k + 1 ELSE k
Solve == More /\ V.ev = "solve" /\ ~V.fails /\ Judge(SolveClause) /\ memo' = [q \in DOMAIN memo \cup {V.key} |-> IF q = V.key THEN V.res ELSE memo[q]]
Abort == More /\ V.ev = "solve" /\ V.fails /\ Judge(IF V.before # V.after THEN "a failing solve modifies its inputs" ELSE "") /\ UNCHANGED memo
Old == More /\ V.ev = "old" /\ Judge(IF V.res # R.ev[V.at].res THEN "a later solve changes the result of an earlier one" ELSE "") /\ UNCHANGED memo
Batch == More /\ V.ev = "batch" /\ Judge(IF V.rows # V.alone THEN "samples of a batch influence each other" ELSE "") /\ UNCHANGED memo
End == verdict = "" /\ k > Len(R.ev) /\ verdict' = "ok" /\ UNCHANGED <<r, k, memo>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k, memo>>
Next == Solve \/ Abort \/ Old \/ Batch \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
