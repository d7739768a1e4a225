----------------------------- MODULE AdapterTrace -----------------------------
(* Judges recorded histories of wrapped vector fields (C12).  A run: order, skip (leading coordinates that are not data), ev: a sequence of
     [ev |-> "solve", x]                        a call starts from the rows x
     [ev |-> "ask", t, x, args, back]           an evaluation is asked for
     [ev |-> "sub", kind, x, y]                 a "depth" or "control" submodule turns rows x into y
     [ev |-> "seen", t, x, args, y]             the user's field was given t, x and args (<<>>: its signature has none) and answered y
     [ev |-> "loss", t, x, y]                   the integral loss was given t and x and answered one number per row
     [ev |-> "answer", y]                       what the wrapper answered *)
EXTENDS Adapter, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, k, x0, ask, seen, loss, verdict
vars == <<r, k, x0, ask, seen, loss, verdict>>
R == Runs[r]
V == R.ev[k]
Data(x) == [b \in 1..Len(x) |-> SubSeq(x[b], R.skip + 1, Len(x[b]))]
T == TimeOf(ask[1].t, ask[1].back)
SubClause ==
  CASE ask = <<>> -> "a submodule runs outside an evaluation"
    [] V.kind = "depth" /\ V.y # WithTime(V.x, T) -> "the time of a depth-aware submodule"
    [] V.kind = "control" /\ V.y # WithControl(V.x, Data(x0)) -> "the input of a data-control submodule"
    [] OTHER -> ""
SeenClause ==
  CASE ask = <<>> -> "the field runs outside an evaluation"
    [] seen # <<>> -> "the field runs twice in an evaluation"
    [] V.t # <<>> /\ V.t[1] # T -> "the time the field sees"
    [] V.x # Data(ask[1].x) -> "the state the field sees"
    [] V.args # <<>> /\ V.args[1] # ask[1].args -> "the arguments the field sees"
    [] OTHER -> ""
LossClause ==
  CASE ask = <<>> -> "the loss runs outside an evaluation"
    [] V.t # T -> "the time the loss sees"
    [] V.x # [b \in 1..Len(ask[1].x) |-> Tail(ask[1].x[b])] -> "the state the loss sees"
    [] OTHER -> ""
AnswerClause ==
  CASE seen = <<>> -> "an answer without the field"
    [] Len(V.y) # Len(ask[1].x) -> "the rows of the answer"
    [] R.loss /\ loss = <<>> -> "an answer without the integral loss"
    [] R.loss /\ \E b \in 1..Len(V.y) : V.y[b][1] # (IF ask[1].back THEN RNeg(loss[1].y[b]) ELSE loss[1].y[b]) -> "the rate of the integral loss"
    [] \E b \in 1..Len(V.y) : SubSeq(V.y[b], R.skip + 1, Len(V.y[b])) # Answer(Data(ask[1].x)[b], seen[1].y[b], R.order, ask[1].back) -> "the answer of the wrapper"
    [] OTHER -> ""
Init == r \in 1..Len(Runs) /\ k = 1 /\ x0 = <<>> /\ ask = <<>> /\ seen = <<>> /\ loss = <<>> /\ verdict = ""
More == verdict = "" /\ k <= Len(R.ev) /\ UNCHANGED r
Judge(c) == verdict' = c /\ k' = IF c = "" THEN k + 1 ELSE k
Solve == More /\ V.ev = "solve" /\ x0' = V.x /\ Judge("") /\ UNCHANGED <<ask, seen, loss>>
Ask == More /\ V.ev = "ask" /\ (IF ask # <<>> THEN Judge("nested evaluations") /\ UNCHANGED ask ELSE ask' = <<V>> /\ Judge("")) /\ seen' = <<>> /\ loss' = <<>> /\ UNCHANGED x0
Sub == More /\ V.ev = "sub" /\ Judge(SubClause) /\ UNCHANGED <<x0, ask, seen, loss>>
See == More /\ V.ev = "seen" /\ Judge(SeenClause) /\ seen' = <<V>> /\ UNCHANGED <<x0, ask, loss>>
Loss == More /\ V.ev = "loss" /\ Judge(LossClause) /\ loss' = <<V>> /\ UNCHANGED <<x0, ask, seen>>
Answered == More /\ V.ev = "answer" /\ Judge(AnswerClause) /\ ask' = <<>> /\ UNCHANGED <<x0, seen, loss>>
End == verdict = "" /\ k > Len(R.ev) /\ verdict' = (IF ask # <<>> THEN "an evaluation is not answered" ELSE "ok") /\ UNCHANGED <<r, k, x0, ask, seen, loss>>
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, k>>) /\ verdict' = "reported" /\ UNCHANGED <<r, k, x0, ask, seen, loss>>
Next == Solve \/ Ask \/ Sub \/ See \/ Loss \/ Answered \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
