------------------------------ MODULE TraceGuard ------------------------------
(* Validation of parameters and data (C20).                                  *)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)
VARIABLES ci, done, err
vars == <<ci, done, err>>
Raw == Cases[ci]
E(what) == {<<"C20", what>>}

ParamOK(v) == ~NIsNaN(v) /\ ~(v \prec Zero)
BadY(y) == \E i \in DOMAIN y : NIsNaN(y[i])
BadW(w) == \E i \in DOMAIN w : NIsNaN(w[i]) \/ w[i] \prec Zero
\* invalid targets or weights anywhere: an error.  A NaN feature under another
\* missing marker: anything but success.
MustError == \/ BadY(Raw.y) \/ BadW(Raw.w)
             \/ \E e \in DOMAIN Raw.evals : BadY(Raw.evals[e].y) \/ BadW(Raw.evals[e].w)
StrayNaN == ~NIsNaN(Raw.missing) /\ \E i \in DOMAIN Raw.x : NIsNaN(Raw.x[i])

Judge ==
  CASE Raw.kind = "new" ->
         LET bad == {f \in DOMAIN Raw.vals : ~ParamOK(Raw.vals[f])} IN
         IF bad = {} THEN (IF Raw.st # "ok" THEN E(<<"valid parameters rejected", Raw.vals>>) ELSE {})
         ELSE IF Raw.st # "error" THEN E(<<"invalid parameter accepted", bad, [f \in bad |-> Raw.vals[f]]>>)
         ELSE IF \A i \in DOMAIN Raw.named : Raw.named[i] \notin bad
              THEN E(<<"error does not name", bad>>) ELSE {}
    [] Raw.kind = "fit" ->
         IF MustError THEN (IF Raw.st # "error" THEN E(<<"invalid data", Raw.st>>) ELSE {})
         ELSE IF StrayNaN THEN (IF Raw.st = "ok" THEN E("NaN feature trained on silently") ELSE {})
         ELSE IF Raw.st # "ok" THEN E(<<"valid data rejected", Raw.st, Raw.msg>>) ELSE {}
    [] Raw.kind = "score" ->
         LET silent == {i \in DOMAIN Raw.what : Raw.what[i].st = "ok"} IN
         IF silent # {} THEN E(<<"NaN scored silently", {Raw.what[i].op : i \in silent}>>) ELSE {}
    [] Raw.kind = "extreme" ->
         IF Raw.st # "ok" THEN E(<<"training valid input did not finish", Raw.st>>) ELSE {}

Init == ci \in 1..Len(Cases) /\ done = FALSE /\ err = {}
Next == IF done THEN UNCHANGED vars ELSE done' = TRUE /\ err' = Judge /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
