------------------------------ MODULE TraceSave ------------------------------
(* Writing and reading models (C15): one step per recorded experiment.       *)
EXTENDS Store, Num

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)
VARIABLES ci, k, err
vars == <<ci, k, err>>
Raw == Cases[ci]
E(what) == {<<"C15", what>>}
Diff(a, b) == {f \in DOMAIN a : f \notin DOMAIN b \/ a[f] # b[f]}

Judge(x) ==
  CASE x.kind \in {"json", "file"} ->
         IF x.st # "ok" THEN E(<<x.kind, "a written model does not load", x.st>>)
         ELSE UNION {
           IF x.got # Read(Raw.orig) THEN E(<<x.kind, "differs after loading", Diff(Raw.orig, x.got)>>) ELSE {},
           IF x.redump # x.dump THEN E(<<x.kind, "serialises differently after loading">>) ELSE {},
           IF x.preds # x.preds0 \/ x.preds = "panic" THEN E(<<x.kind, "predicts differently after loading">>) ELSE {}}
    [] x.kind \in {"truncated", "unreadable", "unwritable", "unparsable"} ->
         IF x.st # "error" THEN E(<<"not reported as an error", x>>) ELSE {}
    [] x.kind = "without" ->
         IF HasDefault(x.field)
         THEN IF x.st # "ok" THEN E(<<"older model without", x.field, "does not load">>)
              ELSE IF x.got # ReadWithout(Raw.orig, x.field)
              THEN E(<<"older model without", x.field, "differs in", Diff(ReadWithout(Raw.orig, x.field), x.got)>>)
              ELSE {}
         ELSE IF x.st # "error" THEN E(<<"model without", x.field, "was accepted">>) ELSE {}

Init == ci \in 1..Len(Cases) /\ k = 0 /\ err = {}
Begin == k = 0 /\ k' = 1 /\ UNCHANGED ci /\ err' = IF Raw.st # "ok" THEN E(<<"no model to save", Raw.st>>) ELSE {}
Step == /\ k >= 1 /\ err = {} /\ k <= Len(Raw.exps) /\ k' = k + 1 /\ UNCHANGED ci
        /\ err' = Judge(Raw.exps[k])
Stay == (err # {} \/ (k >= 1 /\ k > Len(Raw.exps))) /\ UNCHANGED vars
Next == Begin \/ Step \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
