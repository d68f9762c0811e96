------------------------------- MODULE TracePy -------------------------------
(* The Python layer: equal data in different containers (C21), and what it   *)
(* must reject (C20).                                                        *)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)
VARIABLES ci, k, err
vars == <<ci, k, err>>
Raw == Cases[ci]
E(what) == {<<CHECK, what>>}

Valid == [
  objective_type |-> {"LogLoss", "SquaredLoss"}, grow_policy |-> {"DepthWise", "LossGuide"},
  evaluation_metric |-> {"None", "AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError"},
  sample_method |-> {"None", "goss", "Goss", "random", "Random"},
  missing_node_treatment |-> {"None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"},
  importance |-> {"Weight", "Gain", "Cover", "TotalGain", "TotalCover"},
  contribution |-> {"Weight", "weight", "Average", "average", "Shapley", "BranchDifference", "branchdifference",
                    "branch-difference", "MidpointDifference", "midpointdifference", "midpoint-difference",
                    "ModeDifference", "modedifference", "mode-difference", "ProbabilityChange", "probabilitychange",
                    "probability-change"},
  constraint |-> {"-1", "0", "1"}]

BadY(y) == \E i \in DOMAIN y : NIsNaN(y[i])
BadW(w) == \E i \in DOMAIN w : NIsNaN(w[i]) \/ w[i] \prec Zero
StrayNaN == ~NIsNaN(Raw.missing) /\ \E i \in DOMAIN Raw.x : NIsNaN(Raw.x[i])

Steps == IF Raw.kind = "same" THEN Len(Raw.vars) ELSE 1
Judge(i) ==
  CASE Raw.kind = "same" ->
         LET ref == Raw.vars[1] v == Raw.vars[i] IN
         IF v.st # "ok" THEN E(<<"refused", v.how, v.st>>)
         ELSE LET bad == {f \in DOMAIN ref.obs : f \notin DOMAIN v.obs \/ v.obs[f] # ref.obs[f]} IN
              IF ref.st = "ok" /\ bad # {} THEN E(<<"differs from a C array", v.how, bad>>) ELSE {}
    [] Raw.kind = "option" ->
         IF Raw.val \in Valid[Raw.opt] /\ Raw.st # "ok" THEN E(<<"valid option refused", Raw>>)
         ELSE IF Raw.val \notin Valid[Raw.opt] /\ Raw.st # "ValueError" THEN E(<<"unknown option accepted", Raw>>) ELSE {}
    [] Raw.kind = "float" ->
         IF NIsNaN(Raw.val) \/ Raw.val \prec Zero
         THEN IF Raw.st # "ValueError" THEN E(<<"invalid parameter accepted", Raw>>)
              ELSE IF ~Raw.named THEN E(<<"error does not name the parameter", Raw>>) ELSE {}
         ELSE IF Raw.st # "ok" THEN E(<<"valid parameter refused", Raw>>) ELSE {}
    [] Raw.kind = "data" ->
         IF BadY(Raw.y) \/ BadW(Raw.w) \/ BadY(Raw.ey) \/ BadW(Raw.ew) \/ StrayNaN
         THEN IF Raw.st # "ValueError" THEN E(<<"invalid data", Raw.st>>) ELSE {}
         ELSE IF Raw.st # "ok" THEN E(<<"valid data refused", Raw.msg>>) ELSE {}

Init == ci \in 1..Len(Cases) /\ k = 1 /\ err = {}
Step == k <= Steps /\ err = {} /\ err' = Judge(k) /\ k' = k + 1 /\ UNCHANGED ci
Stay == (k > Steps \/ err # {}) /\ UNCHANGED vars
Next == Step \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
