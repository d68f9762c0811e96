------------------------------ MODULE TraceBoost ------------------------------
(* Trace specification for fits with evaluation sets (C12).  One step per   *)
(* history row: the metric of every set after that many trees, and the      *)
(* early-stopping machine driven by the last set's logged metric.           *)
EXTENDS Boost

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, phase, score, err
vars == <<ci, phase, score, err, it, best, bestm, stopped>>

Raw == Cases[ci]
NSets == Len(Raw.evals)
Metric == IF Raw.cfg.metric = "default" THEN DefaultMetric(Raw.cfg.obj) ELSE Raw.cfg.metric
NTrees == Len(Raw.trees)
E(what) == {<<"C12", what>>}
Esr == IF NSets = 0 THEN -1 ELSE Raw.cfg.esr

Init ==
  /\ ci \in 1..Len(Cases) /\ phase = "start" /\ err = {} /\ score = <<>>
  /\ StopInit

Begin ==
  /\ phase = "start" /\ UNCHANGED <<ci, it, best, bestm, stopped>>
  /\ IF Raw.st # "ok"
     THEN phase' = "done" /\ err' = E(<<"training did not return", Raw.st>>) /\ UNCHANGED score
     ELSE /\ phase' = "run"
          /\ score' = [s \in 1..NSets |-> [r \in 1..Len(Raw.evals[s].y) |-> Raw.base]]
          /\ err' = UNION {
               IF NSets = 0 /\ Raw.hist # <<>> THEN E("history without evaluation data") ELSE {},
               IF NSets > 0 /\ Len(Raw.hist) # NTrees THEN E(<<"history rows", Len(Raw.hist), "trees", NTrees>>) ELSE {},
               IF \E k \in DOMAIN Raw.hist : Len(Raw.hist[k]) # NSets THEN E("history columns") ELSE {},
               IF NTrees > Raw.cfg.iters THEN E("more trees than iterations") ELSE {}}

Iterate ==
  /\ phase = "run" /\ err = {} /\ it < NTrees
  /\ UNCHANGED <<ci, phase>>
  /\ LET t == Raw.trees[it + 1]
         sc == TLCEval([s \in 1..NSets |-> LET e == Raw.evals[s] IN
                  [r \in 1..Len(e.y) |-> score[s][r] \oplus NodeAt(t, LeafOf(t, RowOf(e.x, r), Raw.cfg.missing)).w]])
         row == IF NSets = 0 THEN <<>> ELSE Raw.hist[it + 1]
         bad == {s \in 1..NSets : ~CloseRel(row[s], MetricOf(Metric, Raw.evals[s].y, sc[s], Raw.evals[s].w), NPow2(-36), NPow2(-40))}
     IN /\ score' = sc
        /\ IF stopped
           THEN /\ err' = E(<<"training went on after the stopping iteration", it - 1>>)
                /\ UNCHANGED <<best, bestm, stopped>> /\ it' = it + 1
           ELSE /\ StopStep(Esr, Maximised(Metric), IF NSets = 0 THEN NaN ELSE row[NSets])
                /\ err' = {<<"C12", <<"metric", Metric, "set", s, "iteration", it, row[s],
                             MetricOf(Metric, Raw.evals[s].y, sc[s], Raw.evals[s].w)>>>> : s \in bad}

Finish ==
  /\ phase = "run" /\ err = {} /\ it = NTrees
  /\ phase' = "done" /\ UNCHANGED <<ci, score, it, best, bestm, stopped>>
  /\ err' = UNION {
       IF ~stopped /\ NTrees # Raw.cfg.iters THEN E(<<"stopped early without reason", NTrees>>) ELSE {},
       IF Raw.best # best THEN E(<<"best iteration", Raw.best, best>>) ELSE {},
       IF Raw.pi # (IF best < 0 THEN -1 ELSE best + 1) THEN E(<<"prediction iteration", Raw.pi, best>>) ELSE {},
       \* predictions after training use exactly these trees
       LET m == [base |-> Raw.base, trees |-> Raw.trees, missing |-> Raw.cfg.missing,
                 pi |-> IF best < 0 THEN NTrees ELSE best + 1]
       IN IF \E s \in 1..NSets : \E r \in 1..Len(Raw.evals[s].y) :
               ~Close(Raw.evals[s].pred[r], Prediction(m, RowOf(Raw.evals[s].x, r)), PredScale(m) \otimes NPow2(-40))
          THEN E("predictions do not use the best iteration's trees") ELSE {}}

Stay == (phase = "done" \/ err # {}) /\ UNCHANGED vars
Next == Begin \/ Iterate \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
