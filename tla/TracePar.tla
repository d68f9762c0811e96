------------------------------ MODULE TracePar ------------------------------
(* Runs of the same training on pools of different size, with and without    *)
(* parallelism, in two processes, and with another seed (C14).               *)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS TraceFile, CHECK, TraceFile2
Cases == NLoad(TraceFile)
Again == NLoad(TraceFile2)

VARIABLES ci, j, err
vars == <<ci, j, err>>
Raw == Cases[ci]
E(what) == {<<"C14", what>>}
Fields == {"st", "trees", "base", "hist", "best", "preds", "leaf", "contribs", "imp"}
\* where do two runs differ?  partial dependence may be summed in another order
Differ(a, b) ==
  IF a.st # "ok" \/ b.st # "ok" THEN (IF a.st = "ok" /\ b.st = "ok" THEN {} ELSE {"st"})
  ELSE {f \in Fields : a[f] # b[f]}
       \cup (IF \E q \in DOMAIN a.pd : ~CloseRel(a.pd[q], b.pd[q], NPow2(-40), NPow2(-40)) THEN {"pd"} ELSE {})
Sampling == Raw.sm # "None" \/ Raw.cs # One

Init == ci \in 1..Len(Cases) /\ j = 0 /\ err = {}
\* one step per run: compare it with the first one
Begin == /\ j = 0 /\ j' = 1 /\ UNCHANGED ci
         /\ err' = IF Raw.st # "ok" \/ Again[ci].st # "ok" THEN E(<<"did not finish", Raw.st, Again[ci].st>>) ELSE {}
Compare ==
  /\ j >= 1 /\ err = {} /\ j <= Len(Raw.runs) /\ j' = j + 1 /\ UNCHANGED ci
  /\ LET ref == Raw.runs[1]
         run == Raw.runs[j]
         twin == Again[ci].runs[j]
         same == run.seed = ref.seed \/ ~Sampling
         bad == TLCEval(IF same THEN Differ(ref.d, run.d) ELSE {})
         bad2 == TLCEval(Differ(run.d, twin.d))
     IN err' = UNION {
          IF bad # {} THEN E(<<"threads", run.threads, "parallel", run.parallel, "seed", run.seed, "differs from 1 thread in", bad>>) ELSE {},
          IF bad2 # {} THEN E(<<"threads", run.threads, "parallel", run.parallel, "differs between two processes in", bad2>>) ELSE {}}
Stay == (err # {} \/ (j >= 1 /\ j > Len(Raw.runs))) /\ UNCHANGED vars
Next == Begin \/ Compare \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
