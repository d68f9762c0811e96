------------------------------ MODULE TraceObj ------------------------------
(* Trace specification for metrics, objectives and base scores (C19): each  *)
(* line is one call of the library with its answer.                         *)
EXTENDS Boost

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, done, err
vars == <<ci, done, err, it, best, bestm, stopped>>
Raw == Cases[ci]
E(what) == {<<"C19", what>>}
Rel == NPow2(-30)

MetricErrs ==
  LET want == MetricOf(Raw.name, Raw.y, Raw.s, Raw.w)
      ok(v) == CloseRel(v, want, Rel, NPow2(-40))
  IN UNION {
     IF ~ok(Raw.v) THEN E(<<"metric", Raw.name, Raw.v, want>>) ELSE {},
     IF ~ok(Raw.shuffled) THEN E(<<"metric depends on the row order", Raw.name, Raw.shuffled, want>>) ELSE {},
     IF Raw.max # Maximised(Raw.name) THEN E(<<"direction", Raw.name>>) ELSE {}}

ObjErrs ==
  LET D == DOMAIN Raw.y
      g(r) == Grad(Raw.obj, Raw.y[r], Raw.s[r], Raw.w[r])
      h(r) == Hess(Raw.obj, Raw.y[r], Raw.s[r], Raw.w[r])
      init == InitScore(Raw.obj, Raw.y, Raw.w)
  IN UNION {
     IF Len(Raw.g) # Len(Raw.y) \/ Len(Raw.h) # Len(Raw.y) THEN E("derivative length")
     ELSE {<<"C19", <<"gradient", r, Raw.g[r], g(r)>>>> : r \in {r \in D : ~CloseRel(Raw.g[r], g(r), NPow2(-20), NPow2(-140))}}
          \union {<<"C19", <<"hessian", r, Raw.h[r], h(r)>>>> : r \in {r \in D : ~CloseRel(Raw.h[r], h(r), NPow2(-20), NPow2(-140))}},
     IF ~CloseRel(Raw.init, init, Rel, NPow2(-40)) THEN E(<<"initial score", Raw.init, init>>) ELSE {}}

CmpErrs == IF Raw.v # Improves(Raw.max, Raw.a, Raw.b) THEN E(<<"comparison", Raw.a, Raw.b, Raw.max, Raw.v>>) ELSE {}

\* base score of a fit, and the default metric it records
FitErrs ==
  LET want == IF Raw.ibs THEN InitScore(Raw.obj, Raw.y, Raw.w) ELSE Raw.given
      s == [r \in DOMAIN Raw.y |-> Raw.base \oplus Raw.tree0]
  IN UNION {
     IF Raw.st # "ok" THEN E(<<"training did not return", Raw.st>>) ELSE {},
     IF Raw.st = "ok" /\ ~CloseRel(Raw.base, want, Rel, NPow2(-40)) THEN E(<<"base score", Raw.base, want>>) ELSE {},
     \* one stump without splits: its weight is one Newton step from the base score
     IF Raw.st = "ok"
     THEN LET G == NSum([r \in DOMAIN Raw.y |-> Grad(Raw.obj, Raw.y[r], Raw.base, Raw.w[r])])
              HH == NSum([r \in DOMAIN Raw.y |-> Hess(Raw.obj, Raw.y[r], Raw.base, Raw.w[r])])
              A == NSum([r \in DOMAIN Raw.y |-> NAbs(Grad(Raw.obj, Raw.y[r], Raw.base, Raw.w[r]))])
              w == NNeg(G \oslash (HH \oplus One))
          IN IF ~Close(Raw.tree0, w, (A \oslash (HH \oplus One)) \otimes NPow2(-18)) THEN E(<<"Newton step", Raw.tree0, w>>) ELSE {}
     ELSE {},
     IF Raw.st = "ok" /\ ~CloseRel(Raw.m, MetricOf(IF Raw.metric = "default" THEN DefaultMetric(Raw.obj) ELSE Raw.metric, Raw.y, s, Raw.w), Rel, NPow2(-40))
     THEN E(<<"recorded metric", Raw.metric, Raw.m, MetricOf(IF Raw.metric = "default" THEN DefaultMetric(Raw.obj) ELSE Raw.metric, Raw.y, s, Raw.w)>>) ELSE {}}

Init == ci \in 1..Len(Cases) /\ done = FALSE /\ err = {} /\ StopInit
Check ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<ci, it, best, bestm, stopped>>
  /\ err' = TLCEval(CASE Raw.kind = "metric" -> MetricErrs
                      [] Raw.kind = "obj" -> ObjErrs
                      [] Raw.kind = "cmp" -> CmpErrs
                      [] Raw.kind = "fit" -> FitErrs)
Stay == done /\ UNCHANGED vars
Next == Check \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
