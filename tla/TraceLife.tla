------------------------------ MODULE TraceLife ------------------------------
(* Trace specification for operation histories (C13; reloading also C15).    *)
(* Each recorded step is one action of Life; what the library shows after it *)
(* must be the booster the action leads to.  A fit comes with what a fresh   *)
(* booster of the same parameters gave on the same data.                     *)
EXTENDS Life, Num

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, k, b, err
vars == <<ci, k, b, err>>

Raw == Cases[ci]
E(p, what) == {<<p, what>>}
ToMeta(m) == {<<m[i][1], m[i][2]>> : i \in DOMAIN m}
NoModel == [trees |-> Raw.init.trees, n |-> 0, hist |-> "none", best |-> -1, preds |-> <<Raw.init.preds>>,
            base |-> Raw.init.base, missing |-> Raw.init.par.missing]

\* what the library must show for booster x
Uses(x) == IF x.pi = -1 THEN x.mdl.n ELSE x.pi
Mismatch(x, o) ==
  {f \in {"base", "trees", "n", "hist", "best", "pi", "preds", "meta", "par"} :
     CASE f = "base" -> o.base # x.base
       [] f = "trees" -> o.trees # x.mdl.trees
       [] f = "n" -> o.n # x.mdl.n
       [] f = "hist" -> o.hist # x.mdl.hist
       [] f = "best" -> o.best # x.mdl.best
       [] f = "pi" -> o.pi # x.pi
       [] f = "meta" -> ToMeta(o.meta) # x.meta
       [] f = "par" -> o.par # x.par
       \* predictions, as long as base score and missing marker are those of the fit
       [] f = "preds" -> x.base = x.mdl.base /\ o.par.missing = x.mdl.missing /\ o.preds # x.mdl.preds[Uses(x) + 1]}

Init ==
  /\ ci \in 1..Len(Cases) /\ k = 0 /\ err = {} /\ b = <<>>

Begin ==
  /\ k = 0 /\ k' = 1 /\ UNCHANGED ci
  /\ IF Raw.st # "ok"
     THEN err' = E("C13", <<"history did not finish", Raw.st>>) /\ UNCHANGED b
     ELSE /\ b' = [NewBooster(Raw.init.par, Raw.init.base) EXCEPT !.mdl = NoModel]
          /\ err' = IF Mismatch(b', Raw.init) = {} THEN {} ELSE E("C13", <<"new booster", Mismatch(b', Raw.init)>>)

After(s) ==
  CASE s.op = "fit" -> Fitted(b, [trees |-> s.ref.trees, n |-> s.ref.n, hist |-> s.ref.hist, best |-> s.ref.best,
                                  preds |-> s.ref.preds, base |-> s.ref.base, missing |-> b.par.missing],
                              s.ref.base, s.ref.best)
    [] s.op = "bad" -> Rejected(b)
    [] s.op = "set" -> IF s.field = "base_score" THEN [b EXCEPT !.base = s.value] ELSE WithParam(b, s.field, s.value)
    [] s.op = "pi" -> WithPi(b, s.pi)
    [] s.op = "meta" -> WithMeta(b, s.key, s.value)
    [] s.op = "reload" -> Reloaded(b)

Step ==
  /\ k >= 1 /\ err = {} /\ k <= Len(Raw.steps) /\ UNCHANGED ci
  /\ LET s == Raw.steps[k]
         prop == IF s.op = "reload" THEN "C15" ELSE "C13"
     IN IF s.op = "fit" /\ s.ref.st # "ok"
        THEN err' = E("C13", <<"fresh fit failed", s.ref.st>>) /\ UNCHANGED <<b, k>>
        ELSE /\ b' = After(s)
             /\ k' = k + 1
             /\ LET bad == TLCEval(Mismatch(b', s.obs)) IN
                err' = UNION {
                  IF s.op = "bad" /\ s.st = "ok" THEN E("C13", <<"step", k, "invalid input was not rejected", s.name>>) ELSE {},
                  IF s.op # "bad" /\ s.st # "ok" THEN E(prop, <<"step", k, s.name, s.st>>) ELSE {},
                  IF bad # {} THEN E(prop, <<"step", k, s.name, "differs in", bad>>) ELSE {}}

Stay == (err # {} \/ k > Len(Raw.steps)) /\ UNCHANGED vars
Next == Begin \/ Step \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == {e \in err : e[1] = CHECK \/ CHECK = "all"} = {}
=============================================================================
