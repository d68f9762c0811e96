----------------------------- MODULE TracePyLife -----------------------------
(* Trace specification for histories of a Python booster (C22; the fits also  *)
(* C13, the copies also C15).  After every step the object must show the      *)
(* booster that the action of PyLife leads to; a fit comes with what a fresh  *)
(* booster of the same parameters gave on the same data.                      *)
EXTENDS PyLife, Num

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, k, b, kept, err
vars == <<ci, k, b, kept, err>>

Raw == Cases[ci]
E(ps, what) == {<<p, what>> : p \in ps}
NoModel == [trees |-> Raw.init.trees, n |-> 0, hist |-> "none", best |-> -1, preds |-> <<Raw.init.preds>>,
            base |-> Raw.init.base, imp |-> "none"]
Uses(x) == IF x.pi = -1 THEN x.mdl.n ELSE x.pi
ToMeta(m) == {<<m[i][1], m[i][2]>> : i \in DOMAIN m}

Mismatch(x, o) ==
  {f \in {"base", "trees", "n", "hist", "best", "pi", "preds", "meta", "par", "names", "nf", "imp", "stored"} :
     CASE f = "base" -> o.base # x.base
       [] f = "trees" -> o.trees # x.mdl.trees
       [] f = "n" -> o.n # x.mdl.n
       [] f = "hist" -> o.hist # x.mdl.hist
       [] f = "best" -> o.best # x.mdl.best
       [] f = "pi" -> o.pi # x.pi
       [] f = "meta" -> ToMeta(o.meta) # x.meta
       [] f = "par" -> o.par # x.par
       \* the columns and what is told by column, once fitted
       [] f = "names" -> x.mdl.n > 0 /\ o.names # x.feat.names
       [] f = "nf" -> x.mdl.n > 0 /\ o.nf # x.feat.n
       [] f = "imp" -> x.mdl.n > 0 /\ o.imp # x.mdl.imp
       \* what its saved file holds
       [] f = "stored" -> x.mdl.n > 0 /\ o.stored # [par |-> x.par, names |-> x.feat.names, imp |-> x.mdl.imp,
                                                     preds |-> x.mdl.preds[Uses(x) + 1]]
       [] f = "preds" -> IF x.mdl.n = 0 THEN o.preds # o.preds0 ELSE o.preds # x.mdl.preds[Uses(x) + 1]}

Init == ci \in 1..Len(Cases) /\ k = 0 /\ err = {} /\ b = <<>> /\ kept = <<>>

Begin ==
  /\ k = 0 /\ k' = 1 /\ UNCHANGED <<ci, kept>>
  /\ IF Raw.st # "ok"
     THEN err' = E({"C22"}, <<"history did not finish", Raw.st>>) /\ UNCHANGED b
     ELSE /\ b' = [PyNew(Raw.par0, Raw.init.base) EXCEPT !.mdl = NoModel]
          /\ err' = IF Mismatch(b', Raw.init) = {} THEN {} ELSE E({"C22"}, <<"new booster", Mismatch(b', Raw.init)>>)

Blank(x) == [x EXCEPT !.mdl = NoModel]
After(s) ==
  CASE s.op = "fit" /\ Fits(b.par, s.data) ->
         PyFitted(b, [trees |-> s.ref.trees, n |-> s.ref.n, hist |-> s.ref.hist, best |-> s.ref.best,
                      preds |-> s.ref.preds, base |-> s.ref.base, imp |-> s.ref.imp],
                  s.ref.base, s.ref.best, [names |-> s.data.names, n |-> s.data.n])
    [] s.op = "fit" -> Rejected(b)
    [] s.op = "bad" -> Rejected(b)
    [] s.op = "set" -> Blank(Reconstructed(b, [f \in DOMAIN b.par |-> IF f \in DOMAIN s.par THEN s.par[f] ELSE b.par[f]], b.base))
    [] s.op = "clone" -> Blank(Cloned(b))
    [] s.op = "pi" -> WithPi(b, s.pi)
    [] s.op = "meta" -> WithMeta(b, s.key, s.value)
    [] s.op = "copy" -> Copied(b)

Props(s) == CASE s.op \in {"fit", "bad"} -> {"C22", "C13"}
              [] s.op = "copy" -> {"C22", "C15"}
              [] OTHER -> {"C22"}

Step ==
  /\ k >= 1 /\ err = {} /\ k <= Len(Raw.steps) /\ UNCHANGED ci
  /\ LET s == Raw.steps[k]
         reject == s.op = "bad" \/ (s.op = "fit" /\ ~Fits(b.par, s.data))
     IN IF s.op = "fit" /\ ~reject /\ s.ref.st # "ok"
        THEN err' = E({"C22"}, <<"fresh fit failed", s.ref.st>>) /\ UNCHANGED <<b, k, kept>>
        ELSE /\ b' = After(s)
             /\ k' = k + 1
             /\ kept' = IF s.op \in {"copy", "clone"} THEN Append(kept, b) ELSE kept
             /\ LET bad == TLCEval(Mismatch(b', s.obs)) IN
                err' = UNION {
                  IF reject /\ s.st = "ok" THEN E(Props(s), <<"step", k, "was not rejected", s.name>>) ELSE {},
                  IF ~reject /\ s.st # "ok" THEN E(Props(s), <<"step", k, s.name, s.st>>) ELSE {},
                  IF bad # {} THEN E(Props(s), <<"step", k, s.name, "differs in", bad>>) ELSE {}}

\* the originals of copies and clones are as they were when they were left
Finish ==
  /\ k = Len(Raw.steps) + 1 /\ err = {} /\ k' = k + 1 /\ UNCHANGED <<ci, b, kept>>
  /\ err' = UNION {LET bad == Mismatch(kept[i], Raw.kept[i]) IN
                   IF bad = {} THEN {} ELSE E({"C22"}, <<"original of copy", i, "differs in", bad>>) : i \in DOMAIN kept}

Stay == (err # {} \/ k > Len(Raw.steps) + 1) /\ UNCHANGED vars
Next == Begin \/ Step \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == {e \in err : e[1] = CHECK \/ CHECK = "all"} = {}
=============================================================================
