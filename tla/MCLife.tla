------------------------------- MODULE MCLife -------------------------------
(* Closed model of Life over a small alphabet: checks the lifecycle          *)
(* properties and enumerates the operation sequences that are replayed into  *)
(* the library (one PrintT line per complete sequence).                      *)
EXTENDS Life

CONSTANTS Depth, Ops

VARIABLES b, hist, last
vars == <<b, hist, last>>

Par0 == [iters |-> 2, cmb |-> FALSE, ibs |-> TRUE, esr |-> FALSE, seed |-> 0]
NextIters(i) == CASE i = 2 -> 3 [] i = 3 -> 0 [] i = 0 -> 2
\* the model is a function of parameters, base score and data: its own name
ModelOf(par, base, d) ==
  [key |-> <<par, IF par.ibs THEN <<"init", d>> ELSE base, d>>, n |-> par.iters,
   best |-> IF par.esr /\ d # "d0" /\ par.iters > 0 THEN 0 ELSE -1]
FitWith(bb, d) == LET m == ModelOf(bb.par, bb.base, d) IN Fitted(bb, m, m.key[2], m.best)
HasTree(bb) == bb.mdl # Nothing /\ bb.mdl.n > 0

Apply(op, bb) ==
  CASE op = "fit0"  -> FitWith(bb, "d0")
    [] op = "fit1e" -> FitWith(bb, "d1e")
    [] op = "fit0e" -> FitWith(bb, "d0e")
    [] op \in {"badY", "badW", "badE", "badX"} -> Rejected(bb)
    [] op = "iters" -> WithParam(bb, "iters", NextIters(bb.par.iters))
    [] op = "cmb"   -> WithParam(bb, "cmb", ~bb.par.cmb)
    [] op = "ibs"   -> WithParam(bb, "ibs", ~bb.par.ibs)
    [] op = "esr"   -> WithParam(bb, "esr", ~bb.par.esr)
    [] op = "seed"  -> WithParam(bb, "seed", bb.par.seed + 1)
    [] op = "set"   -> bb
    [] op = "pi1"   -> WithPi(bb, 1)
    [] op = "pinone" -> WithPi(bb, -1)
    [] op = "meta"  -> WithMeta(bb, "k", "v")
    [] op \in {"json", "file"} -> Reloaded(bb)

Enabled(op) == op \in {"pi1"} => HasTree(b)

Init == b = NewBooster(Par0, <<"given">>) /\ hist = <<>> /\ last = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in Ops :
       /\ Enabled(op)
       /\ hist' = Append(hist, op)
       /\ b' = Apply(op, b)
       /\ last' = IF op \in {"fit0", "fit1e", "fit0e"} THEN <<b.par, b.base, b'.mdl.key[3]>> ELSE last
Spec == Init /\ [][Next]_vars

\* whatever happened before, the model is the one of a fresh booster
FitIsFresh == last # <<>> => b.mdl = FitWith(NewBooster(last[1], last[2]), last[3]).mdl
PiInRange == b.pi # -1 => HasTree(b) /\ b.pi >= 1 /\ b.pi <= b.mdl.n
RejectedKeeps == [][Len(hist') > 0 /\ hist'[Len(hist')] \in {"badY", "badW", "badE", "badX"} => b' = b]_vars
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Joined(Tail(s))
Emit == Len(hist) = Depth => PrintT("OPS" \o Joined(hist))
=============================================================================
