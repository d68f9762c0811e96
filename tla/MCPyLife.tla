------------------------------ MODULE MCPyLife ------------------------------
(* Closed model of PyLife: checks the lifecycle properties over every         *)
(* history up to Depth and emits the histories to be replayed.                *)
EXTENDS PyLife

CONSTANTS Depth, Ops

VARIABLES b, kept, hist, last
vars == <<b, kept, hist, last>>

Par0 == [iters |-> 2, lr |-> 0, cmb |-> FALSE, esr |-> FALSE, ibs |-> TRUE, keys |-> "none", fim |-> 0]
D == [N0 |-> [id |-> "0", frame |-> FALSE, ev |-> FALSE], N1 |-> [id |-> "1", frame |-> FALSE, ev |-> FALSE],
      D0 |-> [id |-> "0", frame |-> TRUE, ev |-> FALSE], D1 |-> [id |-> "1", frame |-> TRUE, ev |-> FALSE],
      D0e |-> [id |-> "0", frame |-> TRUE, ev |-> TRUE], N1e |-> [id |-> "1", frame |-> FALSE, ev |-> TRUE]]
FeatOf(d) == [names |-> IF d.frame THEN <<"names", d.id>> ELSE <<>>, n |-> IF d.id = "0" THEN 2 ELSE 3]
ModelOf(par, base, d) ==
  [key |-> <<par, IF par.ibs THEN <<"init", d.id>> ELSE base, d.id, d.ev>>, n |-> par.iters,
   best |-> IF par.esr /\ d.ev THEN 0 ELSE -1]
FitWith(bb, d) ==
  IF ~Fits(bb.par, d) THEN Rejected(bb)
  ELSE LET m == ModelOf(bb.par, bb.base, d) IN PyFitted(bb, m, m.key[2], m.best, FeatOf(d))
IsFitted(bb) == bb.mdl # Nothing

FitOps == {"fitN0", "fitN1", "fitD0", "fitD1", "fitD0e", "fitN1e"}
DataOf(op) == CASE op = "fitN0" -> D.N0 [] op = "fitN1" -> D.N1 [] op = "fitD0" -> D.D0
                [] op = "fitD1" -> D.D1 [] op = "fitD0e" -> D.D0e [] op = "fitN1e" -> D.N1e
BadOps == {"badYN0", "badYD1", "badWD0", "badMD0", "setbad"}
SetPar(op, par) ==
  CASE op = "setiter" -> [par EXCEPT !.iters = IF @ = 2 THEN 3 ELSE 2]
    [] op = "setlr"   -> [par EXCEPT !.lr = 1 - @]
    [] op = "setcmb"  -> [par EXCEPT !.cmb = ~@]
    [] op = "setesr"  -> [par EXCEPT !.esr = ~@]
    [] op = "setibs"  -> [par EXCEPT !.ibs = ~@]
    [] op = "setfim"  -> [par EXCEPT !.fim = 1 - @]
    [] op = "connames" -> [par EXCEPT !.keys = "names"]
    [] op = "connums" -> [par EXCEPT !.keys = "numbers"]
    [] op = "connone" -> [par EXCEPT !.keys = "none"]
    [] op = "setnone" -> par
SetOps == {"setiter", "setlr", "setcmb", "setesr", "setibs", "setfim", "connames", "connums", "connone", "setnone"}
CopyOps == {"pickle", "copy", "deepcopy", "saveload"}

Apply(op, bb) ==
  CASE op \in FitOps -> FitWith(bb, DataOf(op))
    [] op \in BadOps -> Rejected(bb)
    [] op \in SetOps -> Reconstructed(bb, SetPar(op, bb.par), bb.base)
    [] op = "pi1" -> WithPi(bb, 1)
    [] op = "pinone" -> WithPi(bb, -1)
    [] op = "meta" -> WithMeta(bb, "k", "v")
    [] op = "clone" -> Cloned(bb)
    [] op \in CopyOps -> Copied(bb)

\* saving is for fitted boosters: before a fit the constraints by name have no columns
Enabled(op) == op \in {"pi1", "pinone", "saveload"} => IsFitted(b)

Init == b = PyNew(Par0, <<"given">>) /\ kept = {} /\ hist = <<>> /\ last = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in Ops :
       /\ Enabled(op)
       /\ hist' = Append(hist, op)
       /\ b' = Apply(op, b)
       /\ kept' = IF op \in CopyOps \cup {"clone"} THEN kept \cup {b} ELSE kept   \* the originals live on
       /\ last' = CASE op \in FitOps /\ Fits(b.par, DataOf(op)) -> <<b.par, b.base, DataOf(op)>>
                    [] op \in SetOps \cup {"clone"} -> <<>>
                    [] OTHER -> last
Spec == Init /\ [][Next]_vars

FitIsFresh == last # <<>> => LET f == FitWith(PyNew(last[1], last[2]), last[3]) IN b.mdl = f.mdl /\ b.feat = f.feat /\ b.base = f.base
Unfitted == last = <<>> => b.mdl = Nothing /\ b.pi = -1 /\ b.feat = NoFeat
PiInRange == b.pi # -1 => IsFitted(b) /\ b.pi >= 1 /\ b.pi <= b.mdl.n
RejectedKeeps == [][Len(hist') > 0 /\ hist'[Len(hist')] \in BadOps => b' = b]_vars
ParamsOnlySet == [][b'.par # b.par => hist'[Len(hist')] \in SetOps]_vars
KeptStay == [][kept \subseteq kept']_vars
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Joined(Tail(s))
Emit == Len(hist) = Depth => PrintT("OPS" \o Joined(hist))
=============================================================================
