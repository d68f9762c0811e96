-------------------------------- MODULE Life --------------------------------
(* The life of one booster object: construction, parameter changes,         *)
(* successful and rejected fits, the prediction iteration, metadata, and     *)
(* writing and reading it back.  A booster is the record                     *)
(*   [par, base, mdl, pi, meta]                                              *)
(* par: the parameters; base: the base score (parameter and result of a fit  *)
(* that initialises it); mdl: the trained model or Nothing; pi: number of    *)
(* trees used to predict, -1 for all; meta: the metadata entries.            *)
EXTENDS Naturals, Sequences, Integers, FiniteSets, TLC

Nothing == [key |-> <<>>, n |-> 0, best |-> -1]
NewBooster(par, base) == [par |-> par, base |-> base, mdl |-> Nothing, pi |-> -1, meta |-> {}]

\* A fit replaces everything earlier fits left behind; `m` is the model that
\* the parameters, the base score and the data determine.
Fitted(b, m, base, best) == [b EXCEPT !.mdl = m, !.base = base, !.pi = IF best < 0 THEN -1 ELSE best + 1]
Rejected(b) == b
WithParam(b, k, v) == [b EXCEPT !.par[k] = v]
WithPi(b, i) == [b EXCEPT !.pi = i]
WithMeta(b, k, v) == [b EXCEPT !.meta = {e \in @ : e[1] # k} \cup {<<k, v>>}]
Reloaded(b) == b
=============================================================================
