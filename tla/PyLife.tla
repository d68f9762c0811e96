------------------------------- MODULE PyLife -------------------------------
(* The life of a Python booster: Life, plus what the Python object keeps     *)
(* about the data (column names, number of columns), constraints that are    *)
(* given by column name or number, set_params (which constructs the booster  *)
(* anew), copies of the object in every form Python offers, and clones.      *)
(*                                                                           *)
(* A booster is a Life booster with a field feat = [names, n]: the columns    *)
(* of the last successful fit, or NoFeat.                                     *)
EXTENDS Life

NoFeat == [names |-> <<>>, n |-> -1]
PyNew(par, base) == [par |-> par, base |-> base, mdl |-> Nothing, pi |-> -1, meta |-> {}, feat |-> NoFeat]

\* how the constraints and terminated features are given
KeyKind(par) == par.keys            \* "none" | "names" | "numbers"
\* a data set: columns by name (a frame) or none (an array)
Fits(par, d) == CASE KeyKind(par) = "none" -> TRUE
                  [] KeyKind(par) = "names" -> d.frame
                  [] KeyKind(par) = "numbers" -> ~d.frame
PyFitted(b, m, base, best, feat) == [Fitted(b, m, base, best) EXCEPT !.feat = feat]
\* set_params is constructing again with the current parameters and the new
\* ones; nothing of a fit or of the metadata is left
Reconstructed(b, par, base) == PyNew(par, base)
Cloned(b) == PyNew(b.par, b.base)
Copied(b) == b
=============================================================================
