------------------------------- MODULE Boost -------------------------------
(* The boosting loop around the trees: evaluation metrics, the evaluation   *)
(* history and early stopping (C12), metric and objective definitions (C19).*)
EXTENDS Explain

(***************************************************************************)
(* Metrics: y targets, s raw scores, w weights (sequences of Nums).         *)
(***************************************************************************)
WMean(v, w) == NSum([r \in DOMAIN v |-> v[r] \otimes w[r]]) \oslash NSum(w)

\* -y ln p - (1 - y) ln (1 - p) for p = sigmoid(s), without cancellation
Softplus(v) == NMax(v, Zero) \oplus NLn1p(NExp(NNeg(NAbs(v))))
LossTerm(y, s) == (y \otimes Softplus(NNeg(s))) \oplus ((One \ominus y) \otimes Softplus(s))
LogLossOf(y, s, w) == WMean([r \in DOMAIN y |-> LossTerm(y[r], s[r])], w)

RmseOf(y, s, w) == NSqrt(WMean([r \in DOMAIN y |-> (y[r] \ominus s[r]) \otimes (y[r] \ominus s[r])], w))
RmsleOf(y, s, w) == RmseOf([r \in DOMAIN y |-> NLn1p(y[r])], [r \in DOMAIN y |-> NLn1p(s[r])], w)

\* the weighted probability that a positive outranks a negative, ties count half
AucOf(y, s, w) ==
  LET pos == {r \in DOMAIN y : y[r] = One}
      neg == DOMAIN y \ pos
      P == NSumOver(w, pos)
      N == NSumOver(w, neg)
      win(p) == NSum([q \in neg |-> IF s[p] \succ s[q] THEN w[q] ELSE IF s[p] \prec s[q] THEN Zero ELSE w[q] \otimes Half])
  IN IF ~(P \succ Zero) \/ ~(N \succ Zero) THEN NaN
     ELSE NSum([p \in pos |-> w[p] \otimes win(p)]) \oslash (P \otimes N)

DefaultMetric(obj) == IF obj = "LogLoss" THEN "LogLoss" ELSE "RootMeanSquaredLogError"
MetricOf(name, y, s, w) ==
  CASE name = "AUC" -> AucOf(y, s, w)
    [] name = "LogLoss" -> LogLossOf(y, s, w)
    [] name = "RootMeanSquaredError" -> RmseOf(y, s, w)
    [] name = "RootMeanSquaredLogError" -> RmsleOf(y, s, w)
Maximised(name) == name = "AUC"

(* Is `new` a strict improvement over `old`?  A number improves on NaN.     *)
Improves(max, old, new) ==
  IF NIsNaN(new) THEN FALSE
  ELSE IF NIsNaN(old) THEN TRUE
  ELSE IF max THEN new \succ old ELSE new \prec old

(***************************************************************************)
(* Early stopping as a state machine over the metric of the last set.       *)
(* r < 0: no early stopping.                                                *)
(***************************************************************************)
VARIABLES it, best, bestm, stopped
stopVars == <<it, best, bestm, stopped>>

StopInit == it = 0 /\ best = -1 /\ bestm = NaN /\ stopped = FALSE
\* iteration `it` (0-based) finished with metric m
StopStep(r, max, m) ==
  /\ ~stopped
  /\ it' = it + 1
  /\ IF r < 0 THEN UNCHANGED <<best, bestm, stopped>>
     ELSE IF best = -1 \/ Improves(max, bestm, m)
     THEN best' = it /\ bestm' = m /\ stopped' = FALSE
     ELSE stopped' = (it - best >= r) /\ UNCHANGED <<best, bestm>>
=============================================================================
