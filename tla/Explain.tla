------------------------------- MODULE Explain -------------------------------
(* What prediction, contributions, partial dependence and importances of an *)
(* ensemble mean.  A model is [base, trees, pi, missing]: the first pi trees *)
(* predict.  All operators are functions of the exposed model and a row.    *)
EXTENDS Learn

PredTrees(m) == SubSeq(m.trees, 1, m.pi)

RECURSIVE SumFrom(_, _)
SumFrom(f, k) == IF k > Len(f) THEN Zero ELSE f[k] \oplus SumFrom(f, k + 1)

LeavesOfRow(m, row) == [k \in 1..m.pi |-> LeafOf(m.trees[k], row, m.missing)]
Prediction(m, row) ==
  m.base \oplus NSum([k \in 1..m.pi |-> NodeAt(m.trees[k], LeafOf(m.trees[k], row, m.missing)).w])
\* the magnitude rounding errors of a prediction are relative to
PredScale(m) ==
  One \oplus NAbs(m.base) \oplus
  NSum([k \in 1..m.pi |-> NMaxOf([j \in DOMAIN m.trees[k] |-> NAbs(m.trees[k][j].w)])])

(* does the row's path meet a NaN that is not the missing marker? *)
RECURSIVE StrayFrom(_, _, _, _)
StrayFrom(t, k, row, miss) ==
  LET nd == NodeAt(t, k) IN
  IF nd.leaf THEN FALSE
  ELSE IF NIsNaN(row[nd.sf + 1]) /\ ~NIsNaN(miss) THEN TRUE
  ELSE StrayFrom(t, ChildOf(nd, row[nd.sf + 1], miss), row, miss)
StrayNaN(m, row) == \E k \in 1..m.pi : StrayFrom(m.trees[k], 0, row, m.missing)

(***************************************************************************)
(* Averages by cover                                                        *)
(***************************************************************************)
RECURSIVE AvgWeight(_, _)
AvgWeight(t, k) ==
  LET nd == NodeAt(t, k)
      kids == Children(nd)
      H == NSum([c \in kids |-> NodeAt(t, c).h])
  IN IF nd.leaf THEN nd.w
     ELSE NSum([c \in kids |-> NodeAt(t, c).h \otimes AvgWeight(t, c)]) \oslash H

(* Average leaf weight when the features in `known` (0-based) are followed  *)
(* for `row` and all other splits are averaged by cover.                    *)
RECURSIVE Expect(_, _, _, _, _)
Expect(t, k, known, row, miss) ==
  LET nd == NodeAt(t, k)
      kids == Children(nd)
      H == NSum([c \in kids |-> NodeAt(t, c).h])
  IN IF nd.leaf THEN nd.w
     ELSE IF nd.sf \in known THEN Expect(t, ChildOf(nd, row[nd.sf + 1], miss), known, row, miss)
     ELSE NSum([c \in kids |-> IF NodeAt(t, c).h = Zero THEN Zero
                  ELSE NodeAt(t, c).h \otimes Expect(t, c, known, row, miss)]) \oslash H

PartialDependence(m, f, v) ==
  m.base \oplus NSum([k \in 1..m.pi |-> Expect(m.trees[k], 0, {f}, [g \in {f + 1} |-> v], m.missing)])

(***************************************************************************)
(* Contributions: functions from 0-based feature (and the bias, key ncols)  *)
(***************************************************************************)
\* sum over the edges of the row's path in t whose split is on feature f
OnPath(t, row, miss, f, Val(_, _)) ==
  LET p == PathOf(t, row, miss)
  IN NSum([j \in {j \in 1..(Len(p) - 1) : NodeAt(t, p[j]).sf = f} |-> Val(p[j], p[j + 1])])

W(t, k) == NodeAt(t, k).w
H(t, k) == NodeAt(t, k).h

TreeWeight(t, row, miss, f) == OnPath(t, row, miss, f, LAMBDA a, b : W(t, b) \ominus W(t, a))
TreeAverage(t, row, miss, f) == OnPath(t, row, miss, f, LAMBDA a, b : AvgWeight(t, b) \ominus AvgWeight(t, a))
\* the difference methods say nothing about rows that went down a missing branch
ViaMissing(t, a, b) == HasMissingBranch(NodeAt(t, a)) /\ b = NodeAt(t, a).m
Other(t, a, b) == IF b = NodeAt(t, a).l THEN NodeAt(t, a).r ELSE NodeAt(t, a).l
TreeBranch(t, row, miss, f) ==
  OnPath(t, row, miss, f, LAMBDA a, b : IF ViaMissing(t, a, b) THEN Zero ELSE W(t, b) \ominus W(t, Other(t, a, b)))
TreeMidpoint(t, row, miss, f) ==
  OnPath(t, row, miss, f, LAMBDA a, b :
    IF ViaMissing(t, a, b) THEN Zero
    ELSE LET o == Other(t, a, b)
             mid == ((W(t, b) \otimes H(t, b)) \oplus (W(t, o) \otimes H(t, o))) \oslash (H(t, b) \oplus H(t, o))
         IN W(t, b) \ominus mid)
TreeMode(t, row, miss, f) ==
  OnPath(t, row, miss, f, LAMBDA a, b :
    IF ViaMissing(t, a, b) THEN Zero
    ELSE LET l == NodeAt(t, a).l  r == NodeAt(t, a).r
         IN IF H(t, l) = H(t, r) THEN Zero
            ELSE W(t, b) \ominus (IF H(t, l) \succ H(t, r) THEN W(t, l) ELSE W(t, r)))

Fact[n \in 0..12] == IF n = 0 THEN 1 ELSE n * Fact[n - 1]
TreeShapley(t, row, miss, f) ==
  LET F == Features(t)
      n == Cardinality(F)
  IN IF f \notin F THEN Zero
     ELSE NSum([S \in SUBSET (F \ {f}) |->
            ((NInt(Fact[Cardinality(S)]) \otimes NInt(Fact[n - Cardinality(S) - 1])) \oslash NInt(Fact[n]))
            \otimes (Expect(t, 0, S \union {f}, row, miss) \ominus Expect(t, 0, S, row, miss))])

\* probability change: the ensemble's log-odds before tree k
LogOddsBefore(m, row, k) ==
  m.base \oplus NSum([j \in 1..(k - 1) |-> W(m.trees[j], LeafOf(m.trees[j], row, m.missing))])
TreeProb(t, row, miss, f, lo) ==
  OnPath(t, row, miss, f, LAMBDA a, b : Sigmoid(W(t, b) \oplus lo) \ominus Sigmoid(W(t, a) \oplus lo))

Contribution(m, method, row, f) ==
  NSum([k \in 1..m.pi |->
    LET t == m.trees[k] IN
    CASE method = "Weight" -> TreeWeight(t, row, m.missing, f)
      [] method = "Average" -> TreeAverage(t, row, m.missing, f)
      [] method = "BranchDifference" -> TreeBranch(t, row, m.missing, f)
      [] method = "MidpointDifference" -> TreeMidpoint(t, row, m.missing, f)
      [] method = "ModeDifference" -> TreeMode(t, row, m.missing, f)
      [] method = "Shapley" -> TreeShapley(t, row, m.missing, f)
      [] method = "ProbabilityChange" -> TreeProb(t, row, m.missing, f, LogOddsBefore(m, row, k))])

BiasOf(m, method, row) ==
  CASE method = "Weight" -> m.base \oplus NSum([k \in 1..m.pi |-> W(m.trees[k], 0)])
    [] method \in {"Average", "Shapley"} -> m.base \oplus NSum([k \in 1..m.pi |-> AvgWeight(m.trees[k], 0)])
    [] method \in {"BranchDifference", "MidpointDifference", "ModeDifference"} -> m.base
    [] method = "ProbabilityChange" ->
         Sigmoid(m.base) \oplus NSum([k \in 1..m.pi |->
            LET lo == LogOddsBefore(m, row, k)
            IN Sigmoid(lo \oplus W(m.trees[k], 0)) \ominus Sigmoid(lo)])

Additive == {"Weight", "Average", "Shapley"}
ContribSum(m, method, row) ==
  IF method = "ProbabilityChange" THEN Sigmoid(Prediction(m, row)) ELSE Prediction(m, row)

(***************************************************************************)
(* Importances (over all trees of the model)                                *)
(***************************************************************************)
NMaxLenAll(m) == {Len(m.trees[k]) : k \in DOMAIN m.trees} \union {0}
NMaxLen(m) == CHOOSE v \in NMaxLenAll(m) : \A u \in NMaxLenAll(m) : u <= v
SplitsOn(m, f) == {<<k, j>> \in (1..Len(m.trees)) \X (1..NMaxLen(m)) :
                     j <= Len(m.trees[k]) /\ ~m.trees[k][j].leaf /\ m.trees[k][j].sf = f}
Importance(m, method, f) ==
  LET S == SplitsOn(m, f)
      gain == NSum([s \in S |-> m.trees[s[1]][s[2]].sg])
      cover == NSum([s \in S |-> m.trees[s[1]][s[2]].h])
      n == NInt(Cardinality(S))
  IN CASE method = "Weight" -> n
       [] method = "TotalGain" -> gain
       [] method = "Gain" -> gain \oslash n
       [] method = "TotalCover" -> cover
       [] method = "Cover" -> cover \oslash n
UsedFeatures(m) == UNION {Features(m.trees[k]) : k \in DOMAIN m.trees}
=============================================================================
