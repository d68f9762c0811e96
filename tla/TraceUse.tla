------------------------------ MODULE TraceUse ------------------------------
(* Trace specification for using a model: each line holds one model (fitted *)
(* or loaded), query rows and everything the library answered about them.   *)
(* One step per query row, then one for the row-independent answers.        *)
EXTENDS Explain

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, row, err
vars == <<ci, row, err>>

Raw == Cases[ci]
M == [base |-> Raw.base, trees |-> Raw.trees, missing |-> Raw.cfg.missing,
      pi |-> IF Raw.pi < 0 THEN Len(Raw.trees) ELSE Raw.pi]
X == Raw.x
NRows == IF X = <<>> THEN 0 ELSE Len(X[1])
NCols == Len(X)
Is(p) == CHECK \in {p, "all"}
E(p, what) == IF CHECK \in {p, "all"} THEN {<<p, what>>} ELSE {}
Bad(p, c, what) == IF Is(p) /\ c THEN E(p, what) ELSE {}

\* the leaf indices of the rows, and of their copies at the end of a long batch
LeafLists == {Raw.leaves} \union (IF "leavesb" \in DOMAIN Raw THEN {Raw.leavesb} ELSE {})

RowErrs(r) ==
  LET x == RowOf(X, r)
      scale == PredScale(M)
      tiny == scale \otimes NPow2(-40)
      want == Prediction(M, x)
      C(k, f) == Raw.contribs[k].v[(r - 1) * (NCols + 1) + f + 1]
  IN UNION {
     \* C07: every variant of predict, and the leaf indices
     IF Is("C07")
     THEN UNION {IF ~Close(Raw.preds[k].v[r], want, tiny) THEN E("C07", <<"prediction", Raw.preds[k].how, r, Raw.preds[k].v[r], want>>) ELSE {}
                 : k \in DOMAIN Raw.preds}
          \union (IF \E k \in 1..M.pi : LET leaf == LeafOf(M.trees[k], x, M.missing)
                                       IN \E l \in LeafLists : l[(k - 1) * NRows + r] # leaf
                  THEN E("C07", <<"leaf index", r>>) ELSE {})
     ELSE {},
     \* C08
     IF Is("C08")
     THEN UNION {
            LET meth == Raw.contribs[k].how
                total == NSum([f \in 1..(NCols + 1) |-> C(k, f - 1)])
                tol == IF meth = "Shapley" THEN scale \otimes NPow2(-12)
                       ELSE IF meth = "Average" THEN scale \otimes NPow2(-18) ELSE scale \otimes NPow2(-30)
            IN (IF meth \in Additive \union {"ProbabilityChange"} /\ ~Close(total, ContribSum(M, meth, x), tol)
                THEN E("C08", <<"contributions do not add up", meth, r, total, ContribSum(M, meth, x)>>) ELSE {})
               \union
               (IF \E f \in 0..(NCols - 1) : f \notin UNION {Features(M.trees[j]) : j \in 1..M.pi} /\ C(k, f) # Zero
                THEN E("C08", <<"unused feature has a contribution", meth, r>>) ELSE {})
            : k \in DOMAIN Raw.contribs}
     ELSE {},
     \* C09
     IF Is("C09")
     THEN UNION {
            LET meth == Raw.contribs[k].how
                tol == IF meth = "Shapley" THEN scale \otimes NPow2(-12)
                       ELSE IF meth = "ProbabilityChange" THEN NPow2(-30)
                       ELSE scale \otimes NPow2(-18)
            IN {<<"C09", <<"contribution", meth, "row", r, "feature", f, C(k, f), Contribution(M, meth, x, f)>>>> :
                  f \in {f \in 0..(NCols - 1) : ~Close(C(k, f), Contribution(M, meth, x, f), tol)}}
               \union
               (IF ~Close(C(k, NCols), BiasOf(M, meth, x), tol)
                THEN E("C09", <<"bias", meth, r, C(k, NCols), BiasOf(M, meth, x)>>) ELSE {})
            : k \in DOMAIN Raw.contribs}
     ELSE {}
  }

ImpOf(e, f) == LET S == {k \in DOMAIN e.v : e.v[k][1] = f} IN IF S = {} THEN NaN ELSE e.v[CHOOSE k \in S : TRUE][2]

(* A representation of the model lists every node once with its own data.   *)
RepErrs(rep, j) ==
  LET a == rep.trees[j]
      t == Raw.trees[j]
      nums == [k \in DOMAIN a |-> a[k].n]
      Same(u, v) == /\ u.leaf = v.leaf
                    /\ u.d = v.d
                    /\ u.h = v.h
                    /\ (v.leaf \/ rep.weights) => u.w = v.w
                    /\ ~v.leaf => /\ u.sf = v.sf /\ u.sv = v.sv /\ u.sg = v.sg
                                  /\ u.l = v.l /\ u.r = v.r /\ u.m = v.m
  IN (IF Len(a) # Len(t) \/ {nums[k] : k \in DOMAIN nums} # {t[k].n : k \in DOMAIN t}
      THEN E("C23", <<"nodes listed", rep.how, j, nums>>)
      ELSE {<<"C23", <<"node differs", rep.how, j, a[k]>>>> :
              k \in {k \in DOMAIN a : ~Same(a[k], NodeAt(t, a[k].n))}})

(* The grid of the Python partial dependence: the distinct present values,  *)
(* or evenly spaced quantiles (linear interpolation) between two levels;     *)
(* the missing value first if it is asked for.                               *)
Present(gr) == SelectSeq(gr.col, LAMBDA v : ~NIsNaN(v) /\ v # M.missing)
GridOf(gr) ==
  LET s == SortSeq(Present(gr), LAMBDA a, b : a \prec b)
      n == Len(s)
      uniq == IF n = 0 THEN <<>> ELSE SelectSeq([i \in 1..n |-> IF i = 1 \/ s[i] # s[i - 1] THEN s[i] ELSE NaN], LAMBDA v : ~NIsNaN(v))
      level(i) == IF gr.samples = 1 THEN gr.lo
                  ELSE gr.lo \oplus (((gr.hi \ominus gr.lo) \otimes NInt(i - 1)) \oslash NInt(gr.samples - 1))
      q(i) == LET at == level(i) \otimes NInt(n - 1)
                  lo == NTrunc(at)
                  f == at \ominus NInt(lo)
                  a == s[lo + 1]
                  b == s[IF lo + 2 > n THEN n ELSE lo + 2]
              IN a \oplus ((b \ominus a) \otimes f)
      pts == IF gr.samples < 0 THEN uniq ELSE [i \in 1..gr.samples |-> q(i)]
  IN IF gr.excl THEN pts ELSE <<M.missing>> \o pts
GridOK(gr) ==
  LET w == GridOf(gr)
      big == One \oplus NSum([i \in DOMAIN gr.col |-> IF NIsNaN(gr.col[i]) THEN Zero ELSE NAbs(gr.col[i])])
  IN /\ Len(w) = Len(gr.pts)
     /\ \A i \in DOMAIN w : w[i] = gr.pts[i] \/ Close(w[i], gr.pts[i], big \otimes NPow2(-44))

\* answers of the wrong length are not looked at row by row
ShapeErrs ==
  UNION {
    UNION {Bad("C07", Len(l) # M.pi * NRows, <<"number of leaf indices", Len(l), "trees", M.pi, "rows", NRows>>) : l \in LeafLists},
    UNION {Bad("C07", Len(Raw.preds[k].v) # NRows, <<"number of predictions", Raw.preds[k].how>>) : k \in DOMAIN Raw.preds},
    UNION {Bad("C08", Len(Raw.contribs[k].v) # NRows * (NCols + 1), <<"number of contributions", Raw.contribs[k].how>>) : k \in DOMAIN Raw.contribs},
    UNION {Bad("C09", Len(Raw.contribs[k].v) # NRows * (NCols + 1), <<"number of contributions", Raw.contribs[k].how>>) : k \in DOMAIN Raw.contribs}
  }
WholeErrs ==
  UNION {
    IF Is("C10")
    THEN UNION {LET q == Raw.pd[k] IN
                IF ~Close(q.v, PartialDependence(M, q.f, q.at), PredScale(M) \otimes NPow2(-18))
                THEN E("C10", <<"partial dependence", q.f, q.at, q.v, PartialDependence(M, q.f, q.at)>>) ELSE {}
               : k \in DOMAIN Raw.pd}
    ELSE {},
    IF Is("C10") /\ "grids" \in DOMAIN Raw
    THEN UNION {IF ~GridOK(Raw.grids[k]) THEN E("C10", <<"grid points", Raw.grids[k], GridOf(Raw.grids[k])>>) ELSE {} : k \in DOMAIN Raw.grids}
    ELSE {},
    \* the array form: one entry per feature, zero for features without splits
    IF Is("C11") /\ "imparr" \in DOMAIN Raw
    THEN UNION {
          LET e == Raw.imparr[k]
              used == UsedFeatures(M)
              raw == [f \in used |-> Importance(M, e.how, f)]
              tot == NSum(raw)
          IN {<<"C11", <<"importance array", e.how, f, e.v[f + 1]>>>> :
                f \in {f \in 0..(NCols - 1) :
                        IF f \in used THEN ~CloseRel(e.v[f + 1], raw[f] \oslash tot, NPow2(-16), NPow2(-100)) ELSE e.v[f + 1] # Zero}}
          : k \in DOMAIN Raw.imparr}
    ELSE {},
    IF Is("C11")
    THEN UNION {
          LET e == Raw.imp[k]
              used == UsedFeatures(M)
              raw == [f \in used |-> Importance(M, e.how, f)]
              tot == NSum(raw)
              want(f) == IF e.norm THEN raw[f] \oslash tot ELSE raw[f]
          IN (IF {e.v[j][1] : j \in DOMAIN e.v} # used \/ Len(e.v) # Cardinality(used)
              THEN E("C11", <<"features listed", e.how, {e.v[j][1] : j \in DOMAIN e.v}, used>>) ELSE {})
             \union
             {<<"C11", <<"importance", e.how, e.norm, f, ImpOf(e, f), want(f)>>>> :
                f \in {f \in used : ~CloseRel(ImpOf(e, f), want(f), NPow2(-16), NPow2(-100))}}
          : k \in DOMAIN Raw.imp}
    ELSE {},
    IF Is("C23")
    THEN UNION {
          LET rep == Raw.reps[k]
              t == Raw.trees
          IN IF Len(rep.trees) # Len(t) THEN E("C23", <<"number of trees", rep.how>>)
             ELSE UNION {RepErrs(rep, j) : j \in DOMAIN t}
          : k \in DOMAIN Raw.reps}
    ELSE {},
    \* a stray NaN on the path must not be scored
    IF Is("C07")
    THEN UNION {LET q == Raw.stray[k] IN
                IF StrayNaN(M, q.row) /\ q.st = "ok" THEN E("C07", <<"stray NaN scored", q.row>>)
                ELSE IF ~StrayNaN(M, q.row) /\ q.st = "ok" /\ ~Close(q.v, Prediction(M, q.row), PredScale(M) \otimes NPow2(-40))
                THEN E("C07", <<"prediction", q.row>>) ELSE {}
               : k \in DOMAIN Raw.stray}
    ELSE {}
  }

Init == ci \in 1..Len(Cases) /\ row = 0 /\ err = {}
Start ==
  /\ row = 0 /\ row' = 1
  /\ err' = IF Raw.st = "ok" THEN ShapeErrs ELSE {<<CHECK, <<"the library did not answer", Raw.st>>>>}
  /\ UNCHANGED ci
Step ==
  /\ row \in 1..NRows /\ Raw.st = "ok" /\ err = {}
  /\ err' = TLCEval(RowErrs(row)) /\ row' = row + 1 /\ UNCHANGED ci
Finish ==
  /\ row = NRows + 1 /\ Raw.st = "ok" /\ err = {}
  /\ err' = TLCEval(WholeErrs) /\ row' = row + 1 /\ UNCHANGED ci
Stay == (row > NRows + 1 \/ (row > 0 /\ (err # {} \/ Raw.st # "ok"))) /\ UNCHANGED vars
Next == Start \/ Step \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
