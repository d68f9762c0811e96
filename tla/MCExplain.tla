------------------------------ MODULE MCExplain ------------------------------
(* Closed model of explanations (C08, C09): every tree up to a size, with   *)
(* binary and ternary splits over a few features, every leaf cover of a     *)
(* small set, every row over the cells of the thresholds and missing.       *)
(*                                                                          *)
(* forust computes Shapley values by a recursion over the paths of a tree,  *)
(* which keeps a list of the features met so far and the weights of the     *)
(* coalitions by size; the module states that recursion (Rec) and compares  *)
(* it with the definition over all coalitions (Explain!TreeShapley).        *)
(* Shapley values and averages are linear in the leaf weights, so weight 1  *)
(* at one leaf and 0 at the others decides them for all weights; the        *)
(* weights of inner nodes (Weight, ProbabilityChange) are free small ones.  *)
EXTENDS Explain

CONSTANTS NF,      \* number of features
          MaxIn,   \* number of inner nodes
          Cut2,    \* thresholds are 1..Cut2
          Ternary, \* are ternary splits allowed?
          CV       \* leaf covers

VARIABLES t, todo   \* the tree; the leaves not decided yet (node numbers, in order)
vars == <<t, todo>>

Leaf(k, d) == [n |-> k, w |-> Zero, h |-> Zero, d |-> d, sv |-> Zero, sf |-> 0, sg |-> Zero,
               m |-> 0, l |-> 0, r |-> 0, leaf |-> TRUE]
NIn == Cardinality(Internal(t))
Init == t = <<Leaf(0, 0)>> /\ todo = <<0>>
SplitNode(k, f, c, dir) ==
  LET n == Len(t)
      d == t[k + 1].d + 1
      kids == IF dir = "M" THEN <<Leaf(n, d), Leaf(n + 1, d), Leaf(n + 2, d)>> ELSE <<Leaf(n, d), Leaf(n + 1, d)>>
      il == IF dir = "M" THEN n + 1 ELSE n
  IN [t EXCEPT ![k + 1] = [@ EXCEPT !.leaf = FALSE, !.sf = f, !.sv = NInt(c), !.l = il, !.r = il + 1,
                 !.m = CASE dir = "M" -> n [] dir = "L" -> il [] dir = "R" -> il + 1]] \o kids
Split == /\ todo # <<>> /\ NIn < MaxIn
         /\ \E f \in 0..(NF - 1), c \in 1..Cut2, dir \in {"L"} \cup (IF Ternary THEN {"M"} ELSE {}) :
              \* names of features are immaterial: a new one is the next one; "R" mirrors "L"
              /\ f <= Cardinality(Features(t))
              /\ \E z \in {SplitNode(Head(todo), f, c, dir)} :
                 t' = z /\ todo' = Tail(todo) \o [j \in 1..(Len(z) - Len(t)) |-> Len(t) + j - 1]
Settle == /\ todo # <<>> /\ \E c \in CV : t' = [t EXCEPT ![Head(todo) + 1].h = NInt(c)] /\ todo' = Tail(todo)
Next == Split \/ Settle \/ (todo = <<>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* the finished trees                                                       *)
(***************************************************************************)
RECURSIVE CoverBelow(_)
CoverBelow(k) == LET nd == NodeAt(t, k) IN
  IF nd.leaf THEN nd.h ELSE NSum([c \in Children(nd) |-> CoverBelow(c)])
\* covers of inner nodes are sums; leaf u has weight 1
Final(u) == [k \in DOMAIN t |-> [t[k] EXCEPT !.h = CoverBelow(k - 1), !.w = IF t[k].leaf /\ k = u THEN One ELSE Zero]]
\* arbitrary distinct weights everywhere, for the methods that look at inner weights
Mixed == [k \in DOMAIN t |-> [t[k] EXCEPT !.h = CoverBelow(k - 1), !.w = NInt(((k * 5) % 7) - 3)]]
CellRows == [1..NF -> {NaN} \cup {NInt(v) : v \in 0..Cut2}]

(***************************************************************************)
(* the recursion over paths; a path element is [f, z, o, p]                 *)
(***************************************************************************)
\* Extend: a feature joins, met with fractions z (taken when unknown) and o (when known)
Extend(path, z, o, f) ==
  LET d == Len(path)    \* number of elements before
      old == [i \in 1..(d + 1) |-> IF i <= d THEN path[i].p ELSE Zero]
      q == IF d = 0 THEN <<One>>
           ELSE [i \in 1..(d + 1) |->
                   (IF i <= d THEN ((z \otimes old[i]) \otimes NInt(d - (i - 1))) \oslash NInt(d + 1) ELSE Zero) \oplus
                   (IF i >= 2 THEN ((o \otimes old[i - 1]) \otimes NInt(i - 1)) \oslash NInt(d + 1) ELSE Zero)]
  IN [i \in 1..(d + 1) |-> IF i <= d THEN [path[i] EXCEPT !.p = q[i]] ELSE [f |-> f, z |-> z, o |-> o, p |-> q[i]]]
\* the weights without element j: Unwound(path, j)[i] for i in 1..Len-1
RECURSIVE UnwoundFrom(_, _, _, _)
UnwoundFrom(path, j, i, nxt) ==
  LET d == Len(path) - 1
      o == path[j].o
      z == path[j].z
  IN IF i = 0 THEN <<>>
     ELSE IF o # Zero
     THEN LET v == (nxt \otimes NInt(d + 1)) \oslash (NInt(i) \otimes o)
              n2 == path[i].p \ominus (((v \otimes z) \otimes NInt(d - (i - 1))) \oslash NInt(d + 1))
          IN UnwoundFrom(path, j, i - 1, n2) \o <<v>>
     ELSE UnwoundFrom(path, j, i - 1, nxt) \o <<(path[i].p \otimes NInt(d + 1)) \oslash (z \otimes NInt(d - (i - 1)))>>
Unwound(path, j) == UnwoundFrom(path, j, Len(path) - 1, path[Len(path)].p)
Unwind(path, j) ==
  LET q == Unwound(path, j)
  IN [i \in 1..(Len(path) - 1) |-> [(IF i < j THEN path[i] ELSE path[i + 1]) EXCEPT !.p = q[i]]]

RECURSIVE Rec(_, _, _, _, _, _, _, _)
\* contributions [feature -> Num] of the subtree at node k
Rec(tt, k, row, miss, path0, z, o, f) ==
  LET nd == NodeAt(tt, k)
      path == Extend(path0, z, o, f)
      met == {j \in 1..Len(path) : path[j].f = nd.sf}
      j == CHOOSE j \in met : TRUE
      zin == IF met = {} THEN One ELSE path[j].z
      oin == IF met = {} THEN One ELSE path[j].o
      rest == IF met = {} THEN path ELSE Unwind(path, j)
      hot == ChildOf(nd, row[nd.sf + 1], miss)
      parts == [c \in Children(nd) |-> Rec(tt, c, row, miss, rest, (NodeAt(tt, c).h \oslash nd.h) \otimes zin,
                                           IF c = hot THEN oin ELSE Zero, nd.sf)]
  IN IF nd.leaf
     THEN [g \in 0..(NF - 1) |-> NSum([i \in {i \in 2..Len(path) : path[i].f = g} |->
              (NSum(Unwound(path, i)) \otimes (path[i].o \ominus path[i].z)) \otimes nd.w])]
     ELSE [g \in 0..(NF - 1) |-> NSum([c \in Children(nd) |-> parts[c][g]])]
Recursion(tt, row, miss) == Rec(tt, 0, row, miss, <<>>, One, One, -1)

(***************************************************************************)
Tol == NPow2(-30)
Done == todo = <<>>
Model(tt) == [base |-> Half, trees |-> <<tt>>, pi |-> 1, missing |-> NaN]
FeatSum(m, method, row) == NSum([f \in 0..(NF - 1) |-> Contribution(m, method, row, f)]) \oplus BiasOf(m, method, row)

\* C09: the recursion computes the Shapley values
RecursionIsShapley == Done => \A u \in Leaves(t) : \A row \in CellRows :
  \E tt \in {Final(u)} : \E c \in {Recursion(tt, row, NaN)} :
    \A f \in 0..(NF - 1) : Close(c[f], TreeShapley(tt, row, NaN, f), Tol)
\* C08: contributions add up to the prediction
AddsUp == Done => \A row \in CellRows : \E m \in {Model(Mixed)} :
  \A method \in {"Weight", "Average", "Shapley", "ProbabilityChange"} :
    Close(FeatSum(m, method, row), ContribSum(m, method, row), Tol)
\* C09: a feature no split asks for gets nothing, whatever the method
Unused == Done => \A row \in CellRows : \E m \in {Model(Mixed)} : \A f \in (0..(NF - 1)) \ Features(t) :
  \A method \in {"Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "Shapley", "ProbabilityChange"} :
    Contribution(m, method, row, f) = Zero
\* C10: averaging the partial dependence of a feature by cover gives the average leaf weight,
\* and knowing every feature gives the prediction
KnowingAll == Done => \A row \in CellRows : \E tt \in {Mixed} :
  /\ Close(Expect(tt, 0, 0..(NF - 1), row, NaN), NodeAt(tt, LeafOf(tt, row, NaN)).w, Tol)
  /\ Close(Expect(tt, 0, {}, row, NaN), AvgWeight(tt, 0), Tol)
=============================================================================
