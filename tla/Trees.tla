------------------------------- MODULE Trees -------------------------------
(* Decision trees as forust exposes them, and what routing a row means.     *)
(*                                                                          *)
(* A tree is a sequence of node records; node number k is at position k+1:  *)
(*   n  node number      w  weight        h  cover (hessian sum)            *)
(*   d  depth            sv threshold     sf split feature (0-based)        *)
(*   sg split gain       m,l,r  missing / left / right child  leaf  BOOLEAN *)
(* A matrix is a sequence of columns, each a sequence of Nums.              *)
EXTENDS Num, TLC, SequencesExt

NodeAt(t, k) == t[k + 1]
HasMissingBranch(nd) == ~nd.leaf /\ nd.m # nd.l /\ nd.m # nd.r
Children(nd) == IF nd.leaf THEN {} ELSE {nd.l, nd.r, nd.m}

(* The prediction rule for one value at one split node.                     *)
ChildOf(nd, v, miss) == IF Missing(v, miss) THEN nd.m
                        ELSE IF v \prec nd.sv THEN nd.l ELSE nd.r

RECURSIVE LeafFrom(_, _, _, _)
\* row: function from 1-based feature to Num
LeafFrom(t, k, row, miss) ==
  LET nd == NodeAt(t, k)
  IN IF nd.leaf THEN k ELSE LeafFrom(t, ChildOf(nd, row[nd.sf + 1], miss), row, miss)
LeafOf(t, row, miss) == LeafFrom(t, 0, row, miss)

RowOf(x, r) == [f \in 1..Len(x) |-> x[f][r]]

(* The nodes a row visits, root first.                                      *)
RECURSIVE PathFrom(_, _, _, _)
PathFrom(t, k, row, miss) ==
  LET nd == NodeAt(t, k)
  IN IF nd.leaf THEN <<k>>
     ELSE <<k>> \o PathFrom(t, ChildOf(nd, row[nd.sf + 1], miss), row, miss)
PathOf(t, row, miss) == PathFrom(t, 0, row, miss)

(***************************************************************************)
(* Well-formedness (C05): returns the set of defects of a tree.             *)
(***************************************************************************)
Internal(t) == {k \in 1..Len(t) : ~t[k].leaf}
Leaves(t)   == {k \in 1..Len(t) : t[k].leaf}
ShapeDefects(t, ncols) ==
  LET N == Len(t)
      par == [k \in 1..(N-1) |-> {p \in Internal(t) : k \in Children(t[p])}]
  IN UNION {
       IF N = 0 THEN {"empty tree"} ELSE {},
       {<<"node number", k>> : k \in {k \in 1..N : t[k].n # k - 1}},
       {<<"child out of range", k>> : k \in {k \in Internal(t) : \E c \in Children(t[k]) : c < 1 \/ c >= N}},
       {<<"children not distinct", k>> : k \in {k \in Internal(t) : t[k].l = t[k].r}},
       {<<"feature out of range", k>> : k \in {k \in Internal(t) : t[k].sf < 0 \/ t[k].sf >= ncols}},
       {<<"parents", k>> : k \in {k \in 1..(N-1) : Cardinality(par[k]) # 1}},
       {<<"child before parent", k>> : k \in {k \in Internal(t) : \E c \in Children(t[k]) : c <= k - 1}},
       IF N > 0 /\ t[1].d # 0 THEN {"root depth"} ELSE {},
       {<<"depth", k>> : k \in {k \in Internal(t) : \E c \in Children(t[k]) : c \in 1..(N-1) /\ t[c+1].d # t[k].d + 1}}
     }

Features(t) == {t[k].sf : k \in Internal(t)}
=============================================================================
