-------------------------------- MODULE Grow --------------------------------
(* Growth of one tree as a state machine.                                   *)
(*                                                                          *)
(* State: the tree built so far, the open nodes (created, not yet examined) *)
(* in creation order, and the number of leaves.  Two actions:               *)
(*   Retire(i)            examine open node i and leave it a leaf           *)
(*   Split(i, f, cut, o)  examine open node i and split it                  *)
(* The configuration, data and derivatives are operator arguments because   *)
(* they differ per tree and per trace.                                      *)
EXTENDS Learn

VARIABLES
  tree,   \* sequence of [leaf, f, cut, dir, l, r, m, d, w, nrows] (node k at k+1)
  open,   \* sequence of open nodes [id, rows, w, gv, bd, d]
  nleaf

growVars == <<tree, open, nleaf>>

Unbounded == [lo |-> NegInf, hi |-> PosInf, r |-> Zero]

(* Rounding radii of the sums in a tree over `rows`: zero if everything is  *)
(* exactly representable, else n-step binary32 error bounds.  See DESIGN.md *)
TolBase(rows, g, h, ncuts) ==
  LET gs == [r \in rows |-> g[r]]
      hs == [r \in rows |-> h[r]]
  IN IF ExactF32(gs) /\ ExactF32(hs) THEN [g |-> Zero, h |-> Zero]
     ELSE LET k == NPow2(-24) \otimes NInt(8 + ncuts)
          IN [g |-> k \otimes NSum([r \in rows |-> NAbs(g[r])]),
              h |-> k \otimes NSum([r \in rows |-> NAbs(h[r])])]
TolAt(base, d) == [g |-> base.g \otimes NInt(d + 1), h |-> base.h \otimes NInt(d + 1)]

LeafRec(d, w, n) == [leaf |-> TRUE, f |-> 0, cut |-> Zero, dir |-> "-", l |-> 0, r |-> 0, m |-> 0,
                     d |-> d, w |-> w, nrows |-> n]

RootNode(cfg, rows, g, h, base) ==
  LET G == NSumOver(g, rows)
      H == NSumOver(h, rows)
      t == TolAt(base, 0)
  IN [id |-> 0, rows |-> rows, w |-> WeightBall(cfg, G, H, t), gv |-> RootGainBall(cfg, G, H, t),
      bd |-> Unbounded, d |-> 0]

(* The actions are given by the state they lead to: TLC evaluates a LET of a *)
(* value once, but that of an action at every use.                           *)
Become(z) == tree' = z.tree /\ open' = z.open /\ nleaf' = z.nleaf

Started(rt) == [tree |-> <<LeafRec(0, rt.w.c, Cardinality(rt.rows))>>, open |-> <<rt>>, nleaf |-> 1]
StartTree(cfg, rows, g, h, base) ==
  \E z \in {Started(RootNode(cfg, rows, g, h, base))} : Become(z)

(* A binary split adds one leaf, a ternary split two.                       *)
LeavesAdded(cfg) == IF cfg.cmb THEN 2 ELSE 1
WithinBudget(cfg) == nleaf + LeavesAdded(cfg) <= cfg.ml

(* The open nodes the growth policy may examine next (several only if the   *)
(* scores are indistinguishable).                                           *)
NextChoices(cfg) ==
  IF open = <<>> THEN {}
  ELSE IF cfg.gp = "DepthWise" THEN {1}
  ELSE LET D == DOMAIN open
           odd == {i \in D : ~NIsFin(open[i].gv.c) \/ ~NIsFin(open[i].gv.r)}
           best == NMaxOf([i \in D \ odd |-> Lo(open[i].gv)])
       IN odd \union {i \in D \ odd : Hi(open[i].gv) \succeq best}

CanDeepen(cfg, nd) == nd.d + 1 <= cfg.md

Retired(i) == [tree |-> tree, open |-> RemoveAt(open, i), nleaf |-> nleaf]
Retire(i) == \E z \in {Retired(i)} : Become(z)

\* bounds of the children of a split with monotone direction con
ChildBounds(con, bd, bl, br) ==
  LET mid == (bl.c \oplus br.c) \otimes Half
      rr  == NMax(bd.r, NMax(bl.r, br.r) \oplus (NAbs(mid) \otimes Eps32))
  IN CASE con = 0 -> <<bd, bd>>
       [] con = 1 -> << [lo |-> bd.lo, hi |-> mid, r |-> rr], [lo |-> mid, hi |-> bd.hi, r |-> rr] >>
       [] con = -1 -> << [lo |-> mid, hi |-> bd.hi, r |-> rr], [lo |-> bd.lo, hi |-> mid, r |-> rr] >>

(* Rows of the three ways out of a split.                                   *)
SplitRows(rows, x, cut, miss) ==
  [m |-> {r \in rows : Missing(x[r], miss)},
   l |-> {r \in rows : ~Missing(x[r], miss) /\ x[r] \prec cut},
   r |-> {r \in rows : ~Missing(x[r], miss) /\ ~(x[r] \prec cut)}]

(* Must the missing child of a ternary split stay a leaf?                   *)
MissingTerminates(cfg, f, ms, exact) ==
  \/ ms.n = 0
  \/ (exact /\ ms.g = Zero /\ ms.h = Zero)
  \/ ~cfg.ams
  \/ f \in cfg.term

SplitInto(cfg, i, f, cut, o, x, g, h, base) ==
  LET nd == open[i]
      sr == TLCEval(SplitRows(nd.rows, x[f + 1], cut, cfg.missing))
      con == cfg.con[f + 1]
      cb == ChildBounds(con, nd.bd, o.wl, o.wr)
      N  == Len(tree)
      t  == TolAt(base, nd.d)
      exact == base.g = Zero /\ base.h = Zero
      Lr == IF o.dir = "L" THEN sr.l \union sr.m ELSE sr.l
      Rr == IF o.dir = "R" THEN sr.r \union sr.m ELSE sr.r
      ms == [g |-> NSumOver(g, sr.m), h |-> NSumOver(h, sr.m), n |-> Cardinality(sr.m)]
      il == IF cfg.cmb THEN N + 1 ELSE N
      ir == il + 1
      im == CASE o.dir = "M" -> N [] o.dir = "L" -> il [] o.dir = "R" -> ir
      kid(id, rows, w, gv, bd) == [id |-> id, rows |-> rows, w |-> w, gv |-> gv, bd |-> bd, d |-> nd.d + 1]
      left  == kid(il, Lr, o.wl, o.gl, cb[1])
      right == kid(ir, Rr, o.wr, o.gr, cb[2])
      \* with AssignToParent the missing node carries the parent's weight itself
      mw    == IF cfg.cmb /\ cfg.mnt = "AssignToParent" THEN nd.w ELSE IF cfg.cmb THEN o.wm ELSE nd.w
      mnode == IF cfg.cmb THEN <<kid(im, sr.m, mw, o.gm, nd.bd)>> ELSE <<>>
      opened == IF cfg.cmb /\ ~MissingTerminates(cfg, f, ms, exact) THEN mnode ELSE <<>>
      lf(k) == LeafRec(k.d, k.w.c, Cardinality(k.rows))
  IN [tree |-> [tree EXCEPT ![nd.id + 1] = [@ EXCEPT !.leaf = FALSE, !.f = f, !.cut = cut,
                                !.dir = o.dir, !.l = il, !.r = ir, !.m = im]]
                \o [j \in DOMAIN mnode |-> lf(mnode[j])] \o <<lf(left), lf(right)>>,
      open |-> RemoveAt(open, i) \o opened \o <<left, right>>,
      nleaf |-> nleaf + LeavesAdded(cfg)]
Split(cfg, i, f, cut, o, x, g, h, base) ==
  \E z \in {SplitInto(cfg, i, f, cut, o, x, g, h, base)} : Become(z)

(***************************************************************************)
(* Choice of the split (C02).                                               *)
(***************************************************************************)
\* features of column set S (0-based) in which a split is certainly available
CertainBest(cfg, nd, S, x, cuts, g, h, base) ==
  [f \in S |-> IF CanDeepen(cfg, nd)
               THEN DefBest(cfg, cfg.con[f + 1], x[f + 1], cuts[f + 1], nd.rows, g, h, nd, TolAt(base, nd.d))
               ELSE NegInf]

\* outcomes of splitting nd at (f, cut)
Outcomes(cfg, nd, f, cut, x, g, h, base) ==
  EvalCand(cfg, cfg.con[f + 1],
           NCutStats(nd.rows, x[f + 1], cfg.missing, g, h, <<cut>>)[1],
           MissStats(nd.rows, x[f + 1], cfg.missing, g, h), nd, TolAt(base, nd.d))

(***************************************************************************)
(* Invariants of the growth state.                                          *)
(***************************************************************************)
GrowWellFormed ==
  /\ nleaf = Cardinality({k \in DOMAIN tree : tree[k].leaf})
  /\ \A i \in DOMAIN open : tree[open[i].id + 1].leaf
  /\ \A i, j \in DOMAIN open : i # j => open[i].rows \cap open[j].rows = {}
=============================================================================
