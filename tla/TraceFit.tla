------------------------------ MODULE TraceFit ------------------------------
(* Trace specification for training: each line of the trace is one fit of   *)
(* the real library (configuration, data, and the resulting trees).  Every  *)
(* tree is re-grown with the actions of Grow, the logged splits resolving   *)
(* the choices, and each step is judged.  One behaviour per trace line; all *)
(* lines are initial states, so TLC checks them in parallel.                *)
(*                                                                          *)
(* CHECK selects the property; err collects what the step found wrong.      *)
EXTENDS Grow

CONSTANTS TraceFile, CHECK

Cases == NLoad(TraceFile)

VARIABLES
  ci,     \* trace line
  ti,     \* tree (1-based), 0 before the first
  phase,  \* "start" | "grow" | "next" | "done"
  yhat,   \* current predictions of the training rows
  g, h,   \* derivatives used by the current tree
  base,   \* rounding radii of the current tree
  cs,     \* column sets the current tree may have drawn
  cuts,   \* thresholds available per column (Cuts)
  err

vars == <<tree, open, nleaf, ci, ti, phase, yhat, g, h, base, cs, cuts, err>>

Raw == Cases[ci]
X == Raw.x
Cfg == [Raw.cfg EXCEPT !.term = {@[k] : k \in DOMAIN @}]
NRows == Len(Raw.y)
NCols == Len(X)
Logged == Raw.trees[ti]
AllCuts == cuts

Is(p) == CHECK \in {p, "all"}
E(p, what) == IF CHECK \in {p, "all"} THEN {<<p, what>>} ELSE {}

(***************************************************************************)
(* Row samples (C17).  The sampled rows are not logged: they are read off   *)
(* the root cover, whose binary digits determine them because the driver    *)
(* gives decodable cases weights that are powers of a large enough base.    *)
(***************************************************************************)
Fact(cfg) == NF32((One \ominus cfg.top) \oslash cfg.other)
RECURSIVE Decode(_, _, _, _, _)
\* idx: rows by descending weight
Decode(idx, rem, w, fact, acc) ==
  IF idx = <<>> THEN [acc EXCEPT !.rest = rem]
  ELSE LET r == Head(idx) wr == NF32(w[r]) IN
       IF fact # One /\ rem \succeq (wr \otimes fact)
       THEN Decode(Tail(idx), rem \ominus (wr \otimes fact), w, fact, [acc EXCEPT !.scaled = @ \union {r}])
       ELSE IF rem \succeq wr
            THEN Decode(Tail(idx), rem \ominus wr, w, fact, [acc EXCEPT !.plain = @ \union {r}])
            ELSE Decode(Tail(idx), rem, w, fact, acc)

SampleOf(cfg, cover) ==
  IF cfg.sm = "None" THEN [plain |-> 1..NRows, scaled |-> {}, rest |-> Zero]
  ELSE Decode(SortSeq([r \in 1..NRows |-> r], LAMBDA a, b : Raw.w[a] \succ Raw.w[b]),
              cover, Raw.w, IF cfg.sm = "Goss" THEN Fact(cfg) ELSE One,
              [plain |-> {}, scaled |-> {}, rest |-> Zero])

SampleErrs(cfg, s, g0) ==
  IF ~Is("C17") \/ cfg.sm = "None" THEN {}
  ELSE (IF s.rest # Zero THEN E("C17", <<"root cover is not the weight of a row sample", s>>) ELSE {})
    \union
    (IF cfg.sm = "Random"
     THEN (IF cfg.subsample \succeq One /\ s.plain # 1..NRows THEN E("C17", <<"subsample >= 1 dropped rows", s>>) ELSE {})
          \union (IF cfg.subsample = Zero /\ s.plain # {} THEN E("C17", <<"subsample = 0 kept rows", s>>) ELSE {})
     ELSE LET topn == NTrunc(cfg.top \otimes NInt(NRows)) IN
          (IF Cardinality(s.plain) # topn
           THEN E("C17", <<"number of unscaled rows", s, topn>>) ELSE {})
          \union
          (IF \E u \in s.plain, r \in (1..NRows) \ s.plain :
                NAbs(g0[u]) \prec (NAbs(g0[r]) \otimes (One \ominus NPow2(-20)))
           THEN E("C17", <<"kept row has a smaller gradient than a dropped or scaled one", s, g0>>) ELSE {}))

(***************************************************************************)
(* Start of a tree                                                          *)
(***************************************************************************)
NSampledCols(cfg) == IF cfg.cs = One THEN NCols ELSE NTrunc(NInt(NCols) \otimes cfg.cs)
ColSets(cfg) ==
  IF NSampledCols(cfg) >= NCols THEN {0..(NCols - 1)}
  ELSE {S \in SUBSET (0..(NCols - 1)) : Cardinality(S) = NSampledCols(cfg)}

\* structural limits of the logged tree (C05), judged on the log alone
LimitErrs(cfg, L) ==
  LET bad == ShapeDefects(L, NCols)
  IN IF bad # {} THEN E("C05", <<"malformed tree", bad>>)
     ELSE (IF \E k \in DOMAIN L : L[k].d > cfg.md THEN E("C05", "deeper than max_depth") ELSE {})
      \union (IF Cardinality(Leaves(L)) > (IF cfg.ml < 1 THEN 1 ELSE cfg.ml) THEN E("C05", <<"more leaves than max_leaves", Cardinality(Leaves(L))>>) ELSE {})
      \union (IF \E k \in Internal(L) : \E c \in {L[k].l, L[k].r} : L[c + 1].h \prec cfg.mlw
              THEN E("C05", "child below min_leaf_weight") ELSE {})
      \union (IF \E k \in Internal(L) : (cfg.cmb # HasMissingBranch(L[k]))
              THEN E("C05", "split arity") ELSE {})

Malformed == ShapeDefects(Logged, NCols) # {}

\* leaf averaging (C16): judged bottom-up on the logged weights and covers
AvgErrs(cfg, L) ==
  LET scale == NMaxOf([k \in DOMAIN L |-> NAbs(L[k].w)])
      tol == scale \otimes NPow2(-18)
      Bad(k) ==
        LET nd == L[k]
            kids == IF L[nd.m + 1].leaf THEN {nd.l, nd.r} ELSE {nd.l, nd.r, nd.m}
            H == NSum([c \in kids |-> L[c + 1].h])
            A == NSum([c \in kids |-> L[c + 1].h \otimes L[c + 1].w]) \oslash H
        IN H \succ Zero /\ (\/ ~Close(nd.w, A, tol)
                            \/ (L[nd.m + 1].leaf /\ ~Close(L[nd.m + 1].w, nd.w, scale \otimes Eps32)))
  IN IF Is("C16") /\ cfg.cmb /\ cfg.mnt = "AverageLeafWeight" /\ \E k \in Internal(L) : Bad(k)
     THEN E("C16", <<"leaf averaging", CHOOSE k \in Internal(L) : Bad(k)>>) ELSE {}

\* C18: where nothing stops growth and every bin has its own mean, every
\* threshold that is certainly available is used (but the lowest: nothing is below it)
FullErrs(L) ==
  IF Is("C18") /\ "full" \in DOMAIN Raw /\ Raw.full
  THEN LET used == {L[k].sv : k \in Internal(L)}
           lack == {k \in 2..Len(AllCuts[1].def) : AllCuts[1].def[k] \notin used}
       IN IF lack # {} THEN E("C18", <<"thresholds not available", {AllCuts[1].def[k] : k \in lack}>>) ELSE {}
  ELSE {}

Averaging(cfg) == cfg.cmb /\ cfg.mnt = "AverageLeafWeight"

\* A step is given by the values it changes.
Now == [tree |-> tree, open |-> open, nleaf |-> nleaf, ti |-> ti, phase |-> phase, yhat |-> yhat, g |-> g, h |-> h,
        base |-> base, cs |-> cs, cuts |-> cuts, err |-> {}]
Go(S) == \E z \in S :
  /\ Become(z) /\ ti' = z.ti /\ phase' = z.phase /\ yhat' = z.yhat /\ g' = z.g /\ h' = z.h
  /\ base' = z.base /\ cs' = z.cs /\ cuts' = z.cuts /\ err' = z.err /\ UNCHANGED ci
With(z, s) == [z EXCEPT !.tree = s.tree, !.open = s.open, !.nleaf = s.nleaf]

TreeBegun ==
  LET cfg == Cfg
      L == Raw.trees[ti + 1]
      g0 == TLCEval([r \in 1..NRows |-> Grad(cfg.obj, Raw.y[r], yhat[r], Raw.w[r])])
      h0 == TLCEval([r \in 1..NRows |-> Hess(cfg.obj, Raw.y[r], yhat[r], Raw.w[r])])
  IN IF ShapeDefects(L, NCols) # {} \/ ~Raw.dec
     THEN \* nothing further can be said about this tree
          [Now EXCEPT !.ti = @ + 1, !.phase = "skip", !.err = LimitErrs(cfg, L)]
     ELSE LET s == TLCEval(SampleOf(cfg, L[1].h))
              f == IF cfg.sm = "Goss" THEN Fact(cfg) ELSE One
              g1 == TLCEval([r \in 1..NRows |-> IF r \in s.scaled THEN NF32(g0[r] \otimes f) ELSE g0[r]])
              h1 == TLCEval([r \in 1..NRows |-> IF r \in s.scaled THEN NF32(h0[r] \otimes f) ELSE h0[r]])
              rows == TLCEval(s.plain \union s.scaled)
              ncuts == NMaxOf([k \in 1..NCols |-> NInt(Len(AllCuts[k].pos))])
              b == TLCEval(TolBase(rows, g1, h1, NTrunc(ncuts)))
              rt == TLCEval(RootNode(cfg, rows, g1, h1, b))
          IN With([Now EXCEPT !.ti = @ + 1, !.phase = "grow", !.g = g1, !.h = h1, !.base = b,
                     !.cs = IF Is("C02") \/ Is("C06") \/ Is("C17") THEN ColSets(cfg) ELSE {},
                     !.err = LimitErrs(cfg, L) \union AvgErrs(cfg, L) \union FullErrs(L) \union SampleErrs(cfg, s, g0)
                       \union (IF Is("C17") /\ Cardinality(Features(L)) > NSampledCols(cfg)
                               THEN E("C17", <<"more columns used than sampled", Features(L)>>) ELSE {})
                       \union (IF Is("C01") /\ ~Close(L[1].h, NSumOver(h1, rows), b.h \oplus (NAbs(L[1].h) \otimes Eps32))
                               THEN E("C01", <<"root cover", NSumOver(h1, rows)>>) ELSE {})
                       \union (IF Is("C03") /\ ~(Averaging(cfg) /\ ~L[1].leaf) /\ ~BallClose(L[1].w, rt.w, cfg.lr)
                               THEN E("C03", <<"root weight", rt.w>>) ELSE {})],
                  Started(rt))
BeginTree == phase = "next" /\ ti < Len(Raw.trees) /\ Go({TreeBegun})

(***************************************************************************)
(* One examined node                                                        *)
(***************************************************************************)
\* the logged split whose children get the next free numbers (0-based id), if any
NextSplit == LET N == Len(tree) IN
  {k - 1 : k \in {k \in Internal(Logged) : \E c \in Children(Logged[k]) : c = N}}

LoggedDir(nd) == IF HasMissingBranch(nd) THEN "M" ELSE IF nd.m = nd.l THEN "L" ELSE "R"

Justified(cfg, nd) ==  \* column sets for which leaving nd a leaf is right
  LET best == TLCEval(CertainBest(cfg, nd, UNION cs, X, AllCuts, g, h, base))
      lure == TLCEval([f \in UNION cs |-> IF ~CanDeepen(cfg, nd) \/ \A k \in UNION cs : best[k] = NegInf THEN NegInf
                ELSE LureBest(cfg, cfg.con[f + 1], X[f + 1], AllCuts[f + 1], nd.rows, g, h, nd, TolAt(base, nd.d))])
      Top(v, S) == NMaxOf([f \in S |-> v[f]])
  IN {S \in cs : Top(best, S) = NegInf \/ Top(best, S) \preceq Top(lure, S)}

Left(cfg, i, p) ==   \* node i left a leaf, judged for property p
  LET z == With(Now, Retired(i)) IN
  IF Is(p)
  THEN LET ok == TLCEval(Justified(cfg, open[i]))
       IN [z EXCEPT !.cs = ok,
                    !.err = IF ok = {} /\ cs # {}
                            THEN E(p, <<"left a leaf although a split is available", open[i].id, open[i].d>>) ELSE {}]
  ELSE z

SplitErrs(cfg, i, o, outs) ==
  LET nd == open[i]
      L  == Logged[nd.id + 1]
      sr == SplitRows(nd.rows, X[L.sf + 1], L.sv, cfg.missing)
      Lr == IF o.dir = "L" THEN sr.l \union sr.m ELSE sr.l
      Rr == IF o.dir = "R" THEN sr.r \union sr.m ELSE sr.r
      t  == TolAt(base, nd.d + 1)
      CoverOk(k, rows) == Close(Logged[k + 1].h, NSumOver(h, rows),
                                t.h \oplus (NAbs(Logged[k + 1].h) \otimes Eps32))
      WOk(k, b) == BallClose(Logged[k + 1].w, b, cfg.lr)
      avg == Averaging(cfg)
      exact == base.g = Zero /\ base.h = Zero
      ms == [g |-> NSumOver(g, sr.m), h |-> NSumOver(h, sr.m), n |-> Cardinality(sr.m)]
      sg == o.gain
  IN (IF Is("C01")
      THEN (IF ~CoverOk(L.l, Lr) THEN E("C01", <<"left cover", nd.id, NSumOver(h, Lr)>>) ELSE {})
           \union (IF ~CoverOk(L.r, Rr) THEN E("C01", <<"right cover", nd.id, NSumOver(h, Rr)>>) ELSE {})
           \union (IF cfg.cmb /\ ~CoverOk(L.m, sr.m) THEN E("C01", <<"missing cover", nd.id, NSumOver(h, sr.m)>>) ELSE {})
      ELSE {})
     \union
     (IF Is("C03")
      THEN (IF ~(avg /\ ~Logged[L.l + 1].leaf) /\ ~WOk(L.l, o.wl) THEN E("C03", <<"left weight", nd.id, o.wl>>) ELSE {})
           \union (IF ~(avg /\ ~Logged[L.r + 1].leaf) /\ ~WOk(L.r, o.wr) THEN E("C03", <<"right weight", nd.id, o.wr>>) ELSE {})
           \union (IF NIsFin(sg.r) /\ ~Close(L.sg, sg.c, sg.r \oplus (NAbs(nd.gv.c) \oplus NAbs(o.gl.c) \oplus NAbs(o.gr.c)) \otimes Eps32)
                   THEN E("C03", <<"split gain", nd.id, sg>>) ELSE {})
      ELSE {})
     \union
     (IF Is("C16")
      THEN (IF outs = {} THEN E("C16", <<"missing direction", nd.id>>) ELSE {})
           \union
           (IF ~cfg.cmb THEN
              (IF exact /\ ms.n = 0 /\ o.dir # "R" THEN E("C16", <<"default direction", nd.id>>) ELSE {})
              \union
              (IF ~cfg.ams /\ (~PossMlw(cfg, NSumOver(h, sr.l), t) \/ ~PossMlw(cfg, NSumOver(h, sr.r), t) \/ (exact /\ (sr.l = {} \/ sr.r = {})))
               THEN E("C16", <<"missing-only split", nd.id>>) ELSE {})
            ELSE LET M == Logged[L.m + 1] IN
              (IF MissingTerminates(cfg, L.sf, ms, exact) /\ ~M.leaf THEN E("C16", <<"missing branch split further", nd.id>>) ELSE {})
              \union
              (IF cfg.mnt = "AssignToParent" /\ ~Close(M.w, L.w, NAbs(L.w) \otimes Eps32)
               THEN E("C16", <<"missing weight is not the parent's", nd.id>>) ELSE {})
              \union
              (IF cfg.mnt \in {"None", "AverageNodeWeight"} /\ ~WOk(L.m, o.wm)
               THEN E("C16", <<"missing weight", nd.id, o.wm>>) ELSE {}))
      ELSE {})
     \union
     (IF Is("C18") /\ L.sv \notin {AllCuts[L.sf + 1].pos[k] : k \in DOMAIN AllCuts[L.sf + 1].pos}
      THEN E("C18", <<"threshold is not one of the feature's bins", nd.id, L.sv>>) ELSE {})
     \union
     (IF Is("C18") /\ (Lr = {} \/ Rr = {}) THEN E("C18", <<"empty side", nd.id>>) ELSE {})

Prefer(S, P(_)) == LET T == {o \in S : P(o)} IN IF T # {} THEN T ELSE S

Divided(cfg, i) ==   \* node i split as logged
  LET nd == open[i]
      L  == Logged[nd.id + 1]
      dir == LoggedDir(L)
      all == TLCEval(Outcomes(cfg, nd, L.sf, L.sv, X, g, h, base))
      outs == {o \in all : o.dir = dir}
      \* among several outcomes rounding leaves open, the one that was logged
      Seen(k) == ~Averaging(cfg) \/ Logged[k + 1].leaf
      pick == Prefer(Prefer(Prefer(Prefer(outs,
                LAMBDA a : a.dir # "M" \/ BallClose(Logged[L.m + 1].w, a.wm, cfg.lr)),
                LAMBDA a : ~Seen(L.l) \/ BallClose(Logged[L.l + 1].w, a.wl, cfg.lr)),
                LAMBDA a : ~Seen(L.r) \/ BallClose(Logged[L.r + 1].w, a.wr, cfg.lr)),
                LAMBDA a : ~NIsFin(a.gain.r) \/ Close(L.sg, a.gain.c, a.gain.r \oplus (NAbs(L.sg) \otimes Eps32)))
      \* averaged weights do not tell which
      open2 == \E a, b \in pick : ~Close(a.wl.c, b.wl.c, a.wl.r \oplus b.wl.r)
      o0  == IF pick # {} THEN CHOOSE o \in pick : TRUE ELSE CHOOSE o \in all : TRUE
      o   == IF pick # {} THEN o0 ELSE [o0 EXCEPT !.dir = dir]
      best == TLCEval(CertainBest(cfg, nd, UNION cs, X, AllCuts, g, h, base))
      ok  == TLCEval(IF Is("C02")
                     THEN {S \in cs : /\ L.sf \in S
                                      /\ \A f \in S : best[f] \preceq Hi(o.gain) \/ ~NIsFin(o.gain.r)}
                     ELSE {S \in cs : L.sf \in S})
  IN IF all = {} \/ ((dir = "M") # cfg.cmb)
     THEN \* cannot happen for a well-formed split; give up on this tree
          [Now EXCEPT !.phase = "skip",
                      !.err = E("C02", <<"unexplainable split", nd.id>>) \union E("C16", <<"unexplainable split", nd.id>>)]
     ELSE IF open2 THEN [Now EXCEPT !.phase = "skip"]
     ELSE IF ~(base.g = Zero /\ base.h = Zero) /\ (NIsNaN(o.wl.c) \/ NIsNaN(o.wr.c))
     THEN \* a weight that is 0/0 but for rounding residue: the tree below is undetermined
          [Now EXCEPT !.phase = "skip"]
     ELSE With([Now EXCEPT !.cs = ok,
                  !.err = SplitErrs(cfg, i, o, outs)
                    \union (IF Is("C02") /\ ~\E q \in outs : q.poss
                            THEN E("C02", <<"inadmissible split", nd.id, outs>>) ELSE {})
                    \union (IF (Is("C02") \/ Is("C17")) /\ ok = {} /\ cs # {}
                            THEN E(CHECK, <<"not the best split", nd.id, o.gain, best>>) ELSE {})],
               SplitInto(cfg, i, L.sf, L.sv, o, X, g, h, base))

PosOf(id) == {i \in DOMAIN open : open[i].id = id}
GiveUp(e) == [Now EXCEPT !.phase = "skip", !.err = e]

Grown ==
  LET cfg == Cfg
      ns  == NextSplit
  IN IF ns # {}
     THEN LET s == CHOOSE k \in ns : TRUE
              nxt == NextChoices(cfg)
          IN IF PosOf(s) = {}
             THEN \* the node that was split should not have been open any more
                  GiveUp(E("C06", <<"split node is not open", s>>) \union E("C16", <<"split node is not open", s>>))
             ELSE LET i == CHOOSE j \in PosOf(s) : TRUE IN
                  IF ~WithinBudget(cfg) /\ Is("C05") THEN GiveUp(E("C05", <<"split beyond max_leaves", s>>))
                  ELSE IF i \in nxt THEN Divided(cfg, i)
                  ELSE LET j == CHOOSE j \in nxt : TRUE IN
                       IF Logged[open[j].id + 1].leaf THEN Left(cfg, j, IF Is("C06") THEN "C06" ELSE "C02")
                       ELSE IF Is("C06") THEN GiveUp(E("C06", <<"examined out of order", s, "before", open[j].id>>))
                       ELSE Divided(cfg, i)
     ELSE IF open # <<>> /\ WithinBudget(cfg) THEN Left(cfg, CHOOSE j \in NextChoices(cfg) : TRUE, "C02")
     ELSE GiveUp({})
GrowStep == phase = "grow" /\ Go({Grown})

(* The ensemble's predictions move by the routed leaf weights, all rows.    *)
EndTree ==
  /\ phase = "skip"
  /\ Go({[Now EXCEPT !.phase = IF Malformed THEN "done" ELSE "next",
                     !.yhat = IF Malformed \/ ti = Len(Raw.trees) THEN yhat
                              ELSE TLCEval([r \in 1..NRows |-> yhat[r] \oplus
                                     NodeAt(Logged, LeafOf(Logged, RowOf(X, r), Raw.cfg.missing)).w])]})

Begun ==
  IF Raw.st # "ok" THEN [Now EXCEPT !.phase = "done", !.err = {<<CHECK, <<"training did not return", Raw.st>>>>}]
  ELSE [Now EXCEPT !.phase = "next",
          !.cuts = TLCEval([f \in 1..NCols |-> Cuts(X[f], Raw.w, Raw.cfg.nbins, Raw.cfg.missing)]),
          !.yhat = [r \in 1..NRows |-> Raw.base],
          !.err = IF Len(Raw.trees) > Raw.cfg.iters THEN E("C05", "more trees than iterations") ELSE {}]
Begin == phase = "start" /\ Go({Begun})

Finish == phase = "next" /\ ti = Len(Raw.trees) /\ Go({[Now EXCEPT !.phase = "done"]})

Init ==
  /\ ci \in 1..Len(Cases)
  /\ ti = 0 /\ phase = "start"
  /\ yhat = <<>> /\ g = <<>> /\ h = <<>> /\ base = [g |-> Zero, h |-> Zero]
  /\ cs = {} /\ cuts = <<>> /\ err = {}
  /\ tree = <<>> /\ open = <<>> /\ nleaf = 0

Stay == phase = "done" /\ UNCHANGED vars
Next == Begin \/ BeginTree \/ GrowStep \/ EndTree \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars

Conforms == err = {}
Sane == phase = "grow" => GrowWellFormed
=============================================================================
