------------------------------- MODULE Learn -------------------------------
(* What forust optimises: objective derivatives, node weights, gains, the   *)
(* candidate thresholds (binning) and the evaluation of candidate splits.   *)
(*                                                                          *)
(* forust evaluates all of this in binary32 from histogram sums that were   *)
(* subtracted from each other along the path, so a value of the code lies   *)
(* in a small ball around the exact value.  Every quantity below is a       *)
(* centre with a radius derived from the rounding model (see Tol); each     *)
(* predicate comes as "possibly" and "definitely".  When all gradients and  *)
(* hessians are small dyadic numbers the sums are exact and radii vanish.   *)
EXTENDS Trees

(***************************************************************************)
(* Objectives                                                               *)
(***************************************************************************)
Sigmoid(v) == One \oslash (One \oplus NExp(NNeg(v)))
Grad(obj, y, yhat, w) ==
  IF obj = "LogLoss" THEN NF32((Sigmoid(yhat) \ominus y) \otimes w)
                     ELSE NF32((yhat \ominus y) \otimes w)
Hess(obj, y, yhat, w) ==
  IF obj = "LogLoss" THEN LET p == Sigmoid(yhat) IN NF32((p \otimes (One \ominus p)) \otimes w)
                     ELSE NF32(w)

(* Initial score when it is derived from the data.                          *)
InitScore(obj, y, w) ==
  LET wy  == NSum([r \in 1..Len(y) |-> w[r] \otimes y[r]])
      tot == NSum(w)
  IN IF obj = "LogLoss" THEN NLn(wy \oslash (tot \ominus wy)) ELSE wy \oslash tot

(***************************************************************************)
(* Binning: the thresholds available for a column (C18).                    *)
(*   def  thresholds that are certainly available                           *)
(*   pos  thresholds that may be (quantile boundaries within rounding)      *)
(***************************************************************************)
NMinInt(a, b) == IF a < b THEN a ELSE b
\* number of entries of the ascending sequence s below p, looked for in lo..hi
RECURSIVE CountBelow(_, _, _, _)
CountBelow(s, p, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF s[m + 1] \prec p THEN CountBelow(s, p, m + 1, hi) ELSE CountBelow(s, p, lo, m)
Cuts(x, w, nbins, miss) ==
  LET vals == NSortedDistinct(x, miss)
      n    == Len(vals)
      fr   == TLCEval(NCumFrac(x, w, miss, vals))
      eps  == NParse("1e-12")
      P(k) == NInt(k) \oslash NInt(nbins)
      \* index of the lowest value whose share reaches p (shares ascend)
      At(p) == 1 + CountBelow(fr, p, 0, n)
      Pick(S) == LET q == TLCEval(SetToSortSeq(S, <)) IN [i \in 1..Len(q) |-> vals[q[i]]]
  IN IF n <= nbins + 1 THEN [def |-> vals, pos |-> vals]
     \* no weight on the column at all: its quantiles are undefined
     ELSE IF NIsNaN(fr[n]) THEN [def |-> <<>>, pos |-> vals]
     ELSE LET ks   == 1..(nbins - 1)
              low  == TLCEval([k \in ks |-> At(P(k) \ominus eps)])
              high == TLCEval([k \in ks |-> NMinInt(n, At(P(k) \oplus eps))])
              \* certain where the two roundings agree
          IN [def |-> TLCEval(Pick({1} \union {low[k] : k \in {k \in ks : low[k] = high[k]}})),
              pos |-> TLCEval(Pick({1} \union UNION {low[k]..high[k] : k \in ks}))]

(***************************************************************************)
(* Balls: [c |-> centre, r |-> radius]                                      *)
(***************************************************************************)
Ball(c, r) == [c |-> c, r |-> r]
Eps32 == NPow2(-22)                 \* a few binary32 roundings
BallClose(v, b, scale) ==           \* v can be the code's value of b (stored scaled)
  \/ NIsNaN(b.c) \/ ~NIsFin(b.r)
  \/ Close(v, b.c \otimes scale,
        ((b.r \oplus (NAbs(b.c) \otimes Eps32)) \otimes NAbs(scale)) \oplus NPow2(-140))

\* cfg fields used: l1 l2 gamma mds mlw (Nums), lr
Soft(l1, g) == IF g \succ l1 THEN g \ominus l1
               ELSE IF g \prec NNeg(l1) THEN g \oplus l1 ELSE Zero
ClipTo(v, lo, hi) == IF v \succ hi THEN hi ELSE IF v \prec lo THEN lo ELSE v

(* Unconstrained node weight.  t = [g, h] rounding radii of the two sums.   *)
WeightBall(cfg, G, H, t) ==
  LET den == H \oplus cfg.l2
      w0  == NNeg(Soft(cfg.l1, G) \oslash den)
      dlo == den \ominus t.h
      r0  == IF NIsNaN(w0) THEN PosInf
             ELSE IF ~(dlo \succ Zero) THEN (IF t.h = Zero /\ t.g = Zero THEN Zero ELSE PosInf)
             ELSE ((t.g \oplus (NAbs(w0) \otimes t.h)) \oslash dlo) \oplus (NAbs(w0) \otimes Eps32)
  IN IF cfg.mds = Zero THEN Ball(w0, r0)
     ELSE Ball(ClipTo(w0, NNeg(cfg.mds), cfg.mds), NMin(r0, cfg.mds \otimes Two))

(* ... restricted to the bounds inherited from monotone splits above.       *)
(* bd = [lo, hi, r]                                                         *)
BoundBall(b, bd) == Ball(ClipTo(b.c, bd.lo, bd.hi), NMax(b.r, bd.r))

GainBall(cfg, G, H, b, t) ==
  LET w  == b.c
      hl == H \oplus cfg.l2
      g  == NNeg(((Two \otimes G) \otimes w) \oplus (hl \otimes (w \otimes w)))
      lin == Two \otimes NAbs(G \oplus (hl \otimes w))
      aw == NAbs(w)
      rt == (aw \oplus b.r)
      r  == ((Two \otimes rt) \otimes t.g)
            \oplus ((rt \otimes rt) \otimes t.h)
            \oplus (IF b.r = Zero THEN Zero ELSE lin \otimes b.r)
            \oplus (IF b.r = Zero THEN Zero ELSE hl \otimes (b.r \otimes b.r))
            \oplus ((((Two \otimes NAbs(G)) \otimes aw) \oplus (NAbs(hl) \otimes (aw \otimes aw))) \otimes Eps32)
  IN IF NIsNaN(g) \/ NIsNaN(r) THEN Ball(g, PosInf) ELSE Ball(g, r)

(* The root's own score does not involve l1 or max_delta_step.              *)
RootGainBall(cfg, G, H, t) ==
  LET den == H \oplus cfg.l2
      q == G \oslash den
      g == G \otimes q
      dlo == den \ominus t.h
      r == IF ~(dlo \succ Zero) THEN (IF t.h = Zero /\ t.g = Zero THEN Zero ELSE PosInf)
           ELSE ((((Two \otimes NAbs(G)) \oplus t.g) \otimes t.g) \oslash dlo)
                \oplus ((NAbs(g) \otimes t.h) \oslash dlo) \oplus (NAbs(g) \otimes Eps32)
  IN Ball(g, r)

AddB(a, b) == Ball(a.c \oplus b.c, a.r \oplus b.r)
SubB(a, b) == Ball(a.c \ominus b.c, a.r \oplus b.r)
Hi(b) == b.c \oplus b.r
Lo(b) == b.c \ominus b.r

(* Monotone direction of a split: "pos" needs wl < wr, "neg" needs wl > wr. *)
PossMono(con, bl, br) == CASE con = 0 \/ NIsNaN(bl.c) \/ NIsNaN(br.c) -> TRUE   \* 0/0: undetermined
                           [] con = 1 -> Lo(bl) \prec Hi(br)
                           [] con = -1 -> Hi(bl) \succ Lo(br)
DefMono(con, bl, br)  == CASE con = 0 -> TRUE
                           [] con = 1 -> Hi(bl) \prec Lo(br)
                           [] con = -1 -> Lo(bl) \succ Hi(br)

(* hessian sums against the minimum leaf weight *)
PossMlw(cfg, H, t) == (H \oplus t.h) \succeq cfg.mlw
DefMlw(cfg, H, t)  == (H \ominus t.h) \succeq cfg.mlw

(***************************************************************************)
(* force_children_to_bound_parent: move one child onto the parent's weight  *)
(* if the parent's weight is not between the children's.                    *)
(***************************************************************************)
Between(a, b, v) == (a \preceq v /\ v \preceq b) \/ (b \preceq v /\ v \preceq a)
\* the pairs of weights this can give: children equal within rounding leave
\* open which one moves (exact sums give exactly equal weights)
BoundParent(p, bl, br, exact) ==
  LET pr(b) == Ball(p.c, NMax(p.r, b.r))
      moveL == <<pr(bl), br>>
      moveR == <<bl, pr(br)>>
  IN IF Between(bl.c, br.c, p.c) THEN {<<bl, br>>}
     ELSE IF (bl.c # br.c \/ ~exact) /\ NAbs(bl.c \ominus br.c) \preceq (bl.r \oplus br.r)
     THEN {moveL, moveR}
     ELSE IF bl.c \succ br.c
     THEN IF bl.c \prec p.c THEN {moveL} ELSE {moveR}
     ELSE IF br.c \prec p.c THEN {moveR} ELSE {moveL}

(***************************************************************************)
(* Evaluation of one candidate (feature with constraint con, one cut).      *)
(* s   = <<GL, HL, nL, GR, HR, nR>> over non-missing rows                    *)
(* ms  = [g, h, n] of the node's rows missing the feature                   *)
(* nd  = open node: w (ball), gv (ball), bd                                  *)
(* Result: a set of outcomes [dir, poss, def, lure, gain, wl, wr, ...]:      *)
(* lure marks a split that separates no rows but may promise a gain.        *)
(***************************************************************************)
\* Binary splits, missing values imputed to one side.
EvalImpute(cfg, con, s, ms, nd, t) ==
  LET GL == s[1] HL == s[2] nL == s[3] GR == s[4] HR == s[5] nR == s[6]
      exact == t.g = Zero /\ t.h = Zero
      W(G, H) == BoundBall(WeightBall(cfg, G, H, t), nd.bd)
      wl == W(GL, HL)   wr == W(GR, HR)
      gl == GainBall(cfg, GL, HL, wl, t)   gr == GainBall(cfg, GR, HR, wr, t)
      wlm == W(GL \oplus ms.g, HL \oplus ms.h)
      wrm == W(GR \oplus ms.g, HR \oplus ms.h)
      glm == GainBall(cfg, GL \oplus ms.g, HL \oplus ms.h, wlm, t)
      grm == GainBall(cfg, GR \oplus ms.g, HR \oplus ms.h, wrm, t)
      sideUndefined == NIsNaN(gl.c) \/ NIsNaN(gr.c)
      \* a raw side with neither gradient nor hessian
      posEmptyL == IF exact THEN GL = Zero /\ HL = Zero ELSE HL \preceq t.h
      posEmptyR == IF exact THEN GR = Zero /\ HR = Zero ELSE HR \preceq t.h
      defEmptyL == exact /\ posEmptyL
      defEmptyR == exact /\ posEmptyR
      \* both sides must qualify on non-missing rows alone
      \* (an empty side whose sums are rounding residue passes a minimum of zero)
      rawPoss == cfg.ams \/ (/\ (exact => nL > 0 /\ nR > 0) /\ ~defEmptyL /\ ~defEmptyR
                             /\ PossMlw(cfg, HL, t) /\ PossMlw(cfg, HR, t))
      rawDef  == cfg.ams \/ (/\ ~posEmptyL /\ ~posEmptyR
                             /\ DefMlw(cfg, HL, t) /\ DefMlw(cfg, HR, t))
      missNone == ms.n = 0 \/ (exact /\ ms.g = Zero /\ ms.h = Zero)
      \* total reductions with missing on the left / on the right
      totL == AddB(glm, gr)   totR == AddB(gl, grm)
      cL == DefMono(con, wlm, wr)   cLp == PossMono(con, wlm, wr)
      cR == DefMono(con, wl, wrm)   cRp == PossMono(con, wl, wrm)
      mayL == /\ ~missNone /\ ~(exact /\ sideUndefined) /\ cLp
              /\ (~cR \/ ~(Hi(totL) \prec Lo(totR)))
      mayR == missNone \/ (exact /\ sideUndefined) \/ ~cL \/ ~(Hi(totR) \prec Lo(totL))
      \* without missing rows rounding noise can still pick the left side
      noiseL == ms.n = 0 /\ ~exact
      may(gain, L, R, hl, hr) ==
        /\ rawPoss
        /\ PossMlw(cfg, hl, t) /\ PossMlw(cfg, hr, t)
        /\ PossMono(con, L, R)
        /\ ~(exact /\ NIsNaN(gain.c))
        /\ (Hi(gain) \succ cfg.gamma \/ ~NIsFin(gain.r))
      Out(dir, L, R, hl, hr, gL, gR, kl, kr) ==
        LET gain == SubB(AddB(gL, gR), nd.gv)
        IN [dir |-> dir, wl |-> L, wr |-> R, gl |-> gL, gr |-> gR, gain |-> gain,
            poss |-> kl > 0 /\ kr > 0 /\ may(gain, L, R, hl, hr),
            lure |-> (kl = 0 \/ kr = 0) /\ may(gain, L, R, hl, hr),
            def  |-> /\ rawDef /\ ~sideUndefined /\ kl > 0 /\ kr > 0
                     /\ DefMlw(cfg, hl, t) /\ DefMlw(cfg, hr, t)
                     /\ DefMono(con, L, R)
                     /\ NIsFin(gain.r) /\ Lo(gain) \succ cfg.gamma]
  IN (IF mayL THEN {Out("L", wlm, wr, HL \oplus ms.h, HR, glm, gr, nL + ms.n, nR)} ELSE {})
     \union
     (IF mayR THEN {Out("R", wl, wrm, HL, HR \oplus ms.h, gl, grm, nL, nR + ms.n)} ELSE {})
     \union
     (IF noiseL THEN {Out("L", wl, wr, HL, HR, gl, gr, nL, nR)} ELSE {})

\* Ternary splits with a missing branch.  Outcomes carry the missing weight.
BranchOutcomes(cfg, con, s, ms, nd, t, wl, wr) ==
  LET GL == s[1] HL == s[2] nL == s[3] GR == s[4] HR == s[5] nR == s[6]
      exact == t.g = Zero /\ t.h = Zero
      posEmptyL == IF exact THEN GL = Zero /\ HL = Zero ELSE HL \preceq t.h
      posEmptyR == IF exact THEN GR = Zero /\ HR = Zero ELSE HR \preceq t.h
      W(G, H) == BoundBall(WeightBall(cfg, G, H, t), nd.bd)
      gl == GainBall(cfg, GL, HL, wl, t)  gr == GainBall(cfg, GR, HR, wr, t)
      avg == LET tot == HL \oplus HR IN
             Ball(((wl.c \otimes HL) \oplus (wr.c \otimes HR)) \oslash tot,
                  IF (tot \ominus t.h) \succ Zero
                  THEN NMax(wl.r, wr.r) \oplus ((NAbs(wl.c \ominus wr.c) \otimes t.h) \oslash (tot \ominus t.h))
                       \oplus (NMax(NAbs(wl.c), NAbs(wr.c)) \otimes Eps32)
                  ELSE PosInf)
      own == W(ms.g, ms.h)
      all == W((GL \oplus GR) \oplus ms.g, (HL \oplus HR) \oplus ms.h)
      mw == CASE cfg.mnt = "AssignToParent" -> {all}
              [] cfg.mnt \in {"AverageLeafWeight", "AverageNodeWeight"} -> {avg}
              [] cfg.mnt = "None" ->
                   IF exact THEN (IF ms.h = Zero \/ ms.g = Zero THEN {nd.w} ELSE {own})
                   ELSE IF ms.n = 0 THEN {nd.w, own} ELSE IF NAbs(ms.g) \preceq t.g THEN {nd.w, own} ELSE {own}
      may(gain) ==
        /\ ~(exact /\ (posEmptyL \/ posEmptyR))
        /\ PossMlw(cfg, HL, t) /\ PossMlw(cfg, HR, t)
        /\ PossMono(con, wl, wr)
        /\ ~(exact /\ NIsNaN(gain.c))
        /\ (Hi(gain) \succ cfg.gamma \/ ~NIsFin(gain.r))
      Out(m) ==
        LET gm == GainBall(cfg, ms.g, ms.h, m, t)
            gain == SubB(AddB(AddB(gl, gr), gm), nd.gv)
        IN [dir |-> "M", wl |-> wl, wr |-> wr, wm |-> m, gl |-> gl, gr |-> gr, gm |-> gm, gain |-> gain,
            poss |-> nL > 0 /\ nR > 0 /\ may(gain),
            lure |-> (nL = 0 \/ nR = 0) /\ may(gain),
            def  |-> /\ nL > 0 /\ nR > 0 /\ ~posEmptyL /\ ~posEmptyR
                     /\ DefMlw(cfg, HL, t) /\ DefMlw(cfg, HR, t)
                     /\ DefMono(con, wl, wr)
                     /\ NIsFin(gain.r) /\ Lo(gain) \succ cfg.gamma]
  IN {Out(m) : m \in mw}
EvalBranch(cfg, con, s, ms, nd, t) ==
  LET W(G, H) == BoundBall(WeightBall(cfg, G, H, t), nd.bd)
      l == TLCEval(W(s[1], s[2]))
      r == TLCEval(W(s[4], s[5]))
  IN UNION {BranchOutcomes(cfg, con, s, ms, nd, t, p[1], p[2]) :
              p \in IF cfg.fcb THEN BoundParent(nd.w, l, r, t.g = Zero /\ t.h = Zero) ELSE {<<l, r>>}}

EvalCand(cfg, con, s, ms, nd, t) ==
  IF cfg.cmb THEN EvalBranch(cfg, con, s, ms, nd, t) ELSE EvalImpute(cfg, con, s, ms, nd, t)

(* Statistics of the rows missing feature column x.                         *)
MissStats(rows, x, miss, g, h) ==
  LET M == {r \in rows : Missing(x[r], miss)}
  IN [g |-> NSumOver(g, M), h |-> NSumOver(h, M), n |-> Cardinality(M)]

(* Certain loss reduction obtainable with column x: -inf if none certain.   *)
DefBest(cfg, con, x, cuts, rows, g, h, nd, t) ==
  LET ms == TLCEval(MissStats(rows, x, cfg.missing, g, h))
      st == NCutStats(rows, x, cfg.missing, g, h, cuts.def)
      v  == [k \in DOMAIN st |->
               LET o == EvalCand(cfg, con, st[k], ms, nd, t)
               IN IF o # {} /\ \A a \in o : a.def
                  THEN NNeg(NMaxOf([a \in o |-> NNeg(Lo(a.gain))]))
                  ELSE NegInf]
  IN NMaxOf(v)

(* What splits that separate nothing may promise in column x: where that is *)
(* the best offer the node stays a leaf.                                     *)
LureBest(cfg, con, x, cuts, rows, g, h, nd, t) ==
  IF ~PossMlw(cfg, Zero, t) THEN NegInf
  ELSE LET ms == TLCEval(MissStats(rows, x, cfg.missing, g, h))
           st == NCutStats(rows, x, cfg.missing, g, h, cuts.pos)
           v  == [k \in DOMAIN st |->
                    LET o == {a \in EvalCand(cfg, con, st[k], ms, nd, t) : a.lure}
                    IN IF o = {} THEN NegInf
                       ELSE NMaxOf([a \in o |-> IF NIsFin(a.gain.r) THEN Hi(a.gain) ELSE PosInf])]
       IN NMaxOf(v)
=============================================================================
