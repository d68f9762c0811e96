------------------------------- MODULE MCGrow -------------------------------
(* Closed model of growing one tree: every data set of NR rows over small    *)
(* value sets, every configuration of a list, every choice the growth rules  *)
(* leave open.  What users rely on must follow from the growth rules alone:  *)
(* rows are partitioned as prediction routes them (C01), splits reduce the   *)
(* loss (C02), constrained features act monotonically on the whole tree      *)
(* (C04) and the limits hold (C05).                                          *)
EXTENDS Grow

CONSTANTS NR,  \* number of rows
  V2,          \* number of values of the second column (missing included)
  Set,         \* which configurations: "short", "full" or "mono"
  Greedy   \* TRUE: the best split is taken; FALSE: any admissible one, or none

XV == <<NaN, Zero, One, Two>>
GV == <<NInt(-3), NInt(-1), NInt(3)>>
NCodes == 9 * V2
\* rows are interchangeable: ascending codes only
RECURSIVE Rows(_, _)
Rows(n, from) == IF n = 0 THEN {<<>>} ELSE UNION {{<<c>> \o s : s \in Rows(n - 1, c)} : c \in from..(NCodes - 1)}
X1(c) == XV[(c % 3) + 1]
G1(c) == GV[((c \div 3) % 3) + 1]
X2(c) == XV[(c \div 9) + 1]

VARIABLES rows, cfg, x, g, h, cuts
vars == <<tree, open, nleaf, rows, cfg, x, g, h, cuts>>
NoTol == [g |-> Zero, h |-> Zero]

Base == [obj |-> "SquaredLoss", lr |-> One, md |-> 2, ml |-> 99, l1 |-> Zero, l2 |-> One, gamma |-> Zero,
         mds |-> Zero, mlw |-> One, con |-> <<0, 0>>, ams |-> TRUE, cmb |-> FALSE, gp |-> "DepthWise",
         missing |-> NaN, term |-> {}, mnt |-> "None", fcb |-> FALSE]
Short == {
  Base,
  [Base EXCEPT !.con = <<1, -1>>, !.md = 3],
  [Base EXCEPT !.con = <<1, 0>>, !.md = 3, !.gp = "LossGuide", !.ml = 3],
  [Base EXCEPT !.con = <<-1, 0>>, !.cmb = TRUE, !.md = 3],
  [Base EXCEPT !.con = <<1, 1>>, !.cmb = TRUE, !.mnt = "AssignToParent", !.fcb = TRUE, !.md = 3],
  [Base EXCEPT !.con = <<1, 0>>, !.cmb = TRUE, !.mnt = "AverageNodeWeight", !.gp = "LossGuide", !.ml = 4, !.md = 3],
  [Base EXCEPT !.con = <<0, -1>>, !.mds = Half, !.ams = FALSE, !.l2 = Zero, !.mlw = Two],
  [Base EXCEPT !.gp = "LossGuide", !.l1 = One, !.gamma = Half] }
Full == {[Base EXCEPT !.con = c, !.md = d, !.ml = l, !.gp = p, !.cmb = b, !.mnt = m, !.fcb = f, !.ams = a, !.mds = s, !.l2 = q] :
           c \in {<<1, 0>>, <<1, -1>>, <<1, 1>>}, d \in {2, 3}, l \in {3, 99}, p \in {"DepthWise", "LossGuide"},
           b \in BOOLEAN, m \in {"None", "AssignToParent", "AverageNodeWeight"}, f \in BOOLEAN, a \in BOOLEAN,
           s \in {Zero, Half}, q \in {Zero, One}}
Configs == CASE Set = "full" -> {c \in Full : c.cmb \/ (c.mnt = "None" /\ ~c.fcb)}
             [] Set = "short" -> Short
             [] Set = "mono" -> {[Base EXCEPT !.con = <<1, 0>>, !.md = 3], [Base EXCEPT !.con = <<-1, 0>>, !.md = 3, !.cmb = TRUE]}

Init == /\ rows \in Rows(NR, 0) /\ cfg \in Configs
        /\ tree = <<>> /\ open = <<>> /\ nleaf = 0 /\ x = <<>> /\ g = <<>> /\ h = <<>> /\ cuts = <<>>
\* (a step of its own: TLC enumerates initial states with one thread)
Prepare == /\ tree = <<>>
           /\ x' = <<[r \in 1..NR |-> X1(rows[r])], [r \in 1..NR |-> X2(rows[r])]>>
           /\ g' = [r \in 1..NR |-> G1(rows[r])] /\ h' = [r \in 1..NR |-> One]
           /\ cuts' = [f \in 1..2 |-> Cuts(x'[f], h', 256, NaN)]
           /\ StartTree(cfg, 1..NR, g', h', NoTol)
           /\ UNCHANGED <<rows, cfg>>

\* all admissible splits of an open node
Cands(nd) ==
  IF ~CanDeepen(cfg, nd) \/ ~WithinBudget(cfg) THEN {}
  ELSE UNION {UNION {{[f |-> f, cut |-> cuts[f + 1].def[k], o |-> o] :
                        o \in {o \in Outcomes(cfg, nd, f, cuts[f + 1].def[k], x, g, h, NoTol) : o.poss}} :
                     k \in DOMAIN cuts[f + 1].def} : f \in 0..1}
Best(S) == LET m == NMaxOf([s \in S |-> Lo(s.o.gain)]) IN {s \in S : Hi(s.o.gain) \succeq m}
Step == \E i \in NextChoices(cfg) :
          \E c \in {Cands(open[i])} :
          \/ (c = {} \/ ~Greedy) /\ Retire(i)
          \/ \E s \in (IF Greedy THEN Best(c) ELSE c) : Split(cfg, i, s.f, s.cut, s.o, x, g, h, NoTol)
Next == \/ Prepare
        \/ tree # <<>> /\ Step /\ UNCHANGED <<rows, cfg, x, g, h, cuts>>
        \/ tree # <<>> /\ open = <<>> /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(***************************************************************************)
RECURSIVE Route(_, _)
Route(k, q) == LET nd == tree[k + 1] IN
  IF nd.leaf THEN k
  ELSE Route(IF NIsNaN(q[nd.f + 1]) THEN nd.m ELSE IF q[nd.f + 1] \prec nd.cut THEN nd.l ELSE nd.r, q)
Score(q) == tree[Route(0, q) + 1].w
Done == tree # <<>> /\ open = <<>>
RowAt(r) == <<x[1][r], x[2][r]>>
\* C01: open nodes hold the rows that prediction routes to them, leaves the rest
OpenRows == \A i \in DOMAIN open : open[i].rows = {r \in 1..NR : Route(0, RowAt(r)) = open[i].id}
LeafRows == tree = <<>> \/ \A k \in DOMAIN tree : tree[k].leaf => tree[k].nrows = Cardinality({r \in 1..NR : Route(0, RowAt(r)) = k - 1})
\* C04
V(n) == {XV[k] : k \in 1..n}
Slack == NPow2(-20)
Ordered(f, a, b) == IF cfg.con[f] = 1 THEN a \preceq (b \oplus Slack) ELSE IF cfg.con[f] = -1 THEN b \preceq (a \oplus Slack) ELSE TRUE
Monotone == tree = <<>> \/
            /\ \A v \in V(V2) : Ordered(1, Score(<<Zero, v>>), Score(<<One, v>>))
            /\ \A v \in V(3) : Ordered(2, Score(<<v, Zero>>), Score(<<v, One>>))
            /\ V2 = 4 => \A v \in V(3) : Ordered(2, Score(<<v, One>>), Score(<<v, Two>>))
\* C05
Limits == /\ \A k \in DOMAIN tree : tree[k].d <= cfg.md
          /\ nleaf <= cfg.ml
          /\ \A k \in DOMAIN tree : ~tree[k].leaf =>
               \A c \in {tree[k].l, tree[k].r} :
                  NInt(Cardinality({r \in 1..NR : LET RECURSIVE via(_)
                                                      via(j) == j = c \/ (~tree[j + 1].leaf /\ via(
                                                         IF NIsNaN(RowAt(r)[tree[j + 1].f + 1]) THEN tree[j + 1].m
                                                         ELSE IF RowAt(r)[tree[j + 1].f + 1] \prec tree[j + 1].cut THEN tree[j + 1].l ELSE tree[j + 1].r))
                                                  IN via(0)})) \succeq cfg.mlw
WellFormed == GrowWellFormed
\* weights never exceed the step limit
Stepped == cfg.mds = Zero \/ \A k \in DOMAIN tree : tree[k].leaf => NAbs(tree[k].w) \preceq (cfg.mds \oplus Slack)
\* C02: splitting reduced the loss: the leaves' scores sum to no less than the root's
\* (a missing leaf that keeps its parent's weight is part of that account)
LeafScore(k) == LET R == {r \in 1..NR : Route(0, RowAt(r)) = k - 1}
                    w == tree[k].w
                IN NNeg(((Two \otimes NSumOver(g, R)) \otimes w) \oplus ((NSumOver(h, R) \oplus cfg.l2) \otimes (w \otimes w)))
LossFalls == (Done /\ ~cfg.cmb /\ cfg.mds = Zero /\ cfg.l1 = Zero) =>
               NSum([k \in {k \in DOMAIN tree : tree[k].leaf} |-> LeafScore(k)]) \succeq
                 (RootGainBall(cfg, NSum(g), NSum(h), NoTol).c \ominus Slack)
=============================================================================
