------------------------------ MODULE NumTest ------------------------------
(* The Java overrides of the aggregate operators of Num agree with the      *)
(* definitions in Num.tla (restated here under other names) on a small but  *)
(* complete space: every column over {NaN, 1, 2, 5}^3 etc.                  *)
EXTENDS Num, TLC

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN Zero
                ELSE LET k == CHOOSE k \in S : TRUE IN f[k] \oplus SumSet(f, S \ {k})
CutStats(rows, x, miss, g, h, cuts) ==
  [k \in DOMAIN cuts |->
     LET L == {r \in rows : ~Missing(x[r], miss) /\ x[r] \prec cuts[k]}
         R == {r \in rows : ~Missing(x[r], miss) /\ ~(x[r] \prec cuts[k])}
     IN <<SumSet(g, L), SumSet(h, L), Cardinality(L),
          SumSet(g, R), SumSet(h, R), Cardinality(R)>>]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE v \in S : \A u \in S : v \preceq u
                   IN <<m>> \o SortSet(S \ {m})
SortedDistinct(x, miss) == SortSet({x[r] : r \in {q \in DOMAIN x : ~Missing(x[q], miss)}})
CumFrac(x, w, miss, vals) ==
  LET nm == {r \in DOMAIN x : ~Missing(x[r], miss)}
  IN [k \in DOMAIN vals |->
        SumSet(w, {r \in nm : x[r] \preceq vals[k]}) \oslash SumSet(w, nm)]

Vals  == {NaN, NInt(1), NInt(2), NInt(5)}
Cols  == [1..3 -> Vals]
AsSeq(f) == <<f[1], f[2], f[3]>>
G == <<NInt(3), NNeg(NInt(4)), NParse("0.25")>>
H == <<NInt(1), NInt(2), NInt(8)>>
Cuts == <<NInt(1), NInt(2), NInt(5), NMaxVal>>

ASSUME \A f \in Cols, rows \in SUBSET (1..3), m \in {NaN, NInt(2)} :
  LET x == AsSeq(f) IN
  /\ NCutStats(rows, x, m, G, H, Cuts) = CutStats(rows, x, m, G, H, Cuts)
  /\ NSumOver(G, rows) = SumSet(G, rows)
  /\ (m = NaN \/ \A r \in 1..3 : ~NIsNaN(x[r])) =>
        LET v == SortedDistinct(x, m) IN
        /\ NSortedDistinct(x, m) = v
        /\ NCumFrac(x, H, m, v) = CumFrac(x, H, m, v)
ASSUME NSum(G) = NNeg(NParse("0.75"))
ASSUME NaN = NaN /\ ~(NaN \prec One) /\ ~(One \preceq NaN) /\ NIsNaN(NaN)
ASSUME NF32(NParse("0.1")) # NParse("0.1") /\ NF32(Half) = Half
ASSUME (One \oslash Zero) = PosInf /\ NIsNaN(Zero \oslash Zero)
ASSUME NMaxOf(G) = NInt(3) /\ NTrunc(NParse("3.99")) = 3
VARIABLE x
Init == x = Zero
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
