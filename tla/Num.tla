-------------------------------- MODULE Num --------------------------------
(* The numbers of the specification.                                        *)
(*                                                                          *)
(* forust computes with IEEE binary64 (features, targets, predictions) and  *)
(* binary32 (gradients, hessians, node statistics).  The specification uses *)
(* binary64 as its carrier: every binary64/binary32 value of the code is    *)
(* represented exactly, comparisons of feature values are exact, and sums   *)
(* (NSum...) are compensated, so their error is ~2^-52 and is dwarfed by    *)
(* the binary32 rounding that the tolerances below account for.             *)
(*                                                                          *)
(* The scalar operators are implemented by java/Ops.java (TLC operator      *)
(* overrides); their right-hand sides here are only placeholders.  The      *)
(* aggregate operators carry their real definition, and NumTest.tla checks  *)
(* the overrides of those against the definitions.                          *)
EXTENDS Integers, Sequences, FiniteSets

NPlaceholder == CHOOSE x : FALSE

NInt(i)     == NPlaceholder   \* Int -> Num
NParse(s)   == NPlaceholder   \* STRING -> Num, e.g. NParse("0.5")
NAdd(a, b)  == NPlaceholder
NSub(a, b)  == NPlaceholder
NMul(a, b)  == NPlaceholder
NDiv(a, b)  == NPlaceholder   \* IEEE division: x/0 = +-inf, 0/0 = NaN
NNeg(a)     == NPlaceholder
NAbs(a)     == NPlaceholder
NMin(a, b)  == NPlaceholder
NMax(a, b)  == NPlaceholder
NLt(a, b)   == NPlaceholder   \* FALSE if either is NaN
NLe(a, b)   == NPlaceholder   \* FALSE if either is NaN
NExp(a)     == NPlaceholder
NLn(a)      == NPlaceholder
NLn1p(a)    == NPlaceholder
NSqrt(a)    == NPlaceholder
NF32(a)     == NPlaceholder   \* round to binary32
NIsNaN(a)   == NPlaceholder
NIsFin(a)   == NPlaceholder
NIsInt(a)   == NPlaceholder   \* is an integer value
NTrunc(a)   == NPlaceholder   \* Num -> Nat, rounding toward zero
NPow2(i)    == NPlaceholder   \* 2^i
NMaxVal     == NPlaceholder   \* the largest finite binary64
NShow(a)    == NPlaceholder
NLoad(file) == NPlaceholder   \* read an ndjson trace; "~1.5" is a Num

a \oplus b   == NAdd(a, b)
a \ominus b  == NSub(a, b)
a \otimes b  == NMul(a, b)
a \oslash b  == NDiv(a, b)
a \prec b    == NLt(a, b)
a \preceq b  == NLe(a, b)
a \succ b    == NLt(b, a)
a \succeq b  == NLe(b, a)

Zero == NInt(0)
One  == NInt(1)
Two  == NInt(2)
Half == NParse("0.5")
NaN  == NParse("NaN")
PosInf == NParse("inf")
NegInf == NParse("-inf")

(***************************************************************************)
(* Aggregates.                                                              *)
(***************************************************************************)
RECURSIVE NSumSet(_, _)
NSumSet(f, S) == IF S = {} THEN Zero
                 ELSE LET k == CHOOSE k \in S : TRUE
                      IN  f[k] \oplus NSumSet(f, S \ {k})

NSum(f)        == NSumSet(f, DOMAIN f)
NSumOver(f, S) == NSumSet(f, S)
NMaxOf(f)      == IF DOMAIN f = {} THEN NegInf
                  ELSE CHOOSE v \in {f[k] : k \in DOMAIN f} :
                         \A k \in DOMAIN f : f[k] \preceq v

(* A feature value v is missing iff it is the configured missing marker.    *)
Missing(v, miss) == IF NIsNaN(miss) THEN NIsNaN(v) ELSE v = miss

(* For every cut c: the gradient sum, hessian sum and number of the rows    *)
(* whose (non-missing) value is < c, then of those whose value is >= c.     *)
NCutStats(rows, x, miss, g, h, cuts) ==
  [k \in DOMAIN cuts |->
     LET L == {r \in rows : ~Missing(x[r], miss) /\ x[r] \prec cuts[k]}
         R == {r \in rows : ~Missing(x[r], miss) /\ ~(x[r] \prec cuts[k])}
     IN <<NSumOver(g, L), NSumOver(h, L), Cardinality(L),
          NSumOver(g, R), NSumOver(h, R), Cardinality(R)>>]

(* The distinct non-missing values of a column, ascending.                  *)
RECURSIVE NSortSet(_)
NSortSet(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE v \in S : \A u \in S : v \preceq u
                    IN <<m>> \o NSortSet(S \ {m})
NSortedDistinct(x, miss) ==
  NSortSet({x[r] : r \in {q \in DOMAIN x : ~Missing(x[q], miss)}})

(* For ascending vals: the fraction of non-missing weight at values <= v.   *)
NCumFrac(x, w, miss, vals) ==
  LET nm == {r \in DOMAIN x : ~Missing(x[r], miss)}
  IN [k \in DOMAIN vals |->
        NSumOver(w, {r \in nm : x[r] \preceq vals[k]}) \oslash NSumOver(w, nm)]

(***************************************************************************)
(* Comparison up to rounding.                                               *)
(***************************************************************************)
\* |a - b| <= tol, where equal non-finite values are close to each other
Close(a, b, tol) == IF NIsFin(a) /\ NIsFin(b) THEN NAbs(a \ominus b) \preceq tol
                    ELSE a = b
\* close relative to the larger magnitude, plus an absolute floor
CloseRel(a, b, rel, abs) ==
  IF NIsFin(a) /\ NIsFin(b)
  THEN NAbs(a \ominus b) \preceq ((rel \otimes NMax(NAbs(a), NAbs(b))) \oplus abs)
  ELSE a = b

\* f is a sequence of multiples of 2^-6 whose absolute values sum to < 2^16:
\* then every partial sum and difference is exact in binary32, in any order.
ExactF32(f) ==
  /\ \A k \in DOMAIN f : NIsInt(f[k] \otimes NInt(64))
  /\ NSum([k \in DOMAIN f |-> NAbs(f[k])]) \prec NInt(65536)
=============================================================================
