------------------------------ MODULE TraceRate ------------------------------
(* Long training runs in which every tree tells which rows (by the cover of   *)
(* its root) or which columns (by its splits) it was given (C17).  Each step  *)
(* takes one tree: what it was given must be a possible draw.  At the end     *)
(* the draws must be as frequent as configured, and must not repeat from      *)
(* tree to tree, from row to row or from seed to seed more often than         *)
(* independent draws do.  The bounds are 7 standard deviations.               *)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, ti, prev, cnt, again, other, err
vars == <<ci, ti, prev, cnt, again, other, err>>
Raw == Cases[ci]
C == Raw.cfg
E(what) == {<<"C17", what>>}

N == IF Raw.kind = "cols" THEN Raw.k ELSE Raw.n
Pos == 1..N
Pow2(i) == 2^(i - 1)
\* GOSS: the top rows by absolute gradient
TopN == NTrunc(C.top \otimes NInt(Raw.n))
Top == IF Raw.kind = "goss" THEN {i \in Pos : Raw.mag[i] > Raw.n - TopN} ELSE {}
Fact == NTrunc((One \ominus C.top) \oslash C.other)
SumW(S) == IF S = {} THEN 0 ELSE LET RECURSIVE s(_)
                                     s(q) == IF q > N THEN 0 ELSE (IF q \in S THEN Pow2(q) ELSE 0) + s(q + 1)
                                 IN s(1)
\* the rows named by a cover that is a sum of distinct powers of two
Bits(c) == {i \in Pos : (c \div Pow2(i)) % 2 = 1}
Whole(c) == NIsInt(c) /\ Zero \preceq c /\ c \prec NPow2(30)
\* {} / a singleton: the draw behind an observation
Drawn(o) ==
  IF Raw.kind = "cols" THEN {{o[q] : q \in DOMAIN o}}
  ELSE IF ~Whole(o) THEN {}
  ELSE LET c == NTrunc(o)
           rest == c - SumW(Top)
       IN IF Raw.kind = "rows" THEN (IF c < Pow2(N + 1) THEN {Bits(c)} ELSE {})
          ELSE IF rest < 0 \/ rest % Fact # 0 \/ (rest \div Fact) >= Pow2(N + 1) THEN {}
          ELSE LET S == Bits(rest \div Fact) IN IF S \cap Top = {} THEN {S} ELSE {}
Amount == NTrunc(C.cs \otimes NInt(Raw.k))
Possible(S) == Raw.kind = "cols" => Cardinality(S) = Amount

\* the probability of a row or column to be drawn
Prob == IF Raw.kind = "rows" THEN C.subsample
        ELSE IF Raw.kind = "goss" THEN C.other \oslash (One \ominus C.top)
        ELSE NInt(Amount) \oslash NInt(Raw.k)
Agree == (Prob \otimes Prob) \oplus ((One \ominus Prob) \otimes (One \ominus Prob))
Dev(t, q, f) == NInt(7) \otimes NSqrt(NInt(f * t) \otimes q \otimes (One \ominus q))
Within(k, t, q) == NAbs(NInt(k) \ominus (NInt(t) \otimes q)) \preceq (Dev(t, q, 1) \oplus One)
AtMost(k, t, q, f) == (NInt(k) \ominus (NInt(t) \otimes q)) \preceq (Dev(t, q, f) \oplus One)
Free == Pos \ Top
T == Len(Raw.a)

Zeros == [i \in Pos |-> 0]
Init == /\ ci \in 1..Len(Cases) /\ ti = 0 /\ prev = {} /\ err = {}
        /\ cnt = Zeros /\ again = Zeros /\ other = Zeros
Begin ==
  /\ ti = 0 /\ err = {} /\ ti' = 1
  /\ err' = IF Raw.st # "ok" THEN E(<<"did not finish", Raw.st>>)
            ELSE IF Len(Raw.a) # C.iters \/ Len(Raw.b) # C.iters THEN E(<<"trees", Len(Raw.a), Len(Raw.b)>>) ELSE {}
  /\ UNCHANGED <<ci, prev, cnt, again, other>>
Draw ==
  /\ ti >= 1 /\ ti <= T /\ err = {}
  /\ LET d == Drawn(Raw.a[ti])
         e == Drawn(Raw.b[ti])
     IN IF d = {} \/ e = {} \/ \E S \in d \cup e : ~Possible(S)
        THEN /\ err' = E(<<"tree", ti, "no possible draw", Raw.a[ti], Raw.b[ti], d, e>>)
             /\ UNCHANGED <<prev, cnt, again, other>>
        ELSE LET S == CHOOSE S \in d : TRUE
                 O == CHOOSE O \in e : TRUE
             IN /\ cnt' = [i \in Pos |-> cnt[i] + (IF i \in S THEN 1 ELSE 0)]
                /\ again' = [i \in Pos |-> again[i] + (IF ti > 1 /\ ((i \in S) <=> (i \in prev)) THEN 1 ELSE 0)]
                /\ other' = [i \in Pos |-> other[i] + (IF (i \in S) <=> (i \in O) THEN 1 ELSE 0)]
                /\ prev' = S /\ err' = {}
  /\ ti' = ti + 1 /\ UNCHANGED ci
Judge ==
  /\ ti = T + 1 /\ T > 0 /\ err = {} /\ ti' = ti + 1
  /\ err' = UNION {
       IF \E i \in Free : ~Within(cnt[i], T, Prob) THEN E(<<"drawn", cnt, "of", T, "expected share", NShow(Prob)>>) ELSE {},
       IF \E i \in Free : ~AtMost(again[i], T - 1, Agree, 3) THEN E(<<"same draw in consecutive trees", again, "of", T - 1>>) ELSE {},
       IF \E i \in Free : ~AtMost(other[i], T, Agree, 1) THEN E(<<"same draw with another seed", other, "of", T>>) ELSE {}}
  /\ UNCHANGED <<ci, prev, cnt, again, other>>
Stay == (err # {} \/ ti > T + 1 \/ (T = 0 /\ ti > 0)) /\ UNCHANGED vars
Next == Begin \/ Draw \/ Judge \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
