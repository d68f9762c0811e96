------------------------------- MODULE MCStop -------------------------------
(* Closed model of early stopping: every metric history over a small value  *)
(* set (ties, NaN, improvements) against the declarative reading of C12.    *)
EXTENDS Boost
CONSTANTS MaxIter, MaxR
VARIABLES hist, r, max
mvars == <<hist, r, max, it, best, bestm, stopped>>

Vals == {NaN, NInt(0), NInt(1), NInt(2)}
MInit == StopInit /\ hist = <<>> /\ r \in (-1)..MaxR /\ max \in BOOLEAN
MNext == \/ /\ Len(hist) < MaxIter
            /\ \E m \in Vals : StopStep(r, max, m) /\ hist' = Append(hist, m)
            /\ UNCHANGED <<r, max>>
         \/ (stopped \/ Len(hist) = MaxIter) /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

N == Len(hist)
NoWorse(a, b) == ~Improves(max, hist[a], hist[b])    \* b does not improve on a
\* the first iteration no other iteration improves on
IsFirstBest(b) == /\ \A k \in 1..N : NoWorse(b, k)
                  /\ \A k \in 1..(b - 1) : Improves(max, hist[k], hist[b])
BestIsFirstBest == (r >= 0 /\ N > 0) => IsFirstBest(best + 1)
NoBestWithoutRounds == r < 0 => best = -1 /\ ~stopped
\* iterations since the last strict improvement of the running best
RR == IF r = 0 THEN 1 ELSE r
StopsExactly == r >= 0 => (stopped <=> N > 0 /\ N - (best + 1) >= RR)
\* it was not possible to stop earlier
Before == SubSeq(hist, 1, N - 1)
NeverLate == (r >= 0 /\ N > 0) => N - (best + 1) <= RR
=============================================================================
