------------------------------- MODULE MCPar -------------------------------
(* Closed model of the thread pool (C14): on every schedule, with every way *)
(* of stealing and dividing ranges, the result is that of a single worker.  *)
EXTENDS Par

Next == ParNext \/ (Finished /\ UNCHANGED parVars)
Spec == ParInit /\ [][Next]_parVars
\* workers are fair: a stage that was begun ends (used as a temporal property)
FairSpec == Spec /\ \A w \in Workers : WF_parVars(Take(w)) /\ WF_parVars(Work(w)) /\ WF_parVars(Barrier)

Range(r) == r.lo..r.hi
Held == {run[w] : w \in {w \in Workers : ~Empty(run[w])}}
\* nobody works on a position that is also somebody else's
Disjoint == /\ \A v, w \in Workers : v # w => Range(run[v]) \cap Range(run[w]) = {}
            /\ \A a \in todo, b \in Held : Range(a) \cap Range(b) = {}
            /\ \A a, b \in todo : a # b => Range(a) \cap Range(b) = {}
\* every position is either done in this stage or still to be done, never both
Pending == UNION ({Range(r) : r \in todo} \cup {Range(r) : r \in Held})
Exactly == \A i \in 1..N : out[i] = [s \in 1..(IF i \in Pending THEN stage - 1 ELSE stage) |-> s]
SameAsSequential == Finished => out = Sequential
Ends == <>Finished
=============================================================================
