-------------------------------- MODULE Par --------------------------------
(* How forust uses its thread pool: a stage maps a function over positions  *)
(* 1..N; idle workers steal ranges of positions, split them, and work       *)
(* through them; the stage ends when every position is done.  Stages follow *)
(* each other with a barrier in between (features of a histogram, rows of a *)
(* prediction, trees one after another over the rows of contributions).     *)
(* What a worker computes goes to the position it belongs to.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, N, Stages

VARIABLES
  stage,   \* the stage being executed
  todo,    \* ranges [lo, hi] nobody works on
  run,     \* the range each worker holds (lo > hi: none)
  out      \* out[i]: what was accumulated at position i: a sequence of stages
parVars == <<stage, todo, run, out>>

Idle == [lo |-> 1, hi |-> 0]
Empty(r) == r.lo > r.hi
All == [lo |-> 1, hi |-> N]

ParInit == stage = 1 /\ todo = {All} /\ run = [w \in Workers |-> Idle] /\ out = [i \in 1..N |-> <<>>]

Take(w) == /\ Empty(run[w])
           /\ \E r \in todo : run' = [run EXCEPT ![w] = r] /\ todo' = todo \ {r}
           /\ UNCHANGED <<stage, out>>
\* any way of dividing a range may happen
Divide(w) == /\ run[w].hi > run[w].lo
             /\ \E mid \in run[w].lo..(run[w].hi - 1) :
                  /\ run' = [run EXCEPT ![w].hi = mid]
                  /\ todo' = todo \cup {[lo |-> mid + 1, hi |-> run[w].hi]}
             /\ UNCHANGED <<stage, out>>
Work(w) == /\ ~Empty(run[w])
           /\ out' = [out EXCEPT ![run[w].lo] = Append(@, stage)]
           /\ run' = [run EXCEPT ![w] = IF @.lo = @.hi THEN Idle ELSE [@ EXCEPT !.lo = @ + 1]]
           /\ UNCHANGED <<stage, todo>>
StageDone == todo = {} /\ \A w \in Workers : Empty(run[w])
Barrier == /\ StageDone /\ stage < Stages
           /\ stage' = stage + 1 /\ todo' = {All} /\ UNCHANGED <<run, out>>

ParNext == Barrier \/ \E w \in Workers : Take(w) \/ Divide(w) \/ Work(w)

\* what one worker doing everything in order leaves behind
Sequential == [i \in 1..N |-> [s \in 1..Stages |-> s]]
Finished == StageDone /\ stage = Stages
=============================================================================
