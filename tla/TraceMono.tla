------------------------------ MODULE TraceMono ------------------------------
(* Trace specification for monotone constraints (C04).  A line holds a model *)
(* trained with constraints and the library's predictions on a grid that has *)
(* one representative per interval between the model's thresholds, so when   *)
(* `full` holds the sweeps decide the property for that model completely.    *)
EXTENDS Trees

CONSTANTS TraceFile, CHECK
Cases == NLoad(TraceFile)

VARIABLES ci, sw, err
vars == <<ci, sw, err>>
Raw == Cases[ci]

\* the grid separates all thresholds of feature f (0-based)
Thresholds(f) == UNION {{t[k].sv : k \in {k \in Internal(t) : t[k].sf = f}} : t \in {Raw.trees[j] : j \in DOMAIN Raw.trees}}
GridErrs ==
  {<<"C04", <<"harness: grid incomplete", f>>>> :
     f \in {f \in 0..(Len(Raw.grid) - 1) :
       LET gr == Raw.grid[f + 1] IN
       \/ \E k \in 2..Len(gr) : ~(gr[k - 1] \prec gr[k])
       \/ \E s \in Thresholds(f) : ~\E k \in 2..Len(gr) : gr[k - 1] \prec s /\ s \preceq gr[k]}}

Scale == One \oplus NAbs(Raw.base) \oplus
         NSum([k \in DOMAIN Raw.trees |-> NMaxOf([j \in DOMAIN Raw.trees[k] |-> NAbs(Raw.trees[k][j].w)])])
\* averaging a missing leaf rounds once in binary32
Slack == Scale \otimes NPow2(-20)

SweepErrs(s) ==
  LET con == Raw.cfg.con[s.f + 1]
      down(k) == CASE con = 1 -> s.v[k] \ominus s.v[k + 1]
                   [] con = -1 -> s.v[k + 1] \ominus s.v[k]
                   [] OTHER -> Zero
      bad == {k \in 1..(Len(s.v) - 1) : ~(down(k) \preceq Slack)}
  IN IF bad = {} THEN {}
     ELSE LET k == CHOOSE k \in bad : TRUE
          IN {<<"C04", <<"not monotone in feature", s.f, "constraint", con, "context", s.ctx,
                         "values", Raw.grid[s.f + 1][k], Raw.grid[s.f + 1][k + 1], "predictions", s.v[k], s.v[k + 1]>>>>}

Init == ci \in 1..Len(Cases) /\ sw = 0 /\ err = {}
Start ==
  /\ sw = 0 /\ sw' = 1 /\ UNCHANGED ci
  /\ err' = IF Raw.st = "ok" THEN GridErrs ELSE {<<CHECK, <<"training did not return", Raw.st>>>>}
Step ==
  /\ sw > 0 /\ Raw.st = "ok" /\ sw <= Len(Raw.sweeps)
  /\ err' = TLCEval(SweepErrs(Raw.sweeps[sw])) /\ sw' = sw + 1 /\ UNCHANGED ci
Stay == (sw > 0 /\ (Raw.st # "ok" \/ sw > Len(Raw.sweeps))) /\ UNCHANGED vars
Next == Start \/ Step \/ Stay
Spec == Init /\ [][Next]_vars
Conforms == err = {}
=============================================================================
