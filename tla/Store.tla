-------------------------------- MODULE Store --------------------------------
(* What a stored model means.  A booster is a record of fields; writing and  *)
(* reading is the identity; fields that older versions did not have take      *)
(* these values; the others are required.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* values are written as the harness shows them
Defaults == [
  l1 |-> "0e0", max_delta_step |-> "0e0", top_rate |-> "1e-1", other_rate |-> "2e-1", colsample_bytree |-> "1e0",
  sample_method |-> "\"None\"", grow_policy |-> "\"DepthWise\"", evaluation_metric |-> "null",
  early_stopping_rounds |-> "-1", initialize_base_score |-> "false", terminate_missing_features |-> "[]",
  evaluation_history |-> "none", best_iteration |-> "-1", prediction_iteration |-> "-1",
  missing_node_treatment |-> "\"AssignToParent\"", log_iterations |-> "0", force_children_to_bound_parent |-> "false",
  \* an absent optional value is no value
  monotone_constraints |-> "none"]

Read(stored) == stored
\* reading a stored model that lacks field f
HasDefault(f) == f \in DOMAIN Defaults
ReadWithout(stored, f) == [stored EXCEPT ![f] = Defaults[f]]
=============================================================================
