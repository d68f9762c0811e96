#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Training rows sit in the nodes that prediction would send them to",
  "In every tree of every fitted model, the cover recorded for each node equals the total hessian of exactly those training rows used for that tree which the prediction rule (value < threshold goes left, otherwise right, missing goes to the node's missing child) sends through that node, so the children of a node partition its rows and no row is lost, duplicated or routed differently in training than in prediction. This holds for binary and for missing-branch trees, any missing marker, any bin count and any row or column sample.",
  ["inputs", "configurations"], "every training matrix (ties, constant and all-missing columns, NaN or sentinel missing), weights, bin count, sampling and growth configuration",
  "The repository's tests compare a few models on one Titanic-like CSV with stored or XGBoost numbers; they never compare node membership with routing, and most layouts of bins, missing values and pivots are not reached.",
  ["src/binning.rs", "src/histogram.rs", "src/utils.rs", "src/splitter.rs", "src/node.rs", "src/tree.rs"],
  [("binning maps v to the number of cuts <= v", "src/utils.rs map_bin"), ("pivot of row indices on the split bin", "src/utils.rs pivot_on_split, pivot_on_split_exclude_missing"), ("histogram subtraction trick", "src/histogram.rs from_parent_child"), ("prediction routing", "src/node.rs get_child_idx")],
  [("hessian_sum", "cover of a node", "src/node.rs Node")], ["json_dump", "predict_leaf_indices"])
p("C02", "Greedy training takes the best admissible split and stops only when none is",
  "Every split in a trained tree is admissible (both sides reach the minimum leaf weight, monotone direction respected, loss reduction above gamma and above zero) and no other admissible choice of feature in use and threshold (each sending missing values to the side that reduces the loss more, right if there is nothing to choose) for the rows of that node has a larger regularised loss reduction, up to binary32 rounding. A node that training examined and that could still be deepened is left a leaf only if no admissible split with positive reduction beyond gamma exists.",
  ["inputs", "configurations"], "every node of every tree, all data sets and all combinations of l1, l2, gamma, max_delta_step, min_leaf_weight, constraints, missing handling and column samples",
  "Optimality is a statement about all candidate splits of all nodes; unit tests look at one or two nodes of one data set.",
  ["src/splitter.rs", "src/histogram.rs", "src/utils.rs", "src/node.rs"],
  [("candidate scan over histogram bins", "src/splitter.rs best_feature_split"), ("best over features", "src/splitter.rs best_split"), ("gain", "src/utils.rs gain_given_weight"), ("missing direction", "src/splitter.rs MissingImputerSplitter::evaluate_split")],
  [], ["json_dump"])
p("C03", "Node weights, covers and gains follow the regularised formulas",
  "For every node the stored weight is learning_rate times minus the l1-soft-thresholded gradient sum over (hessian sum + l2), limited to max_delta_step when that is non-zero (and to the monotone or parent bounds that apply), where gradient and hessian are the objective's weighted derivatives at the current ensemble prediction of the node's rows. The recorded split gain is the children's loss reduction minus the node's own, without gamma.",
  ["inputs", "configurations"], "every node of every tree of every boosting round, any data, weights, objective and regularisation",
  "Tests fix one or two parameter settings and compare whole-model output on one CSV; a formula wrong only for some sign, bound or parameter combination passes them.",
  ["src/utils.rs", "src/splitter.rs", "src/node.rs", "src/objective.rs", "src/tree.rs", "src/gradientbooster.rs"],
  [("weight, l1, max_delta_step", "src/utils.rs weight, l1_regularization"), ("gradients", "src/objective.rs calc_grad_hess"), ("learning rate", "src/node.rs as_node"), ("prediction update between trees", "src/gradientbooster.rs update_predictions_inplace")],
  [("weight_value", "stored leaf/internal weight", "src/node.rs Node")], ["json_dump"])
p("C04", "Monotone constraints hold for the whole model",
  "If a feature has a positive (negative) monotone constraint, then changing only that feature of any row from one non-missing value to a larger non-missing value never decreases (never increases) the model's prediction (up to binary32 rounding), for all values of the other features including missing ones. This holds for every combination of constraints on several features, missing treatment, sampling, regularisation, growth policy and bounding of children by the parent, and training with constraints never aborts.",
  ["inputs", "configurations"], "all rows and value pairs, all constrained feature sets, all other parameters",
  "The tests sweep one feature over its training values on one data set with all features constrained or simple settings; interactions of constrained and unconstrained splits are not covered.",
  ["src/constraints.rs", "src/splitter.rs", "src/utils.rs"],
  [("bounds handed to children at the midpoint", "src/splitter.rs best_feature_split"), ("clipping to the bounds", "src/utils.rs constrained_weight"), ("culling non-monotone splits", "src/utils.rs cull_gain")],
  [("lower_bound/upper_bound", "allowed weight range of a node", "src/node.rs SplittableNode")], ["predict"])
p("C05", "Trees respect the structural limits and are well formed",
  "A fitted model has at most `iterations` trees, each no deeper than max_depth, with at most max_leaves leaves (a lone root always being allowed), no split child below min_leaf_weight cover (missing leaves excepted) and no split on a feature outside the data. Every tree is a proper tree: node k is stored at position k, each non-root node is the child of exactly one earlier split node one level above it, and every path ends in a leaf.",
  ["inputs", "configurations"], "all data and all values of max_depth, max_leaves (including 0, 1, 2), min_leaf_weight, growth policy and missing handling",
  "Limits interact with ternary splits, growth policy and ties; tests check a single max_leaves and depth setting.",
  ["src/tree.rs", "src/splitter.rs", "src/grower.rs"],
  [("leaf and depth accounting", "src/tree.rs Tree::fit"), ("leaves added per split", "src/splitter.rs new_leaves_added"), ("min_leaf_weight test", "src/splitter.rs evaluate_split")],
  [("n_leaves", "current leaves", "src/tree.rs Tree::fit")], ["json_dump"])
p("C06", "Nodes are expanded in the order the growth policy promises",
  "With depth-wise growth, nodes are examined and split strictly in creation order (level by level); with loss-guided growth the open node with the highest loss-reduction score of its own is always examined next. When the leaf limit stops growth, the splits already made are therefore exactly the ones the policy ranks first.",
  ["inputs", "histories", "configurations"], "every sequence of expansions, both policies, all leaf and depth limits, with and without missing branches",
  "Order is only visible when max_leaves binds; tests check a leaf count at most.",
  ["src/grower.rs", "src/tree.rs", "src/node.rs"],
  [("FIFO / heap", "src/grower.rs"), ("ordering of open nodes", "src/node.rs Ord for SplittableNode"), ("expansion loop", "src/tree.rs Tree::fit")],
  [("growable", "open nodes", "src/tree.rs Tree::fit")], ["json_dump"])
p("C07", "A prediction is base score plus the routed leaf weights, row by row",
  "For any fitted or loaded model and any matrix, the prediction of a row is the base score plus, over the first prediction-iteration trees (all trees if unset), the weight of the leaf the row is routed to, and reported leaf indices name exactly these leaves (tree-major). A row's result depends only on that row's values: not on the other rows, their order, the number of rows, or whether prediction is parallel; a NaN met on a row's path when another missing marker is configured is never silently scored.",
  ["inputs", "configurations"], "all models, rows (thresholds hit exactly, missing, infinities), batch sizes and prediction iterations",
  "Tests compare predictions of a few fits on the training CSV only.",
  ["src/gradientbooster.rs", "src/tree.rs", "src/node.rs", "src/data.rs"],
  [("predict", "src/gradientbooster.rs predict, get_prediction_trees"), ("leaf routing", "src/tree.rs predict_leaf"), ("column-major access", "src/data.rs Matrix::get")],
  [("prediction_iteration", "number of trees used", "src/gradientbooster.rs")], ["predict", "predict_leaf_indices"])
p("C08", "Feature contributions add up to the prediction",
  "For the Weight, Average and Shapley methods the contributions of a row over all features plus the bias equal the row's prediction, and for ProbabilityChange they equal the predicted probability, for every model the library can train (with any prediction iteration) and every row. Features not used by the model get exactly zero under every method.",
  ["inputs", "configurations"], "all rows including missing values, all trained models, both tree shapes, all missing treatments, parallel or not",
  "Tests check the sum on the training data of one or two models without prediction-iteration limits.",
  ["src/gradientbooster.rs", "src/tree.rs", "src/shapley.rs"],
  [("path contributions", "src/tree.rs predict_contributions_row_*"), ("tree SHAP", "src/shapley.rs tree_shap"), ("average leaf weights", "src/tree.rs distribute_leaf_weights")],
  [], ["predict_contributions", "predict"])
p("C09", "Each contribution method computes its documented per-feature quantity",
  "Every method attributes to each feature exactly what is documented: Weight and Average the change of (stored, resp. cover-averaged) node value along the row's path; BranchDifference, MidpointDifference and ModeDifference the travelled child's weight minus the other, cover-weighted mid-point, resp. larger-cover child's weight (zero down a missing branch, bias only the base score); ProbabilityChange the change in probability; Shapley the Shapley value of the game that averages unknown features by cover. Values are independent of parallelism and of other rows.",
  ["inputs", "configurations"], "all trees (repeated features on a path, ternary nodes), rows and methods",
  "The Shapley and difference methods are compared with XGBoost or nothing at all on one model; repeated features with missing branches are not covered.",
  ["src/tree.rs", "src/shapley.rs", "src/gradientbooster.rs"],
  [("per-row contribution functions", "src/tree.rs"), ("tree SHAP path algorithm", "src/shapley.rs"), ("method dispatch", "src/gradientbooster.rs predict_contributions")],
  [], ["predict_contributions"])
p("C10", "Partial dependence is the cover-weighted average prediction",
  "The partial dependence of a feature at a value is the base score plus, summed over the trees used for prediction, the average leaf weight when splits on that feature are followed for the value (missing goes to the missing child) and all other splits are averaged over their children in proportion to cover, missing branches included. The Python grid form evaluates exactly this at the requested or derived grid points.",
  ["inputs", "configurations"], "all models, features (used or not), values incl. thresholds and missing, prediction iterations",
  "Tests check that it runs or a handful of values.",
  ["src/partial_dependence.rs", "src/tree.rs", "src/gradientbooster.rs", "py-forust/forust/__init__.py"],
  [("recursion", "src/partial_dependence.rs tree_partial_dependence"), ("sum over prediction trees", "src/gradientbooster.rs value_partial_dependence")],
  [], ["value_partial_dependence"])
p("C11", "Feature importances aggregate exactly the model's splits",
  "For each method the importance of a feature is the count, mean gain, total gain, mean cover or total cover over all splits on that feature in all trees (missing branches included); features never split on are absent from the core result and zero in the Python array form. Normalised importances are non-negative shares that sum to one, proportional to the raw values.",
  ["inputs", "configurations"], "all models, all five methods, normalised or not",
  "Tests compare one model with XGBoost; ternary trees and zero-use features are barely covered.",
  ["src/tree.rs", "src/gradientbooster.rs", "py-forust/forust/__init__.py"],
  [("node statistics traversal", "src/tree.rs calc_feature_node_stats"), ("averaging and normalising", "src/gradientbooster.rs calculate_feature_importance")],
  [], ["calculate_feature_importance"])
p("C12", "Evaluation history and early stopping follow the recorded metric",
  "With evaluation data the history has one row per tree and one column per set, each entry the configured metric of the ensemble up to that tree on that set. With early stopping of r rounds, training stops at the first iteration at which the last set's metric has not strictly improved for r iterations (a number improves on NaN, never the reverse; r = 0 acts like r = 1), best iteration is the first best one and predictions then use best iteration + 1 trees; without it, all iterations are trained and all trees are used.",
  ["inputs", "histories", "configurations"], "all metric histories (ties, NaN, immediate worsening), r, number of evaluation sets, metrics and objectives",
  "One or two histories on one data set are tested; ties, NaN metrics, several sets and boundary values of r are not.",
  ["src/gradientbooster.rs", "src/metric.rs", "src/data.rs"],
  [("boosting loop", "src/gradientbooster.rs fit_trees"), ("improvement test", "src/metric.rs is_comparison_better"), ("history rows", "src/data.rs RowMajorMatrix::append_row")],
  [("best_iteration, prediction_iteration, evaluation_history", "", "src/gradientbooster.rs")], ["json_dump", "evaluation_history"])
p("C13", "Fitting depends only on parameters and data; failed fits change nothing",
  "Calling fit on an already fitted (or loaded, or re-parameterised) booster gives exactly the model a fresh booster with the same parameters gives on the same data: nothing of earlier trees, histories, best or prediction iterations survives. A fit rejected because of invalid targets, sample weights or training features reports an error and leaves the previously fitted model and its predictions untouched.",
  ["histories", "inputs"], "all sequences of fit, failing fit, setting the prediction iteration, save/load and parameter changes",
  "Histories of operations on one object are essentially untested.",
  ["src/gradientbooster.rs", "py-forust/forust/__init__.py"],
  [("reset at the start of training", "src/gradientbooster.rs reset"), ("validation before mutation", "src/gradientbooster.rs fit")],
  [("trees, evaluation_history, best_iteration, prediction_iteration, base_score", "model state", "src/gradientbooster.rs")], ["json_dump", "predict"])
p("C14", "Results do not depend on threads, parallelism or repetition",
  "For fixed parameters, seed and data, training gives bit-identical trees, base score and history in every run, with parallel on or off and with any number of worker threads; predictions, leaf indices and contributions are likewise identical, and partial dependence agrees up to summation order. Different seeds only matter where sampling is configured.",
  ["schedules", "configurations", "inputs"], "all thread counts and schedules of the worker pool, parallel flag on/off, repeated runs",
  "Tests run with one pool and mostly one flag value; schedules are not varied.",
  ["src/histogram.rs", "src/tree.rs", "src/gradientbooster.rs", "src/sampler.rs"],
  [("per-feature parallel histograms collected in order", "src/histogram.rs HistogramMatrix::new"), ("parallel row map collected in order", "src/tree.rs predict_parallel"), ("seeded generator", "src/gradientbooster.rs fit_trees")],
  [], ["json_dump", "predict", "predict_contributions"])
p("C15", "Saved models load back identically",
  "Any model the library trains (with a finite base score and finite weights) can be written (file or JSON string) and read back, and the loaded booster has the same parameters, trees, histories, best and prediction iterations and metadata (metrics that are not finite read back as NaN), gives bit-identical predictions and serialises to the same content again. JSON that lacks fields introduced later loads with their documented defaults, and truncated, emptied, unparsable or missing files are reported as errors, never as a different model.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all trained models incl. NaN metrics, missing markers, extreme floats, constraints; truncated or corrupted files",
  "Tests round-trip one or two default models.",
  ["src/gradientbooster.rs", "src/data.rs", "src/node.rs", "py-forust/forust/__init__.py"],
  [("serde derive with defaults", "src/gradientbooster.rs"), ("missing marker parsing", "src/gradientbooster.rs parse_missing"), ("save/load", "src/gradientbooster.rs save_booster, load_booster")],
  [], ["save_booster", "load_booster", "json_dump", "from_json"])
p("C16", "Missing values are treated as the configuration says",
  "With missing branches, every split node has a separate missing child that receives exactly the rows missing that feature; it stays a leaf when it has no rows, further missing splits are disabled or the feature is listed as terminating, and its weight is as the treatment prescribes: computed from its own rows, equal to the parent's, the cover-weighted mean of its siblings, or, with leaf averaging, the cover-weighted mean of the leaves below its siblings (and each split node's weight the mean over its children). Without missing branches the missing child is the left or right child with the larger loss reduction (right if there is nothing to choose), and if missing-only splits are disallowed both sides of every split meet the leaf minimum with non-missing rows alone.",
  ["inputs", "configurations"], "all missingness patterns, markers (NaN or number), treatments, termination sets, with and without rows missing at a node",
  "Tests check a few combinations on one data set.",
  ["src/splitter.rs", "src/tree.rs", "src/gradientbooster.rs"],
  [("missing branch splitter", "src/splitter.rs MissingBranchSplitter"), ("leaf averaging", "src/splitter.rs update_average_missing_nodes"), ("imputing splitter", "src/splitter.rs MissingImputerSplitter")],
  [], ["json_dump"])
p("C17", "Row and column sampling draw what was configured",
  "Without sampling every tree uses every row once at its plain gradient; with random sampling each tree uses a subset of the rows, each at most once, chosen with the configured probability; with gradient-based one-side sampling each tree uses all of the top fraction of rows by absolute gradient unscaled plus a random part of the rest scaled by (1 - top)/other. With column sampling each tree splits only on floor(rate x columns) columns drawn anew per tree, and predictions for the next round are updated for all rows, sampled or not.",
  ["inputs", "configurations"], "all rates, seeds, data sizes and numbers of columns",
  "Sampled sets are invisible to the tests, which check that sampled models run or differ.",
  ["src/sampler.rs", "src/gradientbooster.rs", "src/tree.rs"],
  [("samplers", "src/sampler.rs"), ("column sampling", "src/gradientbooster.rs fit_trees"), ("root sums over the sample", "src/tree.rs Tree::fit")],
  [], ["json_dump"])
p("C18", "Split thresholds come from the documented binning of the training data",
  "Every split threshold is an observed non-missing training value of its feature: if the feature has at most nbins + 1 distinct values all of them are available as thresholds, otherwise the thresholds are the sample-weighted quantiles k/nbins (k = 0..nbins-1), the smallest value whose cumulative weight share reaches k/nbins. Missing values never influence the thresholds, and constant or all-missing features are never split on values.",
  ["inputs", "configurations"], "all columns, weights, bin counts (2 to thousands) and missing markers",
  "Tests bin one or two columns with a few bins; weights, ties and boundaries are not covered.",
  ["src/binning.rs", "src/utils.rs"],
  [("cut selection", "src/binning.rs percentiles_or_value, bin_matrix"), ("weighted percentiles", "src/utils.rs percentiles")],
  [], ["json_dump"])
p("C19", "Objectives, base score and metrics compute their definitions",
  "The initial score, when initialised, is the weighted mean (squared loss) or the log-odds of the weighted mean (log loss), otherwise the given base score; gradients and hessians are the exact weighted derivatives of the objective. For finite scores, AUC (weighted, ties counted half, NaN when a class is absent), LogLoss, RMSE and RMSLE equal their weighted definitions, are invariant under row order, and are compared in the right direction.",
  ["inputs", "configurations"], "all targets, scores (ties, extreme values), weights incl. zeros, class mixes and row orders",
  "Each metric is tested on one or two small vectors, mostly unweighted.",
  ["src/objective.rs", "src/metric.rs", "src/gradientbooster.rs"],
  [("metrics", "src/metric.rs"), ("objective", "src/objective.rs"), ("base score", "src/gradientbooster.rs fit_trees")],
  [], ["metric functions", "json_dump base_score", "evaluation_history"])
p("C20", "Invalid parameters and data are rejected, valid ones accepted",
  "Constructing a booster with a negative or NaN learning rate, l1, l2, gamma, max_delta_step, min_leaf_weight, subsample, top_rate, other_rate or colsample_bytree fails with an error naming it, unknown option names are rejected, and all non-negative values are accepted. Fitting with NaN in y, or NaN or negative values in any sample weight, of the training or any evaluation set, fails with an error; NaN features under a non-NaN missing marker are never trained on or scored silently; finite data with any such parameters (nbins at least 1) is trained without aborting.",
  ["inputs", "configurations"], "every parameter and input position, every special float",
  "Tests try one or two invalid values.",
  ["src/gradientbooster.rs", "src/utils.rs", "py-forust/src/lib.rs", "py-forust/forust/__init__.py"],
  [("parameter validation", "src/gradientbooster.rs validate_parameters"), ("input validation", "src/utils.rs validate_*"), ("missing check", "src/utils.rs is_missing")],
  [], ["GradientBooster::new", "fit"])
p("C21", "The Python interface treats equal data equally, whatever its container",
  "Fitting, predicting, contributions, leaf indices and partial dependence give identical results for the same numbers passed as NumPy array (C or Fortran order, strided, any real dtype) or pandas DataFrame/Series (any index), results come back in row order with the documented shapes, and feature names given for constraints, terminated missing features and partial dependence mean the column of that name. Evaluation data with and without weights is passed through unchanged.",
  ["inputs", "configurations"], "all containers, dtypes, memory layouts, index values and column orders",
  "The Python tests use a single freshly read DataFrame.",
  ["py-forust/forust/__init__.py", "py-forust/src/lib.rs"],
  [("conversion to a flat column-major vector", "py-forust/forust/__init__.py convert_input_frame"), ("name maps", "py-forust/forust/__init__.py _standardize_monotonicity_map")],
  [], ["Python API"])
p("C22", "The Python booster keeps its parameters and state through its lifecycle",
  "Constructor arguments are what get_params returns and what training uses (numbers in the precision they are kept in). set_params and scikit-learn clone give an unfitted booster with the old parameters and the new ones, and a rejected set_params or fit changes nothing. Pickling, copying, deep-copying and, once fitted, saving and loading give an independent booster with the same parameters (constraints and terminated features under the same names or numbers), feature names, model, evaluation history, iterations and metadata, which predicts identically and, refitted on the same data, gives the same model. Base score, number of trees, best iteration and prediction iteration are reported as trained or set.",
  ["histories", "configurations", "inputs"], "all sequences of construct, set_params, fit, pickle, clone, save, load, refit over all parameters",
  "Tests cover single steps with defaults, not sequences or name-keyed parameters.",
  ["py-forust/forust/__init__.py", "py-forust/forust/serialize.py", "py-forust/src/lib.rs"],
  [("parameter mirror", "py-forust/forust/__init__.py"), ("metadata serialisation", "py-forust/forust/serialize.py"), ("native getters/setters", "py-forust/src/lib.rs")],
  [], ["Python API"])
p("C23", "Model inspection shows the model that predicts",
  "The JSON dump, the text dump and the Python node list and tree table all describe exactly the nodes used for prediction: every node once, with its own threshold, feature (name), missing/left/right targets, depth, gain, cover and weight. Walking any of these representations for a row reproduces the library's leaf and prediction.",
  ["inputs", "configurations"], "all trained models, both tree shapes, array and frame input",
  "Tests call the dumps and check little of the content.",
  ["src/tree.rs", "src/node.rs", "src/gradientbooster.rs", "py-forust/forust/__init__.py", "py-forust/src/lib.rs"],
  [("Display", "src/node.rs, src/tree.rs"), ("node list", "py-forust/forust/__init__.py get_node_lists, trees_to_dataframe")],
  [], ["json_dump", "text_dump", "get_node_lists", "trees_to_dataframe"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
