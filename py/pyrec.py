"""Records executions of the Python package: pyrec.py MODE --seed S --n N --out FILE

fit    training through random containers          -> TraceFit.tla
boost  training with evaluation sets               -> TraceBoost.tla
use    everything a fitted booster answers         -> TraceUse.tla
same   one data set through many containers        -> TracePy.tla
guard  options, parameters and data to reject      -> TracePy.tla
"""
import argparse
import json
import math
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *  # noqa: E402,F403

METHODS = {
    "Weight": ["Weight", "weight"], "Average": ["Average", "average"], "Shapley": ["Shapley"],
    "BranchDifference": ["BranchDifference", "branchdifference", "branch-difference"],
    "MidpointDifference": ["MidpointDifference", "midpointdifference", "midpoint-difference"],
    "ModeDifference": ["ModeDifference", "modedifference", "mode-difference"],
    "ProbabilityChange": ["ProbabilityChange", "probabilitychange", "probability-change"]}


def case(r, **kw):
    p, con, term = gen_params(r, 4)
    d = gen_data(r, p["objective_type"], p["missing"], **kw)
    con = {k: v for k, v in con.items() if k < d.ncols}
    term = [k for k in term if k < d.ncols]
    return d, p, con, term


def outcome(f):
    try:
        return "ok", f()
    except BaseException as e:  # PanicException is a BaseException
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return describe(e), None


def one_fit(a):
    r = rng(a[0])
    d, p, con, term = case(r)

    def go():
        x, how, by_name = frame(d, r)
        m = build(p, con, term, d.names, by_name, r)
        w = None if all(v == 1 for v in d.w) and r.random() < 0.6 else vector(d.w, r)
        m.fit(x, vector(d.y, r), sample_weight=w)
        j = json.loads(m.json_dump())
        return how, nodes_of(j), j["base_score"]
    st, v = outcome(go)
    how, trees, base = v or ("", [], 0.0)
    return json.dumps({"st": st, "how": how, "dec": True, "cfg": cfg(p, con, term, d.ncols), "x": d.xjson(), "y": nums(d.y),
                       "w": nums(d.w), "base": num(base), "trees": trees})


def one_boost(a):
    r = rng(a[0])
    d, p, con, term = case(r)
    p["iterations"] = r.choice([1, 3, 6])
    p["early_stopping_rounds"] = r.choice([None, 1, 2, 5])
    p["evaluation_metric"] = r.choice([None, None, "LogLoss", "AUC"] if p["objective_type"] == "LogLoss"
                                      else ["RootMeanSquaredError", "RootMeanSquaredError", "RootMeanSquaredLogError", None])
    ev = []
    for _ in range(r.choice([1, 1, 2, 3])):
        e = d.take([r.randrange(d.rows) for _ in range(r.randrange(1, 9))])
        if r.random() < 0.5:
            e.y = [1 - v if p["objective_type"] == "LogLoss" else abs(v) + 0.5 for v in e.y]
        if r.random() < 0.5:
            e.w = [r.choice([0.5, 1.0, 3.0]) for _ in e.w]
        else:
            e.w = [1.0] * e.rows
        ev.append(e)
    if "RootMeanSquaredLogError" in (p["evaluation_metric"] or "RootMeanSquaredLogError") and p["objective_type"] != "LogLoss":
        for e in ev:
            e.y = [abs(v) for v in e.y]

    def go():
        x, how, by_name = frame(d, r)
        m = build(p, con, term, d.names, by_name, r)
        data = []
        for e in ev:
            # evaluation data: any container, as long as the names agree
            ex = frame(e, r)[0]
            weighted = any(v != 1 for v in e.w) or r.random() < 0.3
            data.append((ex, vector(e.y, r), vector(e.w, r)) if weighted else (ex, vector(e.y, r)))
        m.fit(x, vector(d.y, r), sample_weight=vector(d.w, r), evaluation_data=data)
        j = json.loads(m.json_dump())
        h = m.get_evaluation_history()
        return (nodes_of(j), m.base_score, [nums(row) for row in h], -1 if m.best_iteration is None else m.best_iteration,
                -1 if m.prediction_iteration is None else m.prediction_iteration,
                [nums(m.predict(frame(e, r, r.choice(["C", "df", "F"]) if by_name else "C")[0])) for e in ev])
    st, v = outcome(go)
    trees, base, hist, best, pi, preds = v or ([], 0.0, [], -1, -1, [[] for _ in ev])
    return json.dumps({"st": st, "cfg": cfg(p, con, term, d.ncols), "base": num(base), "trees": trees, "hist": hist,
                       "best": best, "pi": pi,
                       "evals": [{"x": e.xjson(), "y": nums(e.y), "w": nums(e.w), "pred": q} for e, q in zip(ev, preds)]})


# ---------------------------------------------------------------- use
def parse_text(s):
    out = []
    for line in s.split("\n"):
        if not line.strip():
            continue
        body = line.lstrip()
        ind = len(line) - len(body)
        m = re.fullmatch(r"(\d+):leaf=(\S+),cover=(\S+)", body)
        if m:
            out.append(dict(n=int(m[1]), d=ind // 6 if ind % 6 == 0 else 999, leaf=True, w=n32(m[2]), h=n32(m[3]), sf=0,
                            sv=num(0), sg=num(0), l=0, r=0, m=0))
            continue
        m = re.fullmatch(r"(\d+):\[(\d+) < (\S+)\] yes=(\d+),no=(\d+),missing=(\d+),gain=(\S+),cover=(\S+)", body)
        out.append(dict(n=int(m[1]), d=ind // 6 if ind % 6 == 0 else 999, leaf=False, w=num(0), h=n32(m[8]), sf=int(m[2]),
                        sv=num(m[3]), sg=n32(m[7]), l=int(m[4]), r=int(m[5]), m=int(m[6])))
    return out


def node_rep(lists, index):
    return [[dict(n=n.num, d=n.depth, leaf=n.is_leaf, w=n32(n.weight_value), h=n32(n.hessian_sum),
                  sf=0 if n.is_leaf else index(n.split_feature), sv=num(n.split_value), sg=n32(n.split_gain),
                  l=n.left_child, r=n.right_child, m=n.missing_node) for n in t] for t in lists]


def table_rep(df, index, ntrees):
    out = [[] for _ in range(ntrees)]
    if ntrees == 0:
        return out
    assert list(df.columns) == ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover"], "columns"
    rows = {}
    for q in df.to_dict("records"):
        assert q["ID"] == f"{q['Tree']}-{q['Node']}", "ID"
        rows[q["ID"]] = q

    def kid(t, s):
        a, b = s.split("-")
        assert int(a) == t, "child of another tree"
        return int(b)
    for q in df.to_dict("records"):
        t = int(q["Tree"])
        leaf = q["Feature"] == "Leaf" and pd.isna(q["Split"])
        o = dict(n=int(q["Node"]), d=-1, leaf=leaf, h=n32(q["Cover"]), w=num(0), sf=0, sv=num(0), sg=num(0), l=0, r=0, m=0)
        if leaf:
            o["w"] = n32(q["Gain"])
        else:
            o.update(sf=index(q["Feature"]), sv=num(q["Split"]), sg=n32(q["Gain"]), l=kid(t, q["Yes"]), r=kid(t, q["No"]),
                     m=kid(t, q["Missing"]))
        out[t].append(o)
    # the table has no depth column: it follows from the links
    for t in out:
        at = {o["n"]: o for o in t}
        todo = [(0, 0)]
        while todo:
            n, dep = todo.pop()
            o = at[n]
            o["d"] = dep
            if not o["leaf"]:
                todo += [(k, dep + 1) for k in {o["l"], o["r"], o["m"]}]
    return out


def one_use(a):
    r = rng(a[0])
    d, p, con, term = case(r)
    p["iterations"] = r.choice([1, 2, 4])
    pi = -1
    miss = p["missing"]

    def go():
        nonlocal pi
        x, how, by_name = frame(d, r)
        m = build(p, con, term, d.names, by_name, r)
        p["feature_importance_method"] = m.feature_importance_method = r.choice(["Gain", "Weight", "TotalCover", "Cover", "TotalGain"])
        m.fit(x, vector(d.y, r), sample_weight=vector(d.w, r))
        nt = m.number_of_trees
        if r.random() < 0.5:
            pi = r.randrange(0, nt + 1)
            m.set_prediction_iteration(pi)
            assert m.prediction_iteration == pi, "prediction iteration"
        j = json.loads(m.json_dump())
        trees = nodes_of(j)
        # queries: rows of the data, thresholds and values around them
        cand = [[v for v in c] + [miss] + [n["split_value"] + dlt for t in j["trees"] for n in t["nodes"]
                                            if not n["is_leaf"] and n["split_feature"] == k for dlt in (0.0, 0.0, 1.0, -1.0)]
                for k, c in enumerate(d.cols)]
        n = r.randrange(1, 10)
        q = Data([[r.choice(c) for _ in range(n)] for c in cand], [0.0] * n, [1.0] * n, d.names)
        base = lambda: frame(q, r, r.choice(["C", "F", "strided", "dtype"]))[0]
        named = lambda: frame(q, r, r.choice(["df", "dfdtype", "dfcopy"]))[0]
        preds = []
        for how_, f in (("array", base), ("frame", named)):
            for par in (None, True, False):
                v = m.predict(f(), parallel=par)
                assert v.shape == (n,), "prediction shape"
                preds.append({"how": f"{how_} parallel={par}", "v": nums(v)})
        used = nt if pi < 0 else pi
        lv = m.predict_leaf_indices(r.choice([base, named])())
        assert lv.shape == (n, used), "leaf index shape"
        contribs = []
        for meth, alias in METHODS.items():
            if meth == "ProbabilityChange" and p["objective_type"] != "LogLoss":
                continue
            c = m.predict_contributions(r.choice([base, named])(), method=r.choice(alias), parallel=r.choice([None, True, False]))
            assert c.shape == (n, d.ncols + 1), "contribution shape"
            contribs.append({"how": meth, "v": nums(c.reshape(-1))})
        pd_, grids = [], []
        full = d
        for k in range(d.ncols):
            samples = r.choice([None, None, 1, 2, 7])
            excl = r.random() < 0.5
            lo, hi = r.choice([(0.2, 0.98), (0.0, 1.0), (0.5, 0.5), (0.25, 0.75)])
            present = [v for v in full.cols[k] if v == v and v != miss]
            if not present and samples is not None:
                continue  # no quantiles of nothing
            byname = r.random() < 0.5
            fx = frame(full, r, r.choice(["df", "dfdtype", "dfcopy"]) if byname else r.choice(["C", "F", "strided", "dtype", "df"]))[0]
            g = m.partial_dependence(fx, full.names[k] if byname else k, samples=samples, exclude_missing=excl, percentile_bounds=(lo, hi))
            if len(present) == 0 and excl:
                assert g.size == 0, "grid of nothing"
            else:
                assert g.ndim == 2 and g.shape[1] == 2, "grid shape"
            pts = [] if g.size == 0 else list(g[:, 0])
            grids.append({"f": k, "col": nums(full.cols[k]), "samples": -1 if samples is None else samples, "excl": excl,
                          "lo": num(lo), "hi": num(hi), "pts": nums(pts)})
            for at, v in ([] if g.size == 0 else g):
                pd_.append({"f": k, "at": num(at), "v": num(v)})
        index = (lambda f: d.names.index(f)) if by_name else (lambda f: int(f))
        imp, arrs = [], []
        for meth in ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]:
            for norm in (True, False):
                v = m.calculate_feature_importance(method=meth, normalize=norm)
                imp.append({"how": meth, "norm": norm, "v": sorted([index(f), num(x)] for f, x in v.items())})
        arr = m.feature_importances_
        assert arr.shape == (d.ncols,), "importance shape"
        arrs.append({"how": m.feature_importance_method, "v": nums(arr)})
        reps = [{"how": "text", "weights": False, "trees": [parse_text(t) for t in m.text_dump()]},
                {"how": "json", "weights": True, "trees": trees},
                {"how": "nodes", "weights": True, "trees": node_rep(m.get_node_lists(), index)},
                {"how": "nodes by number", "weights": True, "trees": node_rep(m.get_node_lists(map_features_names=False), int)},
                {"how": "table", "weights": False, "trees": table_rep(m.trees_to_dataframe(), index, nt)}]
        return dict(base=num(m.base_score), pi=pi, trees=trees, x=q.xjson(), preds=preds,
                    leaves=[int(v) for v in lv.T.reshape(-1)], contribs=contribs, pd=pd_, imp=imp, imparr=arrs, grids=grids,
                    reps=reps, stray=[])
    st, v = outcome(go)
    return json.dumps({"st": st, "cfg": cfg(p, con, term, d.ncols), **(v or {"x": []})})


# ---------------------------------------------------------------- same
def answers(m, d, r, kind):
    """Everything the booster says about the data in a container of this kind."""
    X = lambda: frame(d, r, kind)[0]
    named = kind.startswith("df")
    o = {"predictions": digest(m.predict(X()), m.predict(X(), parallel=True)), "leaves": digest(m.predict_leaf_indices(X()))}
    for meth in METHODS:
        if meth == "ProbabilityChange" and m.objective_type != "LogLoss":
            continue
        o["contributions " + meth] = digest(m.predict_contributions(X(), method=meth))
    for k in range(d.ncols):
        if all(v != v or v == m.missing for v in d.cols[k]):
            continue
        for s in (None, 5):
            o[f"partial dependence {k} {s}"] = digest(m.partial_dependence(X(), d.names[k] if named else k, samples=s))
    return o


def one_same(a):
    r = rng(a[0])
    # every number representable in the small dtypes, so that all containers apply
    d, p, con, term = case(r, small=r.random() < 0.8, allow_missing=r.random() < 0.6)
    ev = [d.take([r.randrange(d.rows) for _ in range(5)]) for _ in range(r.choice([0, 1, 2]))]
    metric = {"LogLoss": "LogLoss", "SquaredLoss": "RootMeanSquaredError"}[p["objective_type"]]
    p["evaluation_metric"] = metric

    def go(kind, first):
        x, how, by_name = frame(d, r, kind)
        m = build(p, con, term, d.names, by_name)
        V = (lambda v: np.array(v, dtype="float64")) if first else (lambda v: vector(v, r))
        F = (lambda e: e.x()) if first else (lambda e: frame(e, r)[0])
        w = V(d.w)
        if all(v == 1 for v in d.w) and r.random() < 0.5:
            w = None
        data = None if not ev else [(F(e), V(e.y), V(e.w)) if first or any(v != 1 for v in e.w) or r.random() < 0.5 else (F(e), V(e.y)) for e in ev]
        m.fit(x, V(d.y), sample_weight=w, evaluation_data=data)
        j = json.loads(m.json_dump())
        h = m.get_evaluation_history()
        o = {"trees": trees_digest(j), "base": num(m.base_score), "history": "none" if h is None else digest(h)}
        # data the model was not given, as well
        o.update(answers(m, d, r, kind))
        return how, o
    recs = []
    for i, kind in enumerate(["C", "C", "F", "strided", "dtype", "df", "dfdtype", "dfcopy"]):
        st, v = outcome(lambda: go(kind, i == 0))
        recs.append({"how": (v[0] if v else kind), "st": st, "obs": v[1] if v else {}})
    return json.dumps({"kind": "same", "vars": recs, "cfg": str(p), "con": str(con), "term": str(term), "x": d.xjson()})


# ---------------------------------------------------------------- guard
OPTS = {
    "objective_type": ["LogLoss", "SquaredLoss", "logloss", "Poisson", ""],
    "grow_policy": ["DepthWise", "LossGuide", "depthwise", "Random"],
    "evaluation_metric": [None, "AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError", "RMSE", "auc"],
    "sample_method": [None, "goss", "Goss", "random", "Random", "gos", "bernoulli", ""],
    "missing_node_treatment": ["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight", "Average", "none"],
    "importance": ["Weight", "Gain", "Cover", "TotalGain", "TotalCover", "gain", "Split"],
    "contribution": [a for v in METHODS.values() for a in v] + ["shapley", "Shap", "average "],
    "constraint": [-1, 0, 1, 2, -2, 7],
}
FLOATS = ["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate",
          "colsample_bytree"]
SPECIAL = [NAN, math.inf, -math.inf, 0.0, -0.0, -1.0, -1e-30, 1e-30, 1.0, 2.0, 1e30, -1e30, 5e-324, -5e-324]


def one_guard(a):
    r = rng(a[0])
    X = np.array([[0.0], [1.0], [2.0], [3.0]])
    y = np.array([0.0, 0.0, 1.0, 1.0])
    if a[1] % 3 == 0:
        opt = r.choice(list(OPTS))
        val = r.choice(OPTS[opt])

        def go():
            if opt == "importance":
                GradientBooster(iterations=1).fit(X, y).calculate_feature_importance(method=val)
            elif opt == "contribution":
                GradientBooster(iterations=1).fit(X, y).predict_contributions(X, method=val)
            elif opt == "constraint":
                GradientBooster(iterations=1, monotone_constraints={0: val}).fit(X, y)
            else:
                GradientBooster(iterations=1, **{opt: val})
        st, _ = outcome(go)
        return json.dumps({"kind": "option", "opt": opt, "val": str(val), "st": st if st == "ok" else st.split(":")[0]})
    if a[1] % 3 == 1:
        f, v = r.choice(FLOATS), r.choice(SPECIAL)
        via = r.choice(["new", "set_params"])
        st, _ = outcome(lambda: GradientBooster(**{f: v}) if via == "new" else GradientBooster().set_params(**{f: v}))
        vv = np.float64(v) if f in ("top_rate", "other_rate", "colsample_bytree") else np.float32(v)
        return json.dumps({"kind": "float", "name": f, "val": num(vv), "st": st if st == "ok" else st.split(":")[0],
                           "named": st != "ok" and re.search(r"\b%s\b" % f, st) is not None})
    # data
    p = {"missing": r.choice([NAN, -1.0]), "iterations": 2}
    d = gen_data(r, "LogLoss", p["missing"], rows=r.choice([3, 8]))
    e = d.take([0, 1, 2])
    where = r.choice(["y", "w", "ey", "ew", "x", "none"])
    bad = NAN if where in ("y", "ey", "x") else r.choice([NAN, -1.0, -1e-300, -math.inf, -0.0])
    k = r.randrange(3)
    if where == "y":
        d.y[k] = bad
    elif where == "w":
        d.w[k] = bad
    elif where == "ey":
        e.y[k] = bad
    elif where == "ew":
        e.w[k] = bad
    elif where == "x":
        d.cols[0][k] = bad

    def go():
        m = GradientBooster(**p)
        m.fit(frame(d, r)[0], vector(d.y, r), sample_weight=vector(d.w, r), evaluation_data=[(frame(e, r)[0], vector(e.y, r), vector(e.w, r))])
    st, _ = outcome(go)
    return json.dumps({"kind": "data", "y": nums(d.y), "w": nums(d.w), "ey": nums(e.y), "ew": nums(e.w),
                       "x": nums([v for c in d.cols for v in c]), "missing": num(p["missing"]),
                       "st": st if st == "ok" else st.split(":")[0], "msg": st})


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    run_cases({"fit": one_fit, "boost": one_boost, "use": one_use, "same": one_same, "guard": one_guard}[a.mode], a.seed, a.n, a.out)
