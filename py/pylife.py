"""Replays operation histories on a Python booster: pylife.py OPSFILE --seed S --out FILE -> TracePyLife.tla"""
import argparse
import copy
import os
import pickle
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *  # noqa: E402,F403
from pyrec import outcome  # noqa: E402

F32 = {"learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"}
F64 = {"top_rate", "other_rate", "colsample_bytree", "missing"}
SM = {None: "None", "None": "None", "goss": "Goss", "Goss": "Goss", "random": "Random", "Random": "Random"}


def canon(p):
    """Parameters in one form: numbers in the precision they are kept in, base_score apart."""
    o = {}
    for k, v in p.items():
        if k == "base_score":
            continue
        if k in F32:
            o[k] = n32(v)
        elif k in F64:
            o[k] = num(v)
        elif k == "monotone_constraints":
            o[k] = ",".join(sorted(f"{f!r}={int(c)}" for f, c in (v or {}).items()))
        elif k == "terminate_missing_features":
            o[k] = ",".join(sorted(repr(f) for f in (v or ())))
        elif k == "sample_method":
            s = SM.get(v, str(v))
            o[k] = "Random" if s == "None" and p["subsample"] < 1 else s
        else:
            o[k] = str(v)
    keys = list(p.get("monotone_constraints") or {}) + list(p.get("terminate_missing_features") or ())
    o["keys"] = "none" if not keys else "names" if isinstance(keys[0], str) else "numbers"
    return o


class Set:
    def __init__(self, id_, frame_, ev, d, e):
        self.id, self.frame, self.ev, self.d, self.e = id_, frame_, ev, d, e

    def args(self, r):
        kind = r.choice(["df", "dfdtype", "dfcopy"]) if self.frame else r.choice(["C", "F", "strided"])
        kw = {"sample_weight": vector(self.d.w, r)}
        if self.ev:
            kw["evaluation_data"] = [(frame(self.e, r, kind)[0], vector(self.e.y, r), vector(self.e.w, r))]
        return (frame(self.d, r, kind)[0], vector(self.d.y, r)), kw

    def json(self):
        return {"id": self.id, "frame": self.frame, "names": self.d.names if self.frame else [], "n": self.d.ncols}


def probes(m, n):
    return np.array([[v, -v, v * 2][:n] for v in (-9.0, -1.5, -0.25, 0.0, 0.5, 1.0, 2.0, 7.0)] + [[m.missing] * n])


def model_obs(m, cols):
    j = json.loads(m.json_dump())
    h = m.get_evaluation_history()
    return {"trees": trees_digest(j), "n": m.number_of_trees, "hist": "none" if h is None else digest(h),
            "best": -1 if m.best_iteration is None else m.best_iteration, "base": num(m.base_score)}


def imp_obs(m):
    if m.number_of_trees == 0:
        return "none"
    v = m.calculate_feature_importance(method="Gain", normalize=False)
    return repr(sorted((str(k), num(x)) for k, x in v.items())) + digest(m.feature_importances_)


def meta_of(m, key="k"):
    try:
        return [[key, m.get_metadata(key)]]
    except KeyError:
        return []


def obs(m, cols):
    o = model_obs(m, cols)
    X = probes(m, cols)
    o.update(pi=-1 if m.prediction_iteration is None else m.prediction_iteration, preds=digest(m.predict(X)),
             preds0=digest(np.full(len(X), m.base_score)), par=canon(m.get_params()), meta=meta_of(m), imp=imp_obs(m),
             names=list(getattr(m, "feature_names_in_", [])), nf=int(getattr(m, "n_features_", -1)))
    if m.number_of_trees > 0:
        # the booster as a reader of its saved file sees it
        f = tempfile.mktemp(prefix="pl", dir=".")
        m.save_booster(f)
        c = GradientBooster.load_booster(f)
        os.remove(f)
        o["stored"] = {"par": canon(c.get_params()), "names": list(getattr(c, "feature_names_in_", [])), "preds": digest(c.predict(X)),
                       "imp": imp_obs(c)}
    assert m.get_best_iteration() == m.best_iteration
    assert m.booster.base_score == m.base_score, "two base scores"
    return o


def reference(par, base, data, r):
    def go():
        m = GradientBooster(**{**par, "base_score": base})
        a, kw = data.args(r)
        m.fit(*a, **kw)
        o = model_obs(m, data.d.ncols)
        o["imp"] = imp_obs(m)
        o["preds"] = []
        for u in range(m.number_of_trees + 1):
            m.set_prediction_iteration(u)
            o["preds"].append(digest(m.predict(probes(m, data.d.ncols))))
        return o
    st, v = outcome(go)
    return {**(v or {}), "st": st}


def one_life(a):
    seed, i, ops = a
    r = rng(seed)
    missing = r.choice([NAN, NAN, -999.0])
    obj = r.choice(["LogLoss", "SquaredLoss"])
    metric = {"LogLoss": "LogLoss", "SquaredLoss": "RootMeanSquaredError"}[obj]
    ds = {}
    for id_, n, names in (("0", 2, ["b", "a"]), ("1", 3, ["a", "c", "b"])):
        d = gen_data(r, obj, missing, rows=12, ncols=n)
        d.names = names
        e = d.take([0, 1, 2, 3])
        for ev in (False, True):
            for fr in (False, True):
                ds[("D" if fr else "N") + id_ + ("e" if ev else "")] = Set(id_, fr, ev, d, e)
    par = {"objective_type": obj, "iterations": 2, "missing": missing, "evaluation_metric": metric,
           "learning_rate": r.choice([0.3, 0.1]), "l2": r.choice([1.0, 0.7]), "min_leaf_weight": r.choice([0.5, 0.1, 1.0]),
           "parallel": r.random() < 0.5, "max_depth": r.choice([3, 5]), "gamma": r.choice([0.0, 0.05]), "nbins": r.choice([256, 5]),
           "initialize_base_score": True, "seed": r.randrange(100), "base_score": r.choice([0.5, 0.5, -0.1]),
           "subsample": r.choice([1.0, 1.0, 0.6]), "sample_method": r.choice([None, None, "goss", "Random"]),
           "colsample_bytree": r.choice([1.0, 0.7]), "grow_policy": r.choice(["DepthWise", "LossGuide"]),
           "top_rate": r.choice([0.1, 0.3]), "other_rate": r.choice([0.2, 0.4]),
           "missing_node_treatment": r.choice(["None", "AverageNodeWeight", "AssignToParent", "AverageLeafWeight"]),
           "max_leaves": r.choice([sys.maxsize, 5, 40]), "l1": r.choice([0.0, 0.2]), "max_delta_step": r.choice([0.0, 0.9]),
           "allow_missing_splits": r.random() < 0.6, "force_children_to_bound_parent": r.random() < 0.3,
           "log_iterations": r.choice([0, 0, 5]), "create_missing_branch": r.random() < 0.4}
    # leave out arguments that have their default
    given = {k: v for k, v in par.items() if k not in DEFAULTS or DEFAULTS[k] is not v or r.random() < 0.5}
    par = {**DEFAULTS, **par}
    scratch = tempfile.mkdtemp(prefix="pylife", dir=".")

    def go():
        nonlocal par
        m = GradientBooster(**given)
        base = par["base_score"]
        cols, fitted = 2, False
        init = obs(m, cols)
        steps, kept = [], []
        for op in ops:
            s = {"name": op}
            st = "ok"
            if op.startswith("fit"):
                data = ds[op[3:]]
                kind = canon(par)["keys"]
                fits = kind == "none" or (kind == "names") == data.frame
                s.update(op="fit", data=data.json())
                s["ref"] = reference(par, base, data, r) if fits else {"st": "unfit"}
                args, kw = data.args(r)
                st, _ = outcome(lambda: m.fit(*args, **kw))
                if fits and s["ref"]["st"] == "ok":
                    base, cols, fitted = float(s["ref"]["base"][1:]), data.d.ncols, True
            elif op.startswith("bad"):
                s["op"] = "bad"
                data = ds[op[4:]]
                (X, y), kw = data.args(r)
                y = np.array(y, dtype="float64")
                if op[3] == "Y":
                    y[1] = NAN
                elif op[3] == "W":
                    kw["sample_weight"] = np.array(data.d.w) - 100
                else:
                    kw["evaluation_data"] = [(frame(data.e, r, "df")[0].rename(columns={"a": "zz"}), data.e.y)]
                st, _ = outcome(lambda: m.fit(X, y, **kw))
            elif op == "setbad":
                s["op"] = "bad"
                bad = r.choice([{"l2": -1.0}, {"objective_type": "nope"}, {"learning_rate": NAN}, {"unknown": 1},
                                {"sample_method": "gos"}, {"iterations": 9, "gamma": -0.5}])
                st, _ = outcome(lambda: m.set_params(**bad))
            elif op.startswith("set") or op.startswith("con"):
                new = {
                    "setiter": {"iterations": 5 - par["iterations"]}, "setlr": {"learning_rate": 0.5 if par["learning_rate"] != 0.5 else 0.3},
                    "setcmb": {"create_missing_branch": not par["create_missing_branch"]},
                    "setesr": {"early_stopping_rounds": 1 if par["early_stopping_rounds"] is None else None},
                    "setibs": {"initialize_base_score": not par["initialize_base_score"]},
                    "setfim": {"feature_importance_method": "Weight" if par["feature_importance_method"] == "Gain" else "Gain"},
                    "connames": {"monotone_constraints": {"a": 1}, "terminate_missing_features": r.choice([["b"], {"b", "a"}])},
                    "connums": {"monotone_constraints": {0: -1}, "terminate_missing_features": r.choice([[1], {0}])},
                    "connone": r.choice([{"monotone_constraints": None, "terminate_missing_features": None},
                                         {"monotone_constraints": {}, "terminate_missing_features": []}]), "setnone": {}}[op]
                par = {**par, **new}
                c = canon(par)
                s.update(op="set", par={k: c[k] for k in list(new) + (["keys"] if op.startswith("con") else [])})
                st, _ = outcome(lambda: m.set_params(**new))
                fitted = False
            elif op in ("pi1", "pinone"):
                s.update(op="pi", pi=1 if op == "pi1" else -1)
                st, _ = outcome(lambda: m.set_prediction_iteration(1 if op == "pi1" else None))
            elif op == "meta":
                v = r.choice(["v", "", "ü \"x\"\n", '{"a": [1]}'])
                s.update(op="meta", key="k", value=v)
                st, _ = outcome(lambda: m.insert_metadata("k", v))
            else:
                s["op"] = "clone" if op == "clone" else "copy"

                def dup():
                    if op == "pickle":
                        return pickle.loads(pickle.dumps(m, protocol=r.choice([2, 4, 5])))
                    if op == "copy":
                        return copy.copy(m)
                    if op == "deepcopy":
                        return copy.deepcopy(m)
                    if op == "clone":
                        from sklearn.base import clone
                        return clone(m)
                    p = os.path.join(scratch, "m.json")
                    m.save_booster(p)
                    return GradientBooster.load_booster(p)
                st, c = outcome(dup)
                if c is not None:
                    kept.append((m, cols))
                    m = c
                    if op == "clone":
                        fitted = False
                else:
                    kept.append((m, cols))
            s["st"] = st
            s["obs"] = obs(m, cols)
            steps.append(s)
            if st != "ok" and s["op"] not in ("bad", "fit"):
                break
        return init, steps, [obs(q, c) for q, c in kept]
    st, v = outcome(go)
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    init, steps, kept = v or ({}, [], [])
    return json.dumps({"st": st, "ops": " ".join(ops), "par0": canon(par0(par, given)), "init": init, "steps": steps, "kept": kept})


def par0(par, given):
    return {**DEFAULTS, **given}


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ops")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    import multiprocessing as mp
    todo = [(a.seed * 1_000_003 + i, i, line.split()) for i, line in enumerate(open(a.ops)) if line.strip()]
    with mp.get_context("fork").Pool(8) as pool, open(a.out, "w") as f:
        for v in pool.imap(one_life, todo, chunksize=max(1, min(64, len(todo) // 32))):
            f.write(v + "\n")
