"""Number encoding, data, parameters and containers shared by the Python recorders."""
import hashlib
import json
import random
import sys
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")
from forust import GradientBooster  # noqa: E402

NAN = float("nan")


def num(v):
    v = float(v)
    if v != v:
        return "~NaN"
    if v == float("inf"):
        return "~inf"
    if v == float("-inf"):
        return "~-inf"
    return "~" + repr(v)


def n32(v):
    return num(np.float32(v))


def nums(v):
    return [num(x) for x in v]


def cap(v):
    return min(int(v), 1 << 30)


def digest(*arrays):
    """Bit-exact digest of float arrays (all NaNs alike) with their shapes."""
    h = hashlib.sha256()
    for a in arrays:
        a = np.array(a, dtype="float64")
        a[np.isnan(a)] = NAN
        h.update(repr(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:24]


def nan0(v):
    return NAN if v is None else v


def nodes_of(model_json):
    """The trees of a JSON dump in the notation of the traces."""
    out = []
    for t in model_json["trees"]:
        out.append([{
            "n": cap(n["num"]), "w": n32(nan0(n["weight_value"])), "h": n32(nan0(n["hessian_sum"])), "d": cap(n["depth"]),
            "sv": num(nan0(n["split_value"])), "sf": cap(n["split_feature"]), "sg": n32(nan0(n["split_gain"])),
            "m": cap(n["missing_node"]), "l": cap(n["left_child"]), "r": cap(n["right_child"]), "leaf": n["is_leaf"]}
            for n in t["nodes"]])
    return out


def trees_digest(model_json):
    return hashlib.sha256(json.dumps(model_json["trees"], sort_keys=True).encode()).hexdigest()[:24]


NAMES = [["b", "a", "c", "d", "e", "f"], ["x 1", "é", "0", "A", "a", "Leaf"], ["f10", "f2", "f1", "f0", "f11", "f3"],
         ["z", "y", "x", "w", "v", "u"]]


class Data:
    def __init__(self, cols, y, w, names):
        self.cols, self.y, self.w, self.names = cols, y, w, names

    @property
    def rows(self):
        return len(self.y)

    @property
    def ncols(self):
        return len(self.cols)

    def x(self):
        return np.array(self.cols, dtype="float64").T.copy() if self.cols else np.zeros((self.rows, 0))

    def take(self, idx):
        return Data([[c[i] for i in idx] for c in self.cols], [self.y[i] for i in idx], [self.w[i] for i in idx], self.names)

    def xjson(self):
        return [nums(c) for c in self.cols]


def gen_data(r, obj, missing, rows=None, ncols=None, small=False, allow_missing=True):
    rows = rows or r.choice([3, 8, 15, 25, 40])
    ncols = ncols or r.choice([1, 2, 3, 4])
    cols = []
    for _ in range(ncols):
        kind = r.randrange(3 if small else 4)
        if kind == 0:
            c = [float(r.randrange(2)) for _ in range(rows)]
        elif kind == 1:
            c = [float(r.randrange(-5, 6)) for _ in range(rows)]
        elif kind == 2:
            c = [r.randrange(-40, 41) / 8 for _ in range(rows)]
        else:
            c = [r.gauss(0, 1) for _ in range(rows)]
        if allow_missing and r.random() < 0.4:
            p = r.choice([0.1, 0.3, 1.0 if r.random() < 0.2 else 0.5])
            c = [missing if r.random() < p else v for v in c]
        cols.append(c)
    sig = [sum((0.7 - 0.3 * j) * (0 if (c[i] != c[i] or c[i] == missing) else c[i]) for j, c in enumerate(cols)) for i in range(rows)]
    if obj == "LogLoss":
        y = [float(s + r.gauss(0, 0.5) > 0) for s in sig]
    else:
        y = [round(s + r.gauss(0, 0.5), 3) for s in sig]
    wk = r.randrange(4)
    w = [1.0] * rows if wk < 2 else [float(r.choice([1, 2, 3])) for _ in range(rows)] if wk == 2 else [r.choice([0.0, 0.5, 1.0, 2.25]) for _ in range(rows)]
    if obj == "LogLoss":
        # both classes are present: the base score is finite
        y[0], y[1] = 0.0, 1.0
    w[0], w[1] = max(w[0], 0.5), max(w[1], 0.5)
    return Data(cols, y, w, r.choice(NAMES)[:ncols])


DEFAULTS = dict(objective_type="LogLoss", iterations=100, learning_rate=0.3, max_depth=5, max_leaves=sys.maxsize, l1=0.0,
                l2=1.0, gamma=0.0, max_delta_step=0.0, min_leaf_weight=1.0, base_score=0.5, nbins=256, parallel=True,
                allow_missing_splits=True, monotone_constraints=None, subsample=1.0, top_rate=0.1, other_rate=0.2,
                colsample_bytree=1.0, seed=0, missing=NAN, create_missing_branch=False, sample_method=None,
                grow_policy="DepthWise", evaluation_metric=None, early_stopping_rounds=None, initialize_base_score=True,
                terminate_missing_features=None, missing_node_treatment="None", log_iterations=0,
                feature_importance_method="Gain", force_children_to_bound_parent=False)


def gen_params(r, ncols):
    """Parameters with constraints and terminated features by column number."""
    p = dict(
        objective_type=r.choice(["LogLoss", "SquaredLoss"]), iterations=r.choice([1, 2, 3]),
        learning_rate=r.choice([0.3, 1.0, 0.5]), max_depth=r.choice([1, 2, 3, 5]), l2=r.choice([0.0, 1.0, 1.0]),
        l1=r.choice([0.0, 0.0, 0.5]), gamma=r.choice([0.0, 0.0, 0.01]), min_leaf_weight=r.choice([0.0, 0.5, 1.0]),
        max_delta_step=r.choice([0.0, 0.0, 0.5]), nbins=r.choice([256, 256, 8]), parallel=r.random() < 0.5,
        allow_missing_splits=r.random() < 0.7, missing=r.choice([NAN, NAN, -999.0, 0.0]),
        create_missing_branch=r.random() < 0.5, grow_policy=r.choice(["DepthWise", "LossGuide"]),
        max_leaves=r.choice([sys.maxsize, sys.maxsize, 4]),
        initialize_base_score=r.random() < 0.7, base_score=r.choice([0.5, 0.5, -1.25]),
        missing_node_treatment=r.choice(["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"]),
        force_children_to_bound_parent=r.random() < 0.2)
    con, term = {}, []
    if r.random() < 0.5:
        con = {i: r.choice([1, -1, 0]) for i in range(ncols) if r.random() < 0.6}
    if r.random() < 0.4:
        term = [i for i in range(ncols) if r.random() < 0.5]
    return p, con, term


def cfg(p, con, term, ncols):
    q = {**DEFAULTS, **p}
    sm = q["sample_method"]
    sm = {"goss": "Goss", "random": "Random", None: "None"}.get(sm, sm)
    if q["subsample"] < 1 and sm == "None":
        sm = "Random"
    return {
        "obj": q["objective_type"], "iters": cap(q["iterations"]), "lr": n32(q["learning_rate"]), "md": cap(q["max_depth"]),
        "ml": cap(q["max_leaves"]), "l1": n32(q["l1"]), "l2": n32(q["l2"]), "gamma": n32(q["gamma"]),
        "mds": n32(q["max_delta_step"]), "mlw": n32(q["min_leaf_weight"]), "base": num(q["base_score"]),
        "nbins": q["nbins"], "parallel": q["parallel"], "ams": q["allow_missing_splits"],
        "con": [con.get(i, 0) for i in range(ncols)], "sm": sm, "subsample": n32(q["subsample"]), "top": num(q["top_rate"]),
        "other": num(q["other_rate"]), "cs": num(q["colsample_bytree"]), "seed": cap(q["seed"]), "missing": num(q["missing"]),
        "cmb": q["create_missing_branch"], "gp": q["grow_policy"], "metric": q["evaluation_metric"] or "default",
        "esr": -1 if q["early_stopping_rounds"] is None else q["early_stopping_rounds"], "ibs": q["initialize_base_score"],
        "term": sorted(term), "mnt": q["missing_node_treatment"], "fcb": q["force_children_to_bound_parent"]}


# ---------------------------------------------------------------- containers
def lossless(c, dt):
    with np.errstate(all="ignore"):
        try:
            a = np.array(c, dtype="float64")
            if np.isnan(a).any() and np.dtype(dt).kind not in "fO":
                return False
            b = a.astype(dt).astype("float64")
        except (TypeError, ValueError, OverflowError):
            return False
    return ((a == b) | (np.isnan(a) & np.isnan(b))).all()


DTYPES = ["int8", "int16", "int32", "int64", "float16", "float32", "uint8", "uint32", "bool", "float64", ">f8", ">i4", ">f4",
          "object", "longdouble"]


def strided(a, r):
    """The same numbers as a view of a larger array."""
    k = r.randrange(4 if a.ndim == 2 else 2)
    if k == 0:
        big = np.full((a.shape[0] * 2,) + a.shape[1:], 7, dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if k == 1:
        return a[::-1].copy()[::-1]
    if k == 2:
        big = np.full((a.shape[0], a.shape[1] * 2), 7, dtype=a.dtype)
        big[:, ::2] = a
        return big[:, ::2]
    big = np.full((a.shape[0] + 2, a.shape[1] + 3), 7, dtype=a.dtype)
    big[1:-1, 2:-1] = a
    return big[1:-1, 2:-1]


def odd_index(n, r):
    k = r.randrange(4)
    if k == 0:
        return pd.RangeIndex(n)
    if k == 1:
        return pd.Index([n - 1 - i for i in range(n)])
    if k == 2:
        return pd.Index([i // 2 for i in range(n)])
    return pd.Index(["r%d" % ((i * 7) % max(n, 1)) for i in range(n)])


def frame(d, r, kind=None):
    """Data as (container, description, by_name)."""
    x = d.x()
    kind = kind or r.choice(["C", "F", "strided", "dtype", "df", "df", "dfdtype", "dfcopy"])
    if kind == "C":
        return x, "C array", False
    if kind == "F":
        return np.asfortranarray(x), "Fortran array", False
    if kind == "strided":
        a = strided(x, r)
        return (a if r.random() < 0.5 else strided(np.asfortranarray(x), r)), "strided array", False
    if kind == "dtype":
        ok = [t for t in DTYPES if all(lossless(c, t) for c in d.cols)]
        t = r.choice(ok)
        a = x.astype(t)
        if r.random() < 0.3:
            a = strided(a, r)
        return a, f"{t} array", False
    idx = odd_index(d.rows, r)
    if kind == "df":
        return pd.DataFrame(x, columns=d.names, index=idx), "DataFrame", True
    if kind == "dfcopy":
        wide = pd.DataFrame({**{"junk": range(d.rows)}, **{n: c for n, c in zip(reversed(d.names), reversed(d.cols))}}, index=idx)
        return wide[d.names], "DataFrame of selected columns", True
    cols = {}
    for n, c in zip(d.names, d.cols):
        ok = [t for t in DTYPES if not t.startswith(">") and t != "longdouble" and lossless(c, t)]
        cols[n] = pd.Series(np.array(c, dtype="float64").astype(r.choice(ok)), index=idx)
    return pd.DataFrame(cols, columns=d.names), "DataFrame of several dtypes", True


def vector(v, r):
    a = np.array(v, dtype="float64")
    k = r.randrange(5)
    if k == 0:
        return a
    if k == 1:
        return strided(a, r)
    if k == 2:
        return a.astype(r.choice([t for t in DTYPES if lossless(v, t)]))
    if k == 3:
        return pd.Series(a, index=odd_index(len(v), r))
    return pd.Series(a.astype(r.choice([t for t in DTYPES if t[0] != ">" and t != "longdouble" and lossless(v, t)])),
                     index=odd_index(len(v), r))


def build(p, con, term, names, by_name, r=None):
    """A booster whose constraints are given by name or by number."""
    key = (lambda i: names[i]) if by_name else (lambda i: i)
    t = [key(i) for i in term]
    if r is not None and r.random() < 0.3:
        t = set(t)
    q = dict(p)
    if con or r is None or r.random() < 0.7:
        q["monotone_constraints"] = {key(i): c for i, c in con.items()}
    if t or r is None or r.random() < 0.7:
        q["terminate_missing_features"] = t
    return GradientBooster(**q)


def describe(e):
    return f"{type(e).__name__}: {e}"[:200]


def run_cases(fn, seed, n, out, procs=8):
    import multiprocessing as mp
    with mp.get_context("fork").Pool(procs) as pool, open(out, "w") as f:
        for v in pool.imap(fn, [(seed * 1_000_003 + i, i) for i in range(n)], chunksize=max(1, min(64, n // (procs * 4)))):
            f.write(v + "\n")


def rng(s):
    return random.Random(s)
