"""What each property's check runs."""
import json
import os
from dataclasses import dataclass, field
from typing import Callable

LEVEL = "model_checking"
BASE_ASSUMPTIONS = [
    "TLC, the operator overrides of tla/java (IEEE double arithmetic; aggregates tested against their TLA+ definitions) and the recording harness are trusted",
    "decided for the recorded executions and the bounded models only",
]


@dataclass
class Job:
    fn: Callable
    python: bool = False
    assumptions: list = field(default_factory=lambda: list(BASE_ASSUMPTIONS))


JOBS = {}


def job(prop, python=False, extra=()):
    def deco(f):
        JOBS[prop] = Job(f, python, BASE_ASSUMPTIONS + list(extra))
        return f
    return deco


ROUND = "binary32 rounding of histogram sums is covered by the radius model of Grow!TolBase"


def grow_model(ctx, invariants, greedy=True):
    """The growth rules on every data set of a few rows."""
    for rows, v2, cfgs in [(3, 3, "short"), (3, 4, "mono")] if ctx.quick else [(4, 3, "short"), (4, 4, "mono"), (2, 3, "full")]:
        ctx.model_check("MCGrow", f"MCGrow-{rows}-{v2}-{cfgs}", invariants=invariants,
                        consts={"NR": rows, "V2": v2, "Set": json.dumps(cfgs), "Greedy": str(greedy).upper()})


def fit_check(ctx, profile, q, t, big=True, name=None):
    name = name or profile
    n = ctx.n(q, t)
    if ctx.harness("fit", "--profile", profile, "--n", n, "--seed", ctx.seed, "--big", int(big and not ctx.quick),
                   "--out", name + ".ndjson"):
        ctx.trace_check("TraceFit", name + ".ndjson", name, invariants=("Conforms", "Sane"))


@job("C01", extra=[ROUND])
def c01(ctx):
    grow_model(ctx, ("OpenRows", "LeafRows"))
    fit_check(ctx, "cover", 4000, 40000)


@job("C02", extra=[ROUND])
def c02(ctx):
    grow_model(ctx, ("LossFalls",))
    fit_check(ctx, "best", 10000, 100000)


@job("C03", extra=[ROUND])
def c03(ctx):
    fit_check(ctx, "formula", 6000, 60000)


@job("C04")
def c04(ctx):
    grow_model(ctx, ("Monotone", "Stepped"), greedy=False)
    if ctx.harness("mono", "--n", ctx.n(8000, 100000), "--cells", ctx.n(1500, 4000), "--seed", ctx.seed, "--out", "mono.ndjson"):
        ctx.trace_check("TraceMono", "mono.ndjson")


@job("C05")
def c05(ctx):
    grow_model(ctx, ("Limits", "WellFormed"), greedy=False)
    fit_check(ctx, "limits", 6000, 60000)


@job("C06", extra=[ROUND])
def c06(ctx):
    fit_check(ctx, "order", 8000, 80000)


@job("C16", extra=[ROUND])
def c16(ctx):
    fit_check(ctx, "missing", 8000, 80000)


@job("C17")
def c17(ctx):
    fit_check(ctx, "sample", 8000, 80000)
    if ctx.harness("rate", "--n", ctx.n(45, 450), "--trees", 400, "--seed", ctx.seed, "--out", "rate.ndjson"):
        ctx.trace_check("TraceRate", "rate.ndjson")


@job("C18")
def c18(ctx):
    fit_check(ctx, "bins", 4000, 40000)


def use_check(ctx, q, t):
    if ctx.harness("use", "--n", ctx.n(q, t), "--seed", ctx.seed, "--out", "use.ndjson"):
        ctx.trace_check("TraceUse", "use.ndjson")


def explain_model(ctx, invariants):
    """Every small tree: features, inner nodes, thresholds per feature, ternary splits, leaf covers."""
    for nf, inner, cut, ternary, covers in ([(2, 2, 2, True, "1, 2"), (3, 3, 1, False, "1, 3")] if ctx.quick else
                                            [(2, 3, 2, True, "1, 3"), (3, 3, 1, True, "1, 2"), (4, 4, 1, False, "1, 3")]):
        ctx.model_check("MCExplain", f"MCExplain-{nf}-{inner}-{cut}", invariants=invariants,
                        consts={"NF": nf, "MaxIn": inner, "Cut2": cut, "Ternary": str(ternary).upper(), "CV": "{" + covers + "}"})


@job("C07")
def c07(ctx):
    use_check(ctx, 6000, 80000)


@job("C08")
def c08(ctx):
    explain_model(ctx, ("AddsUp",))
    use_check(ctx, 6000, 80000)


@job("C09")
def c09(ctx):
    explain_model(ctx, ("RecursionIsShapley", "Unused"))
    use_check(ctx, 5000, 80000)


@job("C10", python=True)
def c10(ctx):
    explain_model(ctx, ("KnowingAll",))
    py_check(ctx, "use", "TraceUse", 600, 12000)
    use_check(ctx, 6000, 80000)


@job("C11", python=True)
def c11(ctx):
    py_check(ctx, "use", "TraceUse", 800, 12000)
    use_check(ctx, 6000, 80000)


@job("C12")
def c12(ctx):
    ctx.model_check("MCStop", consts={"MaxIter": ctx.n(6, 8), "MaxR": 4}, spec="MSpec",
                    invariants=("BestIsFirstBest", "NoBestWithoutRounds", "StopsExactly", "NeverLate"))
    if ctx.harness("boost", "--n", ctx.n(6000, 60000), "--seed", ctx.seed, "--out", "boost.ndjson"):
        ctx.trace_check("TraceBoost", "boost.ndjson")


LIFE_OPS = ["fit0", "fit1e", "fit0e", "badY", "badW", "badE", "badX", "iters", "cmb", "ibs", "esr", "seed", "set",
            "pi1", "pinone", "meta", "json", "file"]


def histories(ctx, module, ops, depth, n_long, long_depth, out, invariants, props=()):
    """Have TLC enumerate every history up to `depth` and simulate long ones; write one per line."""
    import re
    lines = []
    c = {"Ops": "{" + ", ".join('"%s"' % o for o in ops) + "}"}
    o = ctx.model_check(module, module + "-all", consts={**c, "Depth": depth}, invariants=invariants + ("Emit",),
                        props=props, deadlock=False)
    lines += re.findall(r'^"OPS (.*)"$', o, re.M)
    if n_long:
        o = ctx.model_check(module, module + "-long", consts={**c, "Depth": long_depth}, invariants=invariants + ("Emit",),
                            deadlock=False, workers="1",
                            extra=["-simulate", f"num={n_long}", "-depth", str(long_depth + 1), "-seed", str(ctx.seed)])
        # the simulator shows every last step of a behaviour: keep one of them
        ends = {}
        for h in re.findall(r'^"OPS (.*)"$', o, re.M):
            ends.setdefault(h.rsplit(" ", 1)[0], []).append(h)
        lines += [v[(ctx.seed + i) % len(v)] for i, v in enumerate(ends.values())]
    with open(os.path.join(ctx.dir, out), "w") as f:
        f.write("\n".join(lines) + "\n")
    return len(lines)


def life(ctx, depth, n_long):
    histories(ctx, "MCLife", LIFE_OPS, depth, n_long, 14, "ops.txt", ("FitIsFresh", "PiInRange"), ("RejectedKeeps",))
    if ctx.harness("life", "--ops", "ops.txt", "--seed", ctx.seed, "--out", "life.ndjson"):
        ctx.trace_check("TraceLife", "life.ndjson")


PYLIFE_OPS = ["fitN0", "fitN1", "fitD0", "fitD1", "fitD0e", "fitN1e", "badYN0", "badYD1", "badWD0", "badMD0", "setbad",
              "setiter", "setlr", "setcmb", "setesr", "setibs", "setfim", "connames", "connums", "connone", "setnone",
              "pi1", "pinone", "meta", "pickle", "copy", "deepcopy", "saveload", "clone"]


def pylife(ctx, depth, n_long):
    histories(ctx, "MCPyLife", PYLIFE_OPS, depth, n_long, 12, "pyops.txt", ("FitIsFresh", "Unfitted", "PiInRange"),
              ("RejectedKeeps", "ParamsOnlySet", "KeptStay"))
    if ctx.python("pylife.py", "pyops.txt", "--seed", ctx.seed, "--out", "pylife.ndjson"):
        ctx.trace_check("TracePyLife", "pylife.ndjson")


def py_check(ctx, mode, module, q, t, check=None):
    """Record the Python package in one of pyrec's modes and check it with a trace specification."""
    name = "py" + mode
    if ctx.python("pyrec.py", mode, "--n", ctx.n(q, t), "--seed", ctx.seed, "--out", name + ".ndjson"):
        ctx.trace_check(module, name + ".ndjson", name, consts={"CHECK": json.dumps(check)} if check else None)


@job("C13", python=True)
def c13(ctx):
    life(ctx, ctx.n(2, 3), ctx.n(5000, 40000))
    pylife(ctx, 1, ctx.n(1000, 10000))


@job("C14")
def c14(ctx):
    for workers, n, stages in [(2, 4, 2), (3, 4, 2)] if ctx.quick else [(3, 5, 2), (4, 5, 2), (3, 4, 3), (2, 6, 2)]:
        ctx.model_check("MCPar", f"MCPar-{workers}-{n}-{stages}", spec="FairSpec", props=("Ends",),
                        invariants=("Disjoint", "Exactly", "SameAsSequential"),
                        consts={"Workers": "{" + ", ".join("w%d" % i for i in range(workers)) + "}", "N": n, "Stages": stages})
    n = ctx.n(800, 8000)
    a = ctx.harness("par", "--n", n, "--seed", ctx.seed, "--out", "par.ndjson")
    b = a and ctx.harness("par", "--n", n, "--seed", ctx.seed, "--out", "par2.ndjson")
    if b:
        ctx.trace_check("TracePar", "par.ndjson", consts={"TraceFile2": json.dumps(os.path.join(ctx.dir, "par2.ndjson"))})


@job("C15", python=True)
def c15(ctx):
    pylife(ctx, 1, ctx.n(600, 8000))
    if ctx.harness("save", "--n", ctx.n(4000, 40000), "--seed", ctx.seed, "--out", "save.ndjson"):
        ctx.trace_check("TraceSave", "save.ndjson")


@job("C20", python=True)
def c20(ctx):
    py_check(ctx, "guard", "TracePy", 4000, 40000)
    if ctx.harness("guard", "--n", ctx.n(30000, 300000), "--seed", ctx.seed, "--out", "guard.ndjson"):
        ctx.trace_check("TraceGuard", "guard.ndjson")


@job("C19")
def c19(ctx):
    if ctx.harness("obj", "--n", ctx.n(30000, 300000), "--seed", ctx.seed, "--out", "obj.ndjson"):
        ctx.trace_check("TraceObj", "obj.ndjson")


@job("C21", python=True)
def c21(ctx):
    py_check(ctx, "same", "TracePy", 800, 10000)
    py_check(ctx, "fit", "TraceFit", 800, 10000, "all")
    py_check(ctx, "boost", "TraceBoost", 1000, 12000, "all")
    py_check(ctx, "use", "TraceUse", 600, 12000, "all")


@job("C22", python=True)
def c22(ctx):
    pylife(ctx, ctx.n(2, 3), ctx.n(2000, 15000))


@job("C23", python=True)
def c23(ctx):
    py_check(ctx, "use", "TraceUse", 800, 12000)
    use_check(ctx, 6000, 80000)


NOT_APPLICABLE = {}
_TV = "TLA+ trace validation with TLC"
NOTES = {
    "C01": ("TLA+ model checking and trace validation with TLC", "The growth rules are model checked on every tiny data set (rows of nodes partition the rows). Every tree of each recorded fit is re-grown by the Grow state machine; the cover of each node must equal the hessian sum of the rows the prediction rule routes there."),
    "C02": ("TLA+ model checking and trace validation with TLC", "The growth rules are model checked on every tiny data set (every split lowers the regularised loss). Each logged split must be an admissible Split action and no certainly better action may be enabled; each leaf must be a justified Retire action."),
    "C03": (_TV, "Logged weights and gains must lie in the rounding balls of the specification's formulas (exact for dyadic cases)."),
    "C05": ("TLA+ model checking and trace validation with TLC", "The growth rules are model checked on every tiny data set (limits and tree shape). Structural limits and well-formedness are invariants of the re-grown tree and of the logged tree."),
    "C06": (_TV, "The order of node creation in each logged tree must be an order in which the growth-policy queue of the specification can hand out nodes."),
    "C16": (_TV, "Direction, termination and weight of missing children are compared with the specification's treatment rules at every split."),
    "C17": (_TV, "Row samples are decoded from root covers (weights are powers of a base) and compared with the sampling actions; column sets are inferred by TLC."),
    "C18": (_TV, "Every threshold must be one of the specification's quantile or distinct-value cut points of the column."),
    "C04": ("TLA+ model checking and trace validation with TLC", "The growth rules are model checked on every tiny data set with constraints (trees are monotone). Complete grid sweeps (every cell between recorded thresholds, and missing) of each constrained feature are compared step by step with the monotone order; every trained tree also re-routed by TLC."),
    "C07": (_TV, "Predictions and leaf indices of the real library for probe rows are compared with the routing operator of the specification."),
    "C08": ("TLA+ model checking and trace validation with TLC", "The explanation rules are model checked on every small tree (contributions add up). Contribution rows are summed by TLC and compared with the specification's prediction."),
    "C09": ("TLA+ model checking and trace validation with TLC", "The Shapley recursion is model checked against the coalition definition on every small tree. Each contribution is compared with the method's definition; Shapley values with the sum over all coalitions."),
    "C10": ("TLA+ model checking and trace validation with TLC", "Partial dependence is model checked on every small tree (fixing every feature gives the prediction). Logged partial dependence values are compared with the recursive cover average of the specification."),
    "C11": (_TV, "Importances are recomputed from the logged trees."),
    "C12": ("TLA+ model checking and trace validation with TLC", "The early-stopping machine is model checked over all metric histories up to a bound; recorded fits must be behaviours of it with every history entry equal to the metric's definition."),
    "C19": (_TV, "Metric, gradient, hessian and base-score calls are compared with their definitions in the specification."),
    "C13": ("TLA+ model checking and trace validation with TLC", "The booster lifecycle is model checked; TLC enumerates every short operation history and simulates long ones, these are replayed into the library and the Python package, and every observed state must be the one the specification reaches (a fit: what a fresh booster gives)."),
    "C14": ("TLA+ model checking and trace validation with TLC", "A fork/join model of the parallel steps is model checked under every schedule. Each fit is repeated with parallel on and off, under 1..8 threads, concurrently and in a second process; TLC requires equal observations."),
    "C15": ("TLA+ model checking and trace validation with TLC", "Save/load steps of recorded models, of documents with fields removed and of damaged files are compared with the storage specification; copies inside Python histories with the lifecycle specification."),
    "C20": (_TV, "Recorded construction, fitting and scoring attempts (Rust and Python) are judged by the specification's validity predicate: rejected with the right error if and only if invalid, never aborted."),
    "C21": (_TV, "The same numbers through random containers must give equal observations; fits, evaluation sets and queries made through random containers and column names are checked with the training, boosting and usage specifications."),
    "C22": ("TLA+ model checking and trace validation with TLC", "The Python lifecycle (set_params, fits, rejected fits, pickle, copies, clone, save/load) is model checked; TLC-generated histories are replayed and every observed state compared with the specification, originals of copies included."),
    "C23": (_TV, "JSON and text dumps are parsed and walked by TLC against the nodes that predict."),
}
