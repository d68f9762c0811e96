#!/usr/bin/env python3
"""Is the specification bound to the library?  (Not one of the checks.)

    tools/binding.py fields [N]   corrupt single observations of recorded traces: TLC must reject each
    tools/binding.py rules        change single rules of the specification: recorded traces of the
                                  unchanged library (or the closed models) must then be rejected

Uses the traces the checks left in build/run, so run the checks first.
"""
import json, os, random, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

NODE = ["d", "h", "l", "leaf", "m", "r", "sf", "sg", "sv", "w"]
# module, value of CHECK, trace, path patterns of observations
KINDS = [
    ("TraceFit", "all", "C01/cover.ndjson", ["trees.*.*." + f for f in NODE] + ["base"]),
    ("TraceFit", "all", "C16/missing.ndjson", ["trees.*.*." + f for f in NODE]),
    ("TraceFit", "all", "C17/sample.ndjson", ["trees.*.0.h"]),
    ("TraceUse", "all", "C07/use.ndjson", ["preds.*.v.*", "leaves.*", "contribs.*.v.*", "pd.*.v", "imp.*.v.*.1"] +
     ["reps.*.trees.*.*." + f for f in ("l", "r", "m", "sf", "sv", "sg", "h")]),
    ("TraceBoost", "all", "C12/boost.ndjson", ["hist.*.*", "best", "pi"]),
    ("TraceMono", "C04", "C04/mono.ndjson", ["sweeps.*.v.*"]),
    ("TraceLife", "C13", "C13/life.ndjson", ["steps.*.obs.*", "steps.*.obs.par.*"]),
    ("TracePar", "C14", "C14/par.ndjson", ["runs.*.d.*", "runs.*.d.contribs.*", "runs.*.d.pd.*"]),
    ("TraceSave", "C15", "C15/save.ndjson", ["exps.*.got.*", "exps.*.preds"]),
    ("TraceObj", "C19", "C19/obj.ndjson", ["m", "base", "tree0", "g.*", "h.*"]),
    ("TraceGuard", "C20", "C20/guard.ndjson", ["st"]),
    ("TracePy", "C21", "C21/pysame.ndjson", ["vars.*.obs.*"]),
    ("TracePyLife", "C22", "C22/pylife.ndjson", ["steps.*.obs.*", "steps.*.obs.par.*"]),
]
# module of the specification, text, replacement, then what must reject it: a trace check or a closed model
RULES = [
    ("Learn", "(p \\otimes (One \\ominus p)) \\otimes w", "(p \\otimes p) \\otimes w", "TraceFit", "C01", "C01/cover.ndjson"),
    ("Trees", "v \\prec nd.sv THEN nd.l", "v \\preceq nd.sv THEN nd.l", "TraceUse", "C07", "C07/use.ndjson"),
    ("Trees", "IF Missing(v, miss) THEN nd.m", "IF FALSE THEN nd.m", "TraceUse", "C07", "C07/use.ndjson"),
    ("Grow", "x[r] \\prec cut}", "x[r] \\preceq cut}", "TraceFit", "C01", "C01/cover.ndjson"),
    ("Learn", "THEN g \\ominus l1", "THEN g", "TraceFit", "C03", "C03/formula.ndjson"),
    ("Learn", "ClipTo(w0, NNeg(cfg.mds), cfg.mds)", "w0", "TraceFit", "C03", "C03/formula.ndjson"),
    ("Learn", "BoundBall(b, bd) == Ball(ClipTo(b.c, bd.lo, bd.hi), NMax(b.r, bd.r))", "BoundBall(b, bd) == b", "TraceFit", "C03", "C03/formula.ndjson"),
    ("Learn", "(Hi(gain) \\succ cfg.gamma \\/ ~NIsFin(gain.r))", "(Hi(gain) \\succ (cfg.gamma \\oplus One) \\/ ~NIsFin(gain.r))", "TraceFit", "C02", "C02/best.ndjson"),
    ("Learn", "Lo(gain) \\succ cfg.gamma]", "Lo(gain) \\succ Zero]", "TraceFit", "C02", "C02/best.ndjson"),
    ("Learn", "DefMlw(cfg, H, t)  == (H \\ominus t.h) \\succeq cfg.mlw", "DefMlw(cfg, H, t)  == TRUE", "TraceFit", "C02", "C02/best.ndjson"),
    ("Learn", "[] con = 1 -> Hi(bl) \\prec Lo(br)", "[] con = 1 -> TRUE", "TraceFit", "C02", "C02/best.ndjson"),
    ("Learn", "[] con = 1 -> Lo(bl) \\prec Hi(br)", "[] con = 1 -> TRUE", "MCGrow", ("Monotone",), {"NR": 3, "V2": 3, "Set": '"short"', "Greedy": "FALSE"}),
    ("Grow", "nleaf + LeavesAdded(cfg) <= cfg.ml", "nleaf + 1 <= cfg.ml", "MCGrow", ("Limits",), {"NR": 3, "V2": 3, "Set": '"short"', "Greedy": "FALSE"}),
    ("Grow", "CASE con = 0 -> <<bd, bd>>", "CASE con = 0 -> <<Unbounded, Unbounded>>", "MCGrow", ("Monotone",), {"NR": 4, "V2": 4, "Set": '"mono"', "Greedy": "FALSE"}),
    ("Grow", "nd.d + 1 <= cfg.md", "nd.d <= cfg.md", "MCGrow", ("Limits",), {"NR": 3, "V2": 3, "Set": '"short"', "Greedy": "FALSE"}),
    ("Grow", "CanDeepen(cfg, nd) == nd.d + 1 <= cfg.md", "CanDeepen(cfg, nd) == TRUE", "TraceFit", "C02", "C02/best.ndjson"),
    ("Grow", "LeavesAdded(cfg) == IF cfg.cmb THEN 2 ELSE 1", "LeavesAdded(cfg) == 1", "TraceFit", "C02", "C02/best.ndjson"),
    ("Grow", "IF cfg.gp = \"DepthWise\" THEN {1}", "IF cfg.gp = \"LossGuide\" THEN {1}", "TraceFit", "C06", "C06/order.ndjson"),
    ("Grow", "\\/ f \\in cfg.term", "\\/ FALSE", "TraceFit", "C06", "C16/missing.ndjson"),
    ("Learn", "cfg.mnt = \"AssignToParent\" -> {all}", "cfg.mnt = \"AssignToParent\" -> {own}", "TraceFit", "C03", "C16/missing.ndjson"),
    ("Learn", "(IF ms.h = Zero \\/ ms.g = Zero THEN {nd.w} ELSE {own})", "{own}", "TraceFit", "C16", "C16/missing.ndjson"),
    ("Learn", "IF n <= nbins + 1 THEN", "IF n <= nbins + 4 THEN", "TraceFit", "C18", "C18/bins.ndjson"),
    ("Learn", "P(k) == NInt(k) \\oslash NInt(nbins)", "P(k) == NInt(k) \\oslash NInt(nbins + 1)", "TraceFit", "C18", "C18/bins.ndjson"),
    ("TraceFit", "topn == NTrunc(cfg.top \\otimes NInt(NRows))", "topn == NTrunc(cfg.top \\otimes NInt(NRows)) + 1", "TraceFit", "C17", "C17/sample.ndjson"),
    ("TraceFit", "NF32((One \\ominus cfg.top) \\oslash cfg.other)", "NF32(One \\oslash cfg.other)", "TraceFit", "C17", "C17/sample.ndjson"),
    ("Explain", "ViaMissing(t, a, b) == HasMissingBranch(NodeAt(t, a)) /\\ b = NodeAt(t, a).m", "ViaMissing(t, a, b) == FALSE", "TraceUse", "C09", "C09/use.ndjson"),
    ("Explain", "IF nd.sf \\in known THEN", "IF FALSE THEN", "TraceUse", "C10", "C10/use.ndjson"),
    ("Explain", "IF H(t, l) = H(t, r) THEN Zero", "IF FALSE THEN Zero", "TraceUse", "C09", "C09/use.ndjson"),
    ("Explain", "Fact[n - Cardinality(S) - 1]", "Fact[n - Cardinality(S)]", "TraceUse", "C09", "C09/use.ndjson"),
    ("Explain", "[] method = \"Gain\" -> gain \\oslash n", "[] method = \"Gain\" -> gain", "TraceUse", "C11", "C11/use.ndjson"),
    ("MCExplain", "(IF i >= 2 THEN", "(IF i >= 3 THEN", "MCExplain", ("RecursionIsShapley",), {"NF": 2, "MaxIn": 2, "Cut2": 1, "Ternary": "TRUE", "CV": "{1, 2}"}),
    ("MCExplain", "rest == IF met = {} THEN path ELSE Unwind(path, j)", "rest == path", "MCExplain", ("RecursionIsShapley",), {"NF": 2, "MaxIn": 2, "Cut2": 2, "Ternary": "FALSE", "CV": "{1, 2}"}),
    ("Boost", "(it - best >= r)", "(it - best > r)", "TraceBoost", "C12", "C12/boost.ndjson"),
    ("Boost", "(it - best >= r)", "(it - best > r)", "MCStop", ("StopsExactly",), {"MaxIter": 6, "MaxR": 4}),
    ("Boost", "ELSE IF NIsNaN(old) THEN TRUE", "ELSE IF NIsNaN(old) THEN FALSE", "TraceBoost", "C12", "C12/boost.ndjson"),
    ("Boost", "Maximised(name) == name = \"AUC\"", "Maximised(name) == FALSE", "TraceBoost", "C12", "C12/boost.ndjson"),
    ("Boost", "ELSE w[q] \\otimes Half])", "ELSE Zero])", "TraceObj", "C19", "C19/obj.ndjson"),
    ("Life", "!.pi = IF best < 0 THEN -1 ELSE best + 1", "!.pi = -1", "TraceLife", "C13", "C13/life.ndjson"),
    ("Life", "!.base = base, ", "", "TraceLife", "C13", "C13/life.ndjson"),
    ("Life", "WithPi(b, i) == [b EXCEPT !.pi = i]", "WithPi(b, i) == b", "TracePyLife", "C22", "C22/pylife.ndjson"),
    ("PyLife", "Cloned(b) == PyNew(b.par, b.base)", "Cloned(b) == b", "TracePyLife", "C22", "C22/pylife.ndjson"),
    ("PyLife", "Reconstructed(b, par, base) == PyNew(par, base)", "Reconstructed(b, par, base) == [b EXCEPT !.par = par]", "TracePyLife", "C22", "C22/pylife.ndjson"),
    ("Store", "other_rate |-> \"2e-1\"", "other_rate |-> \"1e-1\"", "TraceSave", "C15", "C15/save.ndjson"),
    ("Par", "out' = [out EXCEPT ![run[w].lo] = Append(@, stage)]", "out' = [out EXCEPT ![CHOOSE i \\in 1..N : \\A j \\in 1..N : Len(out[i]) <= Len(out[j])] = Append(@, stage)]", "MCPar", ("Exactly",), {"Workers": "{w1, w2}", "N": 3, "Stages": 2}),
    ("Par", "todo' = todo \\ {r}", "todo' = todo", "MCPar", ("Disjoint",), {"Workers": "{w1, w2}", "N": 3, "Stages": 2}),
]


def leaves_at(v, pat, path=()):
    """Paths of v that match the pattern and hold a scalar."""
    if not pat:
        return [path] if not isinstance(v, (dict, list)) else []
    p, rest = pat[0], pat[1:]
    out = []
    if isinstance(v, list):
        for i, x in enumerate(v):
            if p == "*" or p == str(i):
                out += leaves_at(x, rest, path + (i,))
    elif isinstance(v, dict):
        for k in v:
            if p == "*" or p == k:
                out += leaves_at(v[k], rest, path + (k,))
    return out


def corrupt(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 2])
    if isinstance(v, str) and v.startswith("~"):
        try:
            f = float(v[1:])
        except ValueError:
            return "~0"
        return "~1.5" if f != f or abs(f) == float("inf") else "~" + repr(f * rng.choice([1.01, 0.9, -1.0, 1.5]) + rng.choice([1.0, -1.0, 0.125]))
    if isinstance(v, str):
        return v + "x" if v != "ok" else rng.choice(["error", "panic"])
    return None


def at(v, path):
    for k in path:
        v = v[k]
    return v


def fields(n):
    rng = random.Random(7)
    for module, chk, trace, pats in KINDS:
        path = os.path.join(check.BUILD, "run", trace)
        lines = [x for x in open(path).read().split("\n") if x and len(x) < 30000]
        rng.shuffle(lines)
        out, what = [], []
        for pat in pats:
            k = 0
            for line in lines:
                if k >= n:
                    break
                d = json.loads(line)
                if d.get("st", "ok") != "ok" or d.get("dec") is False:
                    continue
                ps = leaves_at(d, pat.split("."))
                if not ps:
                    continue
                q = rng.choice(ps)
                old = at(d, q)
                new = corrupt(old, rng)
                if new is None:
                    continue
                at(d, q[:-1])[q[-1]] = new
                out.append(json.dumps(d)); what.append((pat, q, old, new)); k += 1
        with tempfile.TemporaryDirectory(prefix="binding") as td:
            seen = set()
            f = os.path.join(td, "t.ndjson")
            keep = list(range(len(out)))
            while keep:
                open(f, "w").write("\n".join(out[i] for i in keep) + "\n")
                c = {"TraceFile": json.dumps(f), "CHECK": json.dumps(chk)}
                if module == "TracePar":
                    c["TraceFile2"] = c["TraceFile"]
                rc, o, _, _ = check.tlc(module, c, td, "t", extra=["-continue"])
                hit = {keep[int(m) - 1] for b in re.findall(r"Error: (?:Invariant|Deadlock).*?(?=\nError: |\Z)", o, re.S)
                       for m in re.findall(r"/\\ ci = (\d+)", b)[-1:]}
                hit |= {keep[int(m) - 1] for m in re.findall(r"/\\ ci = (\d+)", o)[-1:]} if rc in (75, 76, 77) else set()
                seen |= hit
                if rc not in (75, 76, 77) or not hit:
                    if rc not in check.REJECT and rc != 0:
                        print("TLC", rc, o[-500:])
                    break
                keep = [i for i in keep if i not in hit]
        by = {}
        for i, w in enumerate(what):
            by.setdefault(w[0], [0, 0]); by[w[0]][1] += 1; by[w[0]][0] += i in seen
        print(module, trace, f"{len(seen)}/{len(out)} rejected;", "; ".join(f"{k} {a}/{b}" for k, (a, b) in by.items() if a < b), flush=True)
        for i, w in enumerate(what):
            if i not in seen:
                print("   accepted:", ".".join(map(str, w[1])), w[2], "->", w[3], flush=True)


def rules():
    bad = 0
    for mod, old, new, target, chk, arg in RULES:
        with tempfile.TemporaryDirectory(prefix="binding") as td:
            t2 = os.path.join(td, "tla")
            shutil.copytree(os.path.join(HERE, "tla"), t2)
            p = os.path.join(t2, mod + ".tla")
            s = open(p).read()
            if old not in s:
                print("STALE RULE", mod, old); bad += 1; continue
            open(p, "w").write(s.replace(old, new))
            keep, check.TLA = check.TLA, t2
            try:
                if isinstance(arg, dict):
                    rc, o, _, _ = check.tlc(target, arg, td, "t", invariants=chk, spec="MSpec" if target == "MCStop" else "Spec")
                else:
                    c = {"TraceFile": json.dumps(os.path.join(check.BUILD, "run", arg)), "CHECK": json.dumps(chk)}
                    if target == "TracePar":
                        c["TraceFile2"] = c["TraceFile"]
                    rc, o, _, _ = check.tlc(target, c, td, "t")
            finally:
                check.TLA = keep
            e = re.findall(r"/\\ err = (.*)", o)
            ok = rc in check.REJECT
            bad += not ok
            print("rejected" if ok else "ACCEPTED", mod, "|", new[:70], "|", target, chk, rc, (e[-1][:90] if e and ok else ""), flush=True)
    print("not rejected:", bad)


if __name__ == "__main__":
    fields(int(sys.argv[2]) if len(sys.argv) > 2 else 12) if sys.argv[1] == "fields" else rules()
