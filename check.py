#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property: builds the harness from /repo's working tree, records
traces of the real library, and has TLC check them (and the model itself)
against the specification in tla/.  Exit 0: held on everything explored.
Exit 1: a line VIOLATION property=... replay=...  Exit 2: tool error.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TLA = os.path.join(HERE, "tla")
TOOLS = "/opt/veriftools/tla"
CP = f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar"
PY = "/opt/pyenv/bin/python"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
           PYO3_PYTHON=PY)
sys.path.insert(0, HERE)
from jobs import JOBS, LEVEL  # noqa: E402


class ToolError(Exception):
    pass


def tree_hash(paths, skip=("target", "__pycache__", ".git", "build")):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in skip)
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock", ".py", ".java", ".tla")):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def stamp(name):
    try:
        return open(os.path.join(BUILD, name)).read()
    except OSError:
        return ""


def put(name, v):
    with open(os.path.join(BUILD, name), "w") as f:
        f.write(v)


def run(cmd, cwd=None, env=None, timeout=900, what="command"):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"{what} timed out")
    return r.returncode, r.stdout


def build(python_ext):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # TLC operator overrides
        h = tree_hash([os.path.join(TLA, "java")])
        if stamp("java.stamp") != h:
            cls = os.path.join(BUILD, "classes")
            shutil.rmtree(cls, ignore_errors=True)
            os.makedirs(cls)
            src = [os.path.join(TLA, "java", f) for f in sorted(os.listdir(os.path.join(TLA, "java")))]
            rc, o = run(["javac", "-nowarn", "-cp", CP, "-d", cls] + src, what="javac")
            if rc:
                raise ToolError("javac failed\n" + o)
            put("java.stamp", h)
        # harness, from /repo's current tree
        lib = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
        h = tree_hash(lib + [os.path.join(HERE, "harness")])
        if stamp("harness.stamp") != h or not os.path.exists(os.path.join(BUILD, "target/debug/vharness")):
            hd = os.path.join(HERE, "harness")
            run(["cargo", "clean", "-p", "forust-ml", "-p", "vharness"], cwd=hd, what="cargo clean")
            rc, o = run(["cargo", "build", "--locked"], cwd=hd, what="cargo build")
            if rc:
                raise ToolError("harness build failed\n" + o[-4000:])
            put("harness.stamp", h)
        if python_ext:
            ext = os.path.join(HERE, "pyharness")
            h = tree_hash(lib + [os.path.join(REPO, "py-forust"), ext])
            if stamp("py.stamp") != h:
                pt = os.path.join(BUILD, "pytarget")
                env = dict(ENV, CARGO_TARGET_DIR=pt)
                run(["cargo", "clean", "-p", "forust-ml", "-p", "vpyext"], cwd=ext, env=env, what="cargo clean")
                rc, o = run(["cargo", "build", "--locked"], cwd=ext, env=env, what="cargo build")
                if rc:
                    raise ToolError("python extension build failed\n" + o[-4000:])
                site = os.path.join(BUILD, "site")
                shutil.rmtree(site, ignore_errors=True)
                os.makedirs(os.path.join(site, "forust"))
                src = os.path.join(REPO, "py-forust/forust")
                for f in os.listdir(src):
                    if f.endswith(".py"):
                        shutil.copy(os.path.join(src, f), os.path.join(site, "forust", f))
                shutil.copy(os.path.join(pt, "debug/libforust.so"),
                            os.path.join(site, "forust", "forust.so"))
                put("py.stamp", h)


def tlc(module, consts, rundir, name, invariants=("Conforms",), spec="Spec", extra=(), timeout=780,
        props=(), heap="14g", workers="8", deadlock=True, postcondition=None, constraint=None, queue=True):
    cfg = [f"SPECIFICATION {spec}"]
    if consts:
        cfg.append("CONSTANTS")
        cfg += [f"  {k} = {v}" for k, v in consts.items()]
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if props:
        cfg.append("PROPERTIES " + " ".join(props))
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if not deadlock:
        cfg.append("CHECK_DEADLOCK FALSE")
    cf = os.path.join(rundir, f"{name}.cfg")
    with open(cf, "w") as f:
        f.write("\n".join(cfg) + "\n")
    meta = os.path.join(rundir, "meta-" + name)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m"]
    if queue:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vforust.Overrides",
            "-cp", os.path.join(BUILD, "classes") + ":" + CP, "tlc2.TLC", "-noGenerateSpecTE",
            "-metadir", meta, "-workers", workers, "-config", cf] + list(extra) + [os.path.join(TLA, module + ".tla")]
    rc, out = run(cmd, cwd=rundir, timeout=timeout, what=f"TLC {module}")
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(rundir, f"{name}.out"), "w") as f:
        f.write(out)
    st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace(",", ","))
    m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return rc, out, gen, dist


REJECT = {11: "the trace has no continuation in the specification", 12: "invariant violated",
          13: "temporal property violated", 10: "assumption violated", 14: "assertion failed",
          75: "the specification cannot interpret the trace",
          76: "the specification cannot interpret the trace", 77: "the specification cannot interpret the trace"}


def last_state(out):
    i = out.rfind("\nState ")
    blk = out[i:] if i >= 0 else out[-6000:]
    j = blk.find("\n\n")
    return blk[: j if j > 0 else 6000]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.details = []
        self.violations = []

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        return q if self.quick else t

    def harness(self, *args, timeout=None):
        timeout = timeout or self.n(600, 7200)
        cmd = [os.path.join(BUILD, "target/debug/vharness")] + [str(a) for a in args]
        try:
            rc, out = run(cmd, cwd=self.dir, timeout=timeout, what="harness")
        except ToolError:
            self.violation("harness", f"the library did not finish within {timeout} s", {"cmd": cmd})
            return False
        if rc < 0:
            self.violation("harness", f"the library killed the process (signal {-rc})", {"cmd": cmd, "output": out[-2000:]})
            return False
        if rc:
            raise ToolError(f"harness failed ({rc}): {out[-2000:]}")
        return True

    def python(self, script, *args, timeout=None):
        """Run a recorder of py/ against the Python package built from /repo."""
        timeout = timeout or self.n(600, 7200)
        cmd = [PY, os.path.join(HERE, "py", script)] + [str(a) for a in args]
        env = dict(ENV, PYTHONPATH=os.path.join(BUILD, "site"), RAYON_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
        try:
            rc, out = run(cmd, cwd=self.dir, timeout=timeout, env=env, what=script)
        except ToolError:
            self.violation(script, f"the package did not finish within {timeout} s", {"cmd": cmd})
            return False
        if rc < 0:
            self.violation(script, f"the package killed the process (signal {-rc})", {"cmd": cmd, "output": out[-2000:]})
            return False
        if rc:
            raise ToolError(f"{script} failed ({rc}): {out[-2000:]}")
        return True

    def violation(self, name, what, info):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{name}-{self.tier}-{self.seed}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **info}, f, indent=1)
        self.violations.append((what, p))

    def trace_check(self, module, trace, name=None, consts=None, traces=True, sample=True, **kw):
        """Check the ndjson file `trace` (in the run directory) with a trace specification."""
        name = name or module
        path = os.path.join(self.dir, trace)
        lines = [x for x in open(path).read().split("\n") if x]
        if not lines:
            raise ToolError(f"no traces in {trace}")
        c = {"TraceFile": json.dumps(path), "CHECK": json.dumps(self.prop)}
        c.update(consts or {})
        kw.setdefault("timeout", self.n(780, 7200))
        rc, out, gen, dist = tlc(module, c, self.dir, name, **kw)
        self.cov["states"] += dist
        self.cov["transitions"] += max(0, gen - len(lines))
        if rc == 0:
            self.cov["traces_validated_against_impl"] += len(lines)
        elif rc in REJECT:
            blk = last_state(out)
            m = re.search(r"/\\ ci = (\d+)", blk)
            case = json.loads(lines[int(m.group(1)) - 1]) if m else None
            e = re.search(r"/\\ err = (.*?)(?=\n/\\ |\Z)", blk, re.S)
            err = e.group(1).strip() if e else "\n".join(x for x in out.split("\n") if "rror" in x)[:2000]
            self.violation(name, f"{REJECT[rc]}: {err[:400]}", {
                "module": module, "constants": c, "trace_line": int(m.group(1)) if m else None,
                "trace": case, "tlc_state": blk[:8000], "tlc_output_tail": out[-3000:] if not m else ""})
        else:
            raise ToolError(f"TLC exit {rc} on {module}: {out[-3000:]}")
        if sample and len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"kind": name, "trace": json.loads(min(lines, key=len))})
        self.details.append({"module": module, "traces": len(lines), "states": dist, "transitions": gen, "tlc_exit": rc})
        return rc == 0

    def model_check(self, module, name=None, consts=None, spec="Spec", invariants=(), expect=0, **kw):
        """Check a closed model; returns TLC's output."""
        name = name or module
        kw.setdefault("timeout", self.n(780, 7200))
        rc, out, gen, dist = tlc(module, consts or {}, self.dir, name, invariants=invariants, spec=spec, **kw)
        if rc != expect:
            raise ToolError(f"model {module} ({name}): TLC exit {rc}\n{out[-3000:]}")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.details.append({"module": module, "model": True, "states": dist, "transitions": gen, "tlc_exit": rc})
        return out


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    t0 = time.time()
    if a.property == "setup":
        build(True)
        # the operator overrides agree with the definitions
        d = os.path.join(BUILD, "run", "setup")
        os.makedirs(d, exist_ok=True)
        rc, out, _, _ = tlc("NumTest", {}, d, "NumTest", invariants=(), deadlock=False)
        if rc:
            print(out[-3000:], file=sys.stderr)
            return 2
        return 0
    job = JOBS[a.property]
    try:
        build(job.python)
        ctx = Ctx(a.property, a.tier, a.seed)
        job.fn(ctx)
    except ToolError as e:
        print(f"ERROR {a.property}: {e}", file=sys.stderr)
        return 2
    ctx.cov["details"] = ctx.details
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump({"property": a.property, "tier": a.tier, "seed": a.seed, "level": LEVEL,
                   "coverage": ctx.cov, "assumptions": job.assumptions,
                   "wall_s": round(time.time() - t0, 2), "violations": len(ctx.violations)}, f, indent=1)
    for k in known_findings(a.property):
        print(f"KNOWN-FINDING: property={a.property} {k}")
    for what, p in ctx.violations:
        print(what)
        print(f"VIOLATION property={a.property} replay={p}")
    if ctx.violations:
        return 1
    print(f"{a.property}: held ({ctx.cov['traces_validated_against_impl']} traces, {ctx.cov['states']} states, {time.time()-t0:.0f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
