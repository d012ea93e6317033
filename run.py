#!/usr/bin/env python3
"""Property checks of simint-generator.

  run.py setup                      builds what every check shares, as a smoke test of the tool chain
  run.py check P01 [--thorough]     exit 0: held on everything explored; exit 1: VIOLATION line
  run.py replay FILE                runs one saved failing case again (exit 1 when it still fails)
  run.py list
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
"""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, zlib

import build
from build import BuildError, NCPU, VERIF

EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
CHECKS = {}


def check(pid, level="exploration", rule=""):
    def deco(f):
        CHECKS[pid] = (f, level, rule)
        return f
    return deco


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = self.distinct = 0
        self.samples, self.rules, self.classes, self.parts = [], [], {}, []
        self.worst, self.worst_at = 0.0, ""
        self.violations = []          # {"msg":, "key":, "replay": dict}
        self.problems = []            # what could not be decided
        self.notes = {}
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="verif-{}-".format(pid), dir=scratch_root())
        self.stop = False

    def rng(self, label=""):
        return random.Random("{}/{}/{}".format(self.pid, self.seed, label))

    def add(self, evals, distinct, samples=(), rule=None, classes=None, part=None):
        with self.lock:
            self.evals += evals
            self.distinct += distinct
            for s in samples:
                if len(self.samples) < 40:
                    self.samples.append(s)
            if rule and rule not in self.rules:
                self.rules.append(rule)
            for k, n in (classes or {}).items():
                self.classes[k] = self.classes.get(k, 0) + n
            if part:
                self.parts.append(part)

    def violation(self, msg, replay, key=None):
        with self.lock:
            self.violations.append({"msg": msg, "replay": replay, "key": key or msg})
        if not self.thorough and not is_known(self.pid, msg):
            self.stop = True

    def problem(self, msg):
        with self.lock:
            self.problems.append(msg)


def scratch_root():
    d = os.path.join(build.BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------ configurations
def cfg(opts, vector, **kw):
    c = {"opts": opts, "vector": vector}
    c.update(kw)
    return c


G = "-l {l} -p {l} -d {d}"                                     # general code for everything above s
EXT = "-l {l} -p {l} -d {d} -ve 0 -vg 20 -he 0 -hg 20"         # recurrences in separate files
INL = "-l {l} -p {l} -d {d} -ve 20 -vg 20 -he 20 -hg 20"       # recurrences inlined
MIX = "-l {l} -p 0 -d {d} -ve 2 -vg 5 -he 1 -hg 3"             # every kind at once, all permuted
BASE = cfg("-l 0 -p 1 -d 0", "sse")


def describe(c):
    s = "create.py {} / {}".format(c["opts"], c["vector"])
    for k in ("cc", "cflags", "defs", "ordering", "quartets", "tool"):
        if c.get(k):
            s += " {}={}".format(k, c[k])
    return s


def have(c):
    return build.cpu_has(c["vector"])


def built(c):
    """Builds the configuration and its harness; returns the harness program."""
    gendir, salt = None, ""
    if c.get("quartets"):
        gendir, salt = build.partial_generator(c["quartets"], c.get("ordering", "Psi4"))
    elif c.get("ordering"):
        gendir, salt = build.generator(c["ordering"]), c["ordering"]
    s, b = build.library(c["opts"].split(), c["vector"], c.get("cflags", "-O1"), c.get("cc", "gcc"), c.get("defs", ()), gendir=gendir, salt=salt)
    return build.harness(s, b, c["vector"], c.get("cxx", "g++" if c.get("cc", "gcc") == "gcc" else "clang++"), c.get("hx", ()), c.get("sources"))


SANENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=97:allocator_may_return_null=1",
          "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
          "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
          "LSAN_OPTIONS": "exitcode=97"}


def call(cmd, timeout, env=None, cwd=None):
    """Runs a program in a session of its own; returns (status or None when it did not finish, output)."""
    with tempfile.TemporaryFile(dir=scratch_root()) as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=env or dict(build.ENV, **SANENV), start_new_session=True, cwd=cwd)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if rc is None:
            p.wait()
        f.seek(0)
        out = f.read()[-20000:].decode(errors="replace")
    return rc, out


def seed_of(ctx, label):
    return (ctx.seed * 1000003 + zlib.crc32(label.encode())) & 0x7fffffffffff


def run_job(ctx, c, prog, prop, cases, budget, shard, nshard, args):
    if ctx.stop:
        return
    label = "{}|{}|{}/{}".format(describe(c), prop, shard, nshard)
    tag = "{:08x}".format(zlib.crc32(label.encode()))
    out, fail, cur = (os.path.join(ctx.scratch, tag + x) for x in (".out", ".fail", ".cur"))
    cmd = [prog, "--prop", prop, "--seed", str(seed_of(ctx, describe(c) + prop)), "--shard", "{}/{}".format(shard, nshard),
           "--cases", str(cases), "--budget", str(budget), "--out", out, "--fail", fail] + list(args)
    if ctx.thorough:
        cmd.append("--thorough")
    limit = budget + 200
    rc, txt = call(cmd, limit)
    rep = {"kind": "harness", "config": c, "prop": prop, "args": list(args), "rerun": cmd[1:]}
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        with ctx.lock:
            if d["worst"] > ctx.worst:
                ctx.worst, ctx.worst_at = d["worst"], d["worst_at"]
        ctx.add(d["evals"], d["distinct"], ["{}: {}".format(describe(c), s) for s in d["samples"][:2]], d["rule"], d["classes"],
                {"config": describe(c), "prop": prop, "shard": shard, "cases": d["evals"], "nontrivial": d["nontrivial"], "wall": d["wall"]})
        if rc == 1:
            rep["case"] = open(fail).read()
            ctx.violation("{}: {}".format(describe(c), d["violation"]), rep)
        return
    if rc == 3:
        ctx.problem("harness error in {}: {}".format(label, txt[-500:]))
        return
    # a crash, a sanitizer report or a hang: find the case, shrink it in child processes
    first = "did not finish within {} s".format(limit) if rc is None else "crashed with signal {}".format(-rc) if rc < 0 else "was stopped by a sanitizer (exit status {})".format(rc)
    call(cmd + ["--current", cur], limit)
    rep["output"] = txt[-6000:]
    key = first
    if os.path.exists(cur):
        rep["case"] = open(cur).read()
        src, stxt = call([prog, "--prop", prop, "--shrink", cur, "--budget", "40", "--fail", fail] + list(args), 300)
        if src == 1 and os.path.exists(fail):
            rep["case"] = open(fail).read()
            first = "a case " + stxt.strip().splitlines()[-1]
        elif rc is None:
            ctx.problem("{} {}, and no single case is to blame".format(label, first))
            return
    elif rc is None:
        ctx.problem("{} {}".format(label, first))
        return
    san = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*)", txt)
    if san:
        first += ": " + san.group(1)
    ctx.violation("{}: {}".format(describe(c), first), rep, key)


def run_harness(ctx, jobs, build_fail=None):
    """jobs: (config, prop, cases, budget, shards, args). Builds and runs them side by side."""
    cfgs = {}
    for j in jobs:
        if have(j[0]):
            cfgs.setdefault(json.dumps(j[0], sort_keys=True), (j[0], []))[1].append(j)
        else:
            ctx.notes.setdefault("skipped_for_lack_of_cpu_support", []).append(describe(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as pool, cf.ThreadPoolExecutor(4) as builders:
        pending = []

        def one(c, js):
            t = time.time()
            try:
                prog = built(c)
            except BuildError as e:
                if build_fail:
                    build_fail(c, str(e))
                else:
                    ctx.problem("cannot build {}: {}".format(describe(c), e))
                return
            ctx.notes.setdefault("build_seconds", {})[describe(c)] = round(time.time() - t, 1)
            for (_, prop, cases, budget, shards, args) in js:
                n = -(-cases // shards)
                for k in range(shards):
                    pending.append(pool.submit(run_job, ctx, c, prog, prop, n, budget, k, shards, args))

        for f in [builders.submit(one, c, js) for c, js in cfgs.values()]:
            f.result()
        for f in pending:
            f.result()


# ------------------------------------------------------------------ results
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d.get("status") == "open" and d["property"] == pid:
                    out.append(d)
    return out


def is_known(pid, msg):
    return any(re.search(d["match"], msg) for d in known_findings(pid))


def finish(ctx, level, rule):
    known = known_findings(ctx.pid)
    fresh = [v for v in ctx.violations if not is_known(ctx.pid, v["msg"])]
    for d in known:
        print("KNOWN-FINDING: property={} {}".format(ctx.pid, d["what"]))
    cov = {"evaluations": ctx.evals, "distinct_nontrivial": ctx.distinct,
           "rule": (rule + " " if rule else "") + "; ".join("non-trivial: " + r for r in ctx.rules), "samples": ctx.samples or ["none"], "classes": dict(sorted(ctx.classes.items(), key=lambda x: -x[1])[:80]),
           "parts": ctx.parts[:200]}
    if ctx.worst:
        cov["largest_error_in_units_of_the_tolerance"] = ctx.worst
        cov["largest_error_at"] = ctx.worst_at
    cov.update(ctx.notes)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(fresh), "assumptions": ASSUME.get(ctx.pid, []) + ASSUME["*"][:1 if ctx.pid == "P24" else 2]}
    if ctx.problems:
        ev["undecided"] = ctx.problems
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    for p in ctx.problems:
        print("UNDECIDED: " + p)
    print("{}: {} cases, {} distinct non-trivial, {:.1f} s".format(ctx.pid, ctx.evals, ctx.distinct, time.time() - ctx.t0))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(REPLAYS, "{}-{}-{}.json".format(ctx.pid, ctx.seed, i))
            with open(path, "w") as f:
                json.dump(dict(v["replay"], property=ctx.pid, message=v["msg"]), f, indent=1)
            print(v["msg"])
            print("VIOLATION property={} replay={}".format(ctx.pid, path))
        return 1
    if ctx.problems:
        return 2
    if ctx.distinct == 0:
        print("UNDECIDED: nothing was explored")
        return 2
    return 0


ASSUME = {"*": ["gcc, clang, cmake and the C library behave as documented",
                "the reference values (long double, McMurchie-Davidson recurrences in harness/ref.cpp) are exact to well below the tolerance; they are derived from the definitions, not from the code"]}


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    import checks  # registers everything in CHECKS
    cmd = sys.argv[1]
    if cmd == "list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if cmd == "setup":
        build.generator()
        build.reference()
        built(BASE)
        return 0
    if cmd == "replay":
        return checks.replay(sys.argv[2])
    if cmd != "check":
        print(__doc__)
        return 2
    pid = sys.argv[2]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    f, level, rule = CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    build.prune()
    try:
        f(ctx)
    except BuildError as e:
        ctx.problem(str(e))
    return finish(ctx, level, rule)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
