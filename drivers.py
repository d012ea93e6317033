"""Checks that generate programs or whole libraries rather than calls: high angular momenta, the generator's
options, its determinism and its faults, the Fortran interface, the orderings and the table scripts."""
import concurrent.futures as cf
import itertools, json, os, random, re, shutil, subprocess, sys, threading, time

import build
from build import BuildError, NCPU, REPO
from run import EXT, G, INL, MIX, call, cfg, check, built, describe, have, run_harness, run_job

AM = "spdfghik"


def permutations(q):
    a, b, c, d = q
    return sorted({x + y for x in (a + b, b + a) for y in (c + d, d + c)})


def canonical(q):
    return "".join(sorted(q[:2], reverse=True) + sorted(q[2:], reverse=True))


# ------------------------------------------------------------------ P15 high angular momenta
def choose_quartets(r, n, lo, hi, top, maxtotal, mintotal):
    """n quartets with at least one shell of l >= lo, walking through the values lo..hi."""
    out = []
    want = list(range(lo, hi + 1))
    r.shuffle(want)
    k = 0
    while len(out) < n:
        m = want[k % len(want)]
        q = [m] + [r.randint(0, min(m, top)) for _ in range(3)]
        r.shuffle(q)
        if mintotal <= sum(q) <= maxtotal:
            s = "".join(map(str, q))
            if canonical(s) not in map(canonical, out):
                out.append(s)
                k += 1
    return out


def corners(r, ls):
    out = []
    for k in range(4):
        q = [0, 0, 0, 0]
        q[r.randrange(4)] = 1
        q[k] = r.choice(ls)
        out.append("".join(map(str, q)))
    return out


def towers(r):
    """High angular momenta on one side only, and one on either side: long recursions in cheap quartets."""
    out = []
    for k in (0, 2):
        q = [r.choice([0, 0, 1]), 0, r.choice([0, 0, 1]), 0]
        q[k], q[k + 1] = r.choice([(7, 7), (7, 7), (7, 6), (6, 7), (7, 5), (6, 6), (5, 7)])
        out.append("".join(map(str, q)))
    q = [0, 0, 0, 0]
    q[r.randrange(2)], q[2 + r.randrange(2)] = r.choice([(7, 7), (7, 6), (6, 7), (6, 6), (7, 5)])
    out.append("".join(map(str, q)))
    return out


def sides(r, most):
    """quartets with one shell that is not s on each side, in each pair of places"""
    out = []
    for i in (0, 1):
        for j in (2, 3):
            a = r.randint(min(4, most - 1), min(7, most - 1))
            q = [0, 0, 0, 0]
            q[i], q[j] = r.sample([a, r.randint(1, min(7, most - a))], 2)
            out.append("".join(map(str, q)))
    return out


@check("P15", rule="A library for l = 7 in which a few quartets chosen by the seed have real code (the others return their own number): the integrals and derivatives of the chosen quartets against the reference, and the number reached by a call for every other quartet.")
def p15(ctx):
    r = ctx.rng("quartets")
    if ctx.thorough:
        plans = [(14, 9, 22, 15)] * 6
    else:
        plans = [(7, 4, 17, 11), (7, 4, 17, 11)]
    todo = []
    templates = ["-ve 0 -vg 0 -he 0 -hg 0", "-ve 5 -vg 9 -he 4 -hg 6", "-ve 0 -vg 20 -he 0 -hg 20", "-ve 20 -vg 20 -he 20 -hg 20", "-ve 3 -vg 0 -he 0 -hg 20"]
    first = r.randrange(2)
    for i, (n0, n1, t0, t1) in enumerate(plans):
        perm = (i + first) % 2 == 0
        opt = templates[0] if perm and not ctx.thorough or i == 0 else templates[1 + r.randrange(len(templates) - 1)]
        inl = "20" in opt
        q0 = choose_quartets(r, n0, 4, 7, 7, t0 - (4 if inl else 0), 4)
        q1 = choose_quartets(r, n1, 4, 6, 6, t1 - (3 if inl else 0), 4)
        q0, q1 = sorted(set(q0 + towers(r))), sorted(set(q1 + towers(r)))
        if perm:
            q0, q1 = sorted({canonical(q) for q in q0}), sorted({canonical(q) for q in q1})
        else:
            # the highest angular momenta in every position
            q0, q1 = [sorted(set(q + corners(r, m))) for q, m in ((q0, [7]), (q1, [6, 7]))]
        c = cfg("-l 7 -p {} -d 1 {}".format(0 if perm else 8, opt), r.choice(["sse", "avx2", "scalar"]), quartets={"0": q0, "1": q1}, sources=["main.cpp", "eri_props.cpp"], hx=["-Wl,--allow-multiple-definition"])
        ex = lambda q: sorted(set(sum((permutations(x) for x in q), []))) if perm else q
        e0, e1 = ex(q0), ex(q1)
        real = ",".join(["0:0000"] + ["0:" + q for q in e0] + ["1:" + q for q in e1])
        k = 10 if ctx.thorough else 1
        if perm and ("-ve 0 -vg 0" in opt or ctx.thorough) and not inl:
            # results of several megabytes, through the permuting functions
            tall = [("5454", "4545,4554,5445"), ("6453", "4635,4653,6435")][r.randrange(2)]
            c["quartets"]["1"] = q1 + [tall[0]]
            real += "".join(",1:" + x for x in permutations(tall[0]))
            todo.append((c, "deriv", 6 * k, 60 * k, 3, ("--quartets", tall[1])))
        todo += [(c, "eri", (40 * len(e0)) * k, 30 * k, 4, ("--quartets", ",".join(e0))),
                 (c, "deriv", (12 * len(e1)) * k, 30 * k, 4, ("--quartets", ",".join(e1))),
                 (c, "dispatch", 40000, 20, 1, ("--real", real))]
        ctx.notes.setdefault("real_quartets", []).append({"config": c["opts"], "values": e0, "derivatives": e1})
    # everything inlined, with one high angular momentum on each side: the vertical steps of all four centres
    for _ in range(3 if ctx.thorough else 1):
        q0, q1 = sorted(set(sides(r, 10) + sides(r, 8))), sorted(set(sides(r, 6)))
        c = cfg("-l 7 -p 8 -d 1 -ve 20 -vg 20 -he 20 -hg 20", r.choice(["sse", "avx2", "scalar"]), quartets={"0": q0, "1": q1}, sources=["main.cpp", "eri_props.cpp"], hx=["-Wl,--allow-multiple-definition"])
        k = 10 if ctx.thorough else 1
        todo += [(c, "eri", 40 * len(q0) * k, 15 * k, 1, ("--quartets", ",".join(q0))), (c, "deriv", 20 * len(q1) * k, 15 * k, 1, ("--quartets", ",".join(q1)))]
        ctx.notes["real_quartets"].append({"config": c["opts"], "values": q0, "derivatives": q1})
    run_harness(ctx, todo, build_fail=lambda c, m: build_violation(ctx, c, m))


def build_violation(ctx, c, m):
    if ctx.pid in ("P13", "P15", "P21"):
        try:
            built(dict(cfg("-l 0 -p 1 -d 0", "sse"), sources=["main.cpp", "num_props.cpp"]))
        except BuildError as e:
            ctx.problem("nothing can be built: {}".format(e))
            return
    ctx.violation("{} cannot be generated, built and linked: {}".format(describe(c), m[-1200:]), {"kind": "build", "config": c}, key="build " + describe(c))


def replay(d):
    if d["kind"] == "build":
        try:
            built(d["config"])
        except BuildError as e:
            print(str(e)[-3000:])
            return 1
        print("builds")
        return 0
    return KINDS[d["kind"]](d)


KINDS = {}


# ------------------------------------------------------------------ P13 the generator's and the build's options
FACT = {
    "size": [(1, 1), (2, 0), (2, 1)], "p": [0, 1, 2, 3],
    "ve": [0, 1, 2, 3, 5, 20], "vg": [0, 2, 3, 4, 5, 6, 20], "he": [0, 1, 2, 3, 20], "hg": [0, 1, 2, 3, 4, 20],
    "lower_am": [0, 0, 1], "lower_der": [0, 0, 1],
    "vector": ["scalar", "sse", "avx", "avx2", "commonavx512", "scalar-sse", "scalar-avx", "scalar-avx2"],
    "cc": ["gcc", "gcc", "clang"], "shared": [0, 1], "flags": ["-O1", "-O2", "-O3", "Release"], "n": [1, 3],
    "standalone": [0, 0, 1], "via": ["CMAKE", "SIMINT"],
}
PAIRS = [("ve", "vg"), ("he", "hg"), ("p", "size"), ("p", "ve"), ("p", "vg"), ("p", "hg"), ("size", "vg"), ("size", "he"), ("size", "ve"), ("size", "hg"), ("size", "lower_der"), ("size", "lower_am"), ("vg", "hg"),
         ("ve", "he"), ("vector", "cc"), ("vector", "size"), ("shared", "flags"), ("shared", "standalone"), ("cc", "standalone"), ("flags", "via")]


def option_cost(c):
    return {(1, 0): 10, (1, 1): 16, (2, 0): 22, (2, 1): 60}[(min(c["l"], 2), c["d"])] * (6 if c["l"] == 3 else 1)


def choose_options(r, budget, big=False):
    """Configurations that together cover as many pairs of option values as the budget allows."""
    seen, out, cost = set(), [], 0
    while cost < budget:
        best, gain = None, -1
        for _ in range(60):
            c = {k: r.choice(v) for k, v in FACT.items()}
            c["l"], c["d"] = c["size"]
            if big and r.random() < 0.15:
                c["l"] = 3
            if c["l"] == 1:
                c["lower_am"] = 0
            if not have({"vector": c["vector"]}):
                continue
            g = sum(1 for a, b in PAIRS if (a, c[a], b, c[b]) not in seen) / option_cost(c) ** 0.4
            if g > gain:
                best, gain = c, g
        seen |= {(a, best[a], b, best[b]) for a, b in PAIRS}
        cost += option_cost(best)
        out.append(best)
    return out


def option_text(c):
    return "create.py -l {l} -p {p} -d {d} -ve {ve} -vg {vg} -he {he} -hg {hg} -n {n}; MAXAM {am} MAXDER {der} {vector} {cc} {flags} {kind}{extra}".format(
        extra=(" standalone" if c.get("standalone") else "") + (" (flags through SIMINT_C_FLAGS)" if c.get("via") == "SIMINT" else ""), am=max(0, c["l"] - c["lower_am"]), der=max(0, c["d"] - c["lower_der"]), kind="shared" if c["shared"] else "static", **c)


class InstallError(BuildError):
    """The library was built, but what was installed cannot be used."""


def option_build(c, d):
    """create.py, cmake, build, install and the harness on the installed package; returns the program."""
    g = build.generator(c.get("ordering", "Psi4"))
    log = d + "/log"
    os.makedirs(d)
    am, der = max(0, c["l"] - c["lower_am"]), max(0, c["d"] - c["lower_der"])
    opts = sum([["-" + k, str(c[k])] for k in ("l", "p", "d", "ve", "vg", "he", "hg", "n")], [])
    build.sh([sys.executable, REPO + "/create.py", "-g", g] + opts + [d + "/s"], log)
    cxx = {"gcc": "g++", "clang": "clang++"}[c["cc"]]
    fl = ["-DCMAKE_BUILD_TYPE=Release"] if c["flags"] == "Release" else ["-DCMAKE_BUILD_TYPE=None", "-D" + c.get("via", "CMAKE") + "_C_FLAGS=" + c["flags"]]
    fl += ["-DSIMINT_STANDALONE=ON"] if c.get("standalone") else []
    build.sh(["cmake", "-S", d + "/s", "-B", d + "/b", "-G", "Ninja", "-DCMAKE_C_COMPILER=" + c["cc"], "-DCMAKE_CXX_COMPILER=" + cxx, "-DENABLE_TESTS=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
              "-DSIMINT_VECTOR=" + c["vector"], "-DSIMINT_MAXAM={}".format(am), "-DSIMINT_MAXDER={}".format(der), "-DBUILD_SHARED_LIBS=" + ("ON" if c["shared"] else "OFF"),
              "-DCMAKE_INSTALL_PREFIX=" + d + "/i", "-DCMAKE_INSTALL_LIBDIR=lib"] + fl, log)
    build.sh(["ninja", "-j", "3", "-C", d + "/b", "simint"], log)
    build.sh(["cmake", "--install", d + "/b"], log)
    H = os.path.join(build.VERIF, "harness")
    flags = [cxx, "-std=c++17", "-O0", "-w"] + build.isa_of(c["vector"])
    cmd = flags + ["-I" + d + "/i/include"]
    objs = []
    ps = []
    for f in ("main.cpp", "eri_props.cpp"):
        objs.append(d + "/" + f + ".o")
        ps.append(subprocess.Popen(cmd + ["-c", H + "/" + f, "-o", objs[-1]], stdout=open(log, "ab"), stderr=subprocess.STDOUT, env=build.ENV))
    if any([p.wait() for p in ps]):
        txt = open(log, errors="replace").read()[-1500:]
        # are the headers to blame or the installation?
        inst = not subprocess.call(flags + ["-I" + d + "/b/stage", "-I" + d + "/s", "-fsyntax-only", H + "/eri_props.cpp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=build.ENV)
        raise (InstallError if inst else BuildError)("the installed headers do not compile: " + txt)
    lib = ["-L" + d + "/i/lib", "-lsimint", "-Wl,-rpath," + d + "/i/lib", "-Wl,--no-undefined"] if c["shared"] else ["-Wl,--whole-archive", d + "/i/lib/libsimint.a", "-Wl,--no-whole-archive"]
    open(d + "/empty.cpp", "w").write("int main() { return 0; }\n")
    try:
        build.sh([cxx, d + "/empty.cpp"] + lib + (["-fopenmp"] if cxx == "g++" else []) + ["-lm", "-lpthread", "-o", d + "/empty"], log)
    except BuildError as e:
        raise InstallError("the library as a whole cannot be linked: " + str(e))
    build.sh([cxx] + objs + [build.reference()] + lib + (["-fopenmp"] if cxx == "g++" else []) + ["-lm", "-lpthread", "-o", d + "/h"], log)
    return d + "/h"


def option_check(ctx, c, i, factor):
    d = os.path.join(ctx.scratch, "opt{}".format(i))
    t = time.time()
    am, der = max(0, c["l"] - c["lower_am"]), max(0, c["d"] - c["lower_der"])
    try:
        h = option_build(c, d)
    except BuildError as e:
        build_option_violation(ctx, c, e)
        shutil.rmtree(d, ignore_errors=True)
        return
    tb = time.time() - t
    nq = (am + 1) ** 4
    plan = [("eri", max(12 * nq, 1500)), ("batch", 1500)] + ([("deriv", max(5 * nq, 500))] if der else [])
    for prop, n in plan:
        if ctx.stop:
            break
        args = ["--ordering", c["ordering"]] if c.get("ordering") else []
        run_option(ctx, c, h, prop, n * factor, args)
    ctx.notes.setdefault("build_seconds", {})[option_text(c)] = round(tb, 1)
    with ctx.lock:
        ctx.notes.setdefault("configurations", []).append(option_text(c))
    shutil.rmtree(d, ignore_errors=True)


def run_option(ctx, c, h, prop, n, args):
    label = {"opts": option_text(c), "vector": c["vector"]}
    before = len(ctx.violations)
    run_job(ctx, label, h, prop, n, 60, 0, 1, args)
    for v in ctx.violations[before:]:
        if v["replay"].get("kind") == "harness" and v["replay"]["config"] is label:
            v["replay"].update(kind="option", option=c)
            del v["replay"]["config"]


def build_option_violation(ctx, c, m):
    # a tree in which not even the plainest configuration builds says nothing about options
    plain = dict(c, l=1, p=2, d=0, ve=0, vg=0, he=0, hg=0, lower_am=0, lower_der=0, vector="scalar", cc="gcc", shared=0, flags="-O1", n=1)
    plain.pop("ordering", None)
    d = os.path.join(ctx.scratch, "plain{}".format(random.random()))
    try:
        option_build(plain, d)
    except InstallError:
        pass
    except BuildError as e:
        ctx.problem("nothing can be built: {}".format(e))
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.violation("{}: cannot be generated, built, installed and linked: {}".format(option_text(c), str(m)[-1200:]), {"kind": "option", "option": c, "prop": None}, key="build")


@check("P13", rule="Configurations of create.py and CMake chosen to cover pairs of option values; each is generated, built, installed, linked completely, and its integrals compared with the reference.")
def p13(ctx):
    r = ctx.rng("options")
    cs = choose_options(r, 3000 if ctx.thorough else 330, ctx.thorough)
    build.generator()
    build.reference()
    with cf.ThreadPoolExecutor(6) as pool:
        for f in [pool.submit(option_check, ctx, c, i, 10 if ctx.thorough else 1) for i, c in sorted(enumerate(cs), key=lambda x: -option_cost(x[1]))]:
            f.result()


def replay_option(d):
    tmp = os.path.join(build.BUILD, "scratch", "replay-option")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.dirname(tmp), exist_ok=True)
    try:
        h = option_build(d["option"], tmp)
    except BuildError as e:
        print(str(e)[-3000:])
        return 1
    if not d.get("prop"):
        print("builds")
        return 0
    open(tmp + "/case", "w").write(d.get("case", ""))
    rc, out = call([h, "--prop", d["prop"], "--replay", tmp + "/case"] + d["args"], 400)
    print(out)
    shutil.rmtree(tmp, ignore_errors=True)
    return 0 if rc == 0 else 1


KINDS["option"] = replay_option


# ------------------------------------------------------------------ P18 the Fortran interface
def fortran_case(r, maxam, quartets=None):
    """A case as a plain structure; fortran_bytes writes it for the drivers. With quartets: only those have code."""
    ams = [int(x) for x in r.choice(quartets)] if quartets else None
    groups, shells = [], []
    zero = r.random() < 0.12
    for k in range(4):
        am = ams[k] if quartets else r.randint(0, maxam)
        n = r.choice([1, 1, 2, 3])
        if zero and not quartets and k % 2 and r.random() < 0.7:
            groups.append((len(shells), 1))
            shells.append({"how": 1, "am": 0, "x": [0.0, 0.0, 0.0], "a": [0.0], "c": [1.0]})
            continue
        groups.append((len(shells), n))
        for _ in range(n):
            m = r.choice([1, 1, 2, 3, 4])
            shells.append({"how": r.choice([0, 0, 2]), "am": am, "x": [r.uniform(-2, 2) for _ in range(3)], "a": [10 ** r.uniform(-1, 1.3) for _ in range(m)], "c": [r.uniform(-1, 1) for _ in range(m)]})
    pairs = []
    for s in r.choice([[0, 1], [0, 1], [0, 1, 0, 1], [1, 0, 0, 1], [1, 1, 0, 1], [0, 0, 1, 0, 0, 1]]):
        (a0, na), (b0, nb) = groups[2 * s], groups[2 * s + 1]
        scr = r.choice([0, 1, 2]) if not quartets and not any(x["how"] == 1 for x in shells) else 0
        if r.random() < 0.5:
            p = {"mode": 1, "range": [a0, na, b0, nb], "screen": scr, "clip": -1}
            n = na * nb
        else:
            n = r.choice([1, 2, 3, 5, 9])
            p = {"mode": 2, "list": [[a0 + r.randrange(na), b0 + r.randrange(nb)] for _ in range(n)], "screen": scr, "clip": -1}
        if r.random() < 0.2:
            p["clip"] = r.randint(1, n)
        pairs.append(p)
    iszero = any(x["how"] == 1 for x in shells)
    tol = 0.0
    if all(p["screen"] for p in pairs[-2:]) and r.random() < 0.6:
        tol = 10 ** r.uniform(-12, 0)
        # values small enough for whole calls to be skipped
        for p in pairs:
            p["smax"] = 10 ** r.uniform(-8, 3) if r.random() < 0.5 else -1.0
    real = [i for i, x in enumerate(shells) if x["how"] != 1]
    return {"norm": 0 if iszero else r.choice([0, 1, 2]), "copy": r.randrange(2), "plural": r.randrange(2), "shells": shells, "pairs": pairs, "tol": tol,
            "one": [r.choice(real), r.choice(real)], "nuclei": [[r.uniform(-3, 9)] + [r.uniform(-2, 2) for _ in range(3)] for _ in range(r.randint(0, 4))]}


def fortran_bytes(cases):
    import struct
    out = [struct.pack("<i", len(cases))]
    I = lambda *v: out.append(struct.pack("<{}i".format(len(v)), *v))
    D = lambda *v: out.append(struct.pack("<{}d".format(len(v)), *v))
    for c in cases:
        I(len(c["shells"]), c["norm"], c["copy"], c["plural"])
        for s in c["shells"]:
            I(s["how"], s["am"], len(s["a"]))
            D(*s["x"]), D(*s["a"]), D(*s["c"])
        I(len(c["pairs"]))
        for p in c["pairs"]:
            if p["mode"] == 1:
                I(1, *p["range"])
            else:
                I(2, len(p["list"]))
                for a, b in p["list"]:
                    I(a, b)
            I(p["screen"], p["clip"])
            D(p.get("smax", -1.0))
        D(c["tol"])
        I(c["one"][0], c["one"][1], len(c["nuclei"]))
        for n in c["nuclei"]:
            D(*n)
    return b"".join(out)


def fortran_run(progs, cases, d):
    """Returns None when both agree, otherwise what differs."""
    os.makedirs(d, exist_ok=True)
    open(d + "/in", "wb").write(fortran_bytes(cases))
    outs = []
    for k, p in enumerate(progs):
        rc, txt = call([p, d + "/in", "{}/out{}".format(d, k)], 300)
        if rc != 0:
            what = ("C", "Fortran")[k]
            if k == 0:
                return "C", "the C driver ended with status {}: {}".format(rc, txt[-600:])
            return "F", "the Fortran program ended with status {} where the C program succeeds".format(rc)
        outs.append(open("{}/out{}".format(d, k), "rb").read())
    if outs[0] == outs[1]:
        return None
    n = next((i for i, (a, b) in enumerate(zip(*outs)) if a != b), min(map(len, outs)))
    return "F", "what a Fortran caller sees differs from what a C caller sees from byte {} of the dump on ({} and {} bytes)".format(n, len(outs[0]), len(outs[1]))


def fortran_shrink(progs, case, d, seconds=25):
    import copy
    t0 = time.time()

    def tries(c):
        if len(c["pairs"]) > 2:
            yield dict(copy.deepcopy(c), pairs=copy.deepcopy(c["pairs"][2:]))
        for k, p in enumerate(c["pairs"]):
            if p["mode"] == 2:
                for i in range(len(p["list"])):
                    if len(p["list"]) > 1:
                        e = copy.deepcopy(c)
                        del e["pairs"][k]["list"][i]
                        e["pairs"][k]["clip"] = min(p["clip"], len(p["list"]) - 1)
                        yield e
            for f, v in (("clip", -1), ("screen", 0)):
                if p[f] != v:
                    e = copy.deepcopy(c)
                    e["pairs"][k][f] = v
                    e["tol"] = 0.0
                    yield e
        for f in ("norm", "copy", "plural"):
            if c[f]:
                yield dict(copy.deepcopy(c), **{f: 0})
        if len(c["nuclei"]) > 1:
            yield dict(copy.deepcopy(c), nuclei=c["nuclei"][:1])
        for i, s in enumerate(c["shells"]):
            if len(s["a"]) > 1:
                e = copy.deepcopy(c)
                e["shells"][i]["a"], e["shells"][i]["c"] = s["a"][:1], s["c"][:1]
                yield e

    progress = True
    while progress and time.time() - t0 < seconds:
        progress = False
        for e in tries(case):
            if time.time() - t0 > seconds:
                break
            v = fortran_run(progs, [e], d)
            if v and v[0] == "F":
                case, progress = e, True
                break
    return case


def fortran_library(c, fortran):
    gendir, salt = build.partial_generator(c["quartets"]) if c.get("quartets") else (None, "")
    return build.library(c["opts"].split(), c["vector"], c.get("cflags", "-O1"), c.get("cc", "gcc"), c.get("defs", ()), gendir=gendir, salt=salt, fortran=fortran, tool=c.get("tool", "Ninja"))


def fortran_built(c):
    s, b = fortran_library(c, True)
    return build.fortran_pair(s, b, c["vector"], c["maxder"], c.get("cc", "gcc"))


@check("P18", rule="Shells, shell pairs, integrals and one-electron integrals of a random case made by a C program and by a Fortran program with the same calls; all members and results compared bit by bit. Non-trivial: every case (each makes two pair sets and at least five integral calls).")
def p18(ctx):
    cs = [cfg("-l 2 -p 2 -d 1", "sse", maxder=1), cfg("-l 2 -p 2 -d 0", "avx2", maxder=0, tool="Unix Makefiles"), cfg("-l 1 -p 1 -d 1", "scalar", maxder=0, defs=["SIMINT_MAXDER=0"], tool="Unix Makefiles"),
          cfg("-l 1 -p 1 -d 1", "avx", maxder=1, cc="clang", tool="Unix Makefiles")]
    # the highest angular momenta the sources allow, with code for a few quartets
    r = ctx.rng("quartets")
    q = corners(r, [4, 5]) + corners(r, [6]) + corners(r, [7])
    cs.append(cfg("-l 7 -p 8 -d 1 -ve 20 -vg 20 -he 20 -hg 20", "sse", maxder=1, quartets={"0": sorted(set(q)), "1": sorted(set(q))}))
    n, chunk = (60000, 500) if ctx.thorough else (6000, 250)

    def one(c, progs, k):
        if ctx.stop:
            return
        r = ctx.rng("{}/{}".format(describe(c), k))
        maxam = int(c["opts"].split()[1])
        cases = [fortran_case(r, maxam, c["quartets"]["0"] if c.get("quartets") else None) for _ in range(chunk)]
        d = os.path.join(ctx.scratch, "f{}-{}".format(cs.index(c), k))
        v = fortran_run(progs, cases, d)
        ctx.add(len(cases), len({json.dumps(x) for x in cases}), [json.dumps(cases[0])] if k == 0 else [], None,
                {"pairs of mode {}".format(m): sum(1 for x in cases for q in x["pairs"] if q["mode"] == m) for m in (1, 2)}, {"config": describe(c), "cases": len(cases)})
        if v:
            lo = cases
            while len(lo) > 1:
                h = lo[:len(lo) // 2]
                w = fortran_run(progs, h, d)
                lo = h if w and w[0] == v[0] else lo[len(lo) // 2:]
            w = fortran_run(progs, lo, d)
            if not w:
                lo, w = cases, v
            if w[0] == "C":
                ctx.problem("{}: {}".format(describe(c), w[1]))
            else:
                if len(lo) == 1:
                    lo = [fortran_shrink(progs, lo[0], d)]
                    w = fortran_run(progs, lo, d) or w
                ctx.violation("{}: {}".format(describe(c), w[1]), {"kind": "fortran", "config": c, "cases": lo}, key="fortran")
        shutil.rmtree(d, ignore_errors=True)

    def setup(c):
        t = time.time()
        try:
            progs = fortran_built(c)
        except BuildError as e:
            # the C side of the same tree must build before the Fortran side says anything
            try:
                fortran_library(c, False)
            except BuildError as e2:
                ctx.problem("cannot build {}: {}".format(describe(c), e2))
                return None
            ctx.violation("{}: a Fortran program with the documented calls cannot be built: {}".format(describe(c), str(e)[-1200:]), {"kind": "fortran", "config": c, "cases": []}, key="fortran build")
            return None
        ctx.notes.setdefault("build_seconds", {})[describe(c)] = round(time.time() - t, 1)
        return progs

    cs = [c for c in cs if have(c)]
    with cf.ThreadPoolExecutor(4) as b:
        ready = list(b.map(setup, cs))
    with cf.ThreadPoolExecutor(NCPU) as pool:
        fs = [pool.submit(one, c, p, k) for k in range(n // chunk) for c, p in zip(cs, ready) if p and (k % 4 == 0 or not c.get("quartets"))]
        for f in fs:
            f.result()


def replay_fortran(d):
    progs = fortran_built(d["config"])
    tmp = os.path.join(build.BUILD, "scratch", "replay-fortran")
    v = fortran_run(progs, d["cases"], tmp)
    print(v[1] if v else "both agree")
    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if v else 0


KINDS["fortran"] = replay_fortran


# ------------------------------------------------------------------ P19 and P22 create.py
def create(gendir, opts, out, env=None, n=1, hashseed=0, timeout=240, limit=None, cwd=None):
    e = dict(build.ENV, PYTHONHASHSEED=str(hashseed))
    e.update(env or {})
    pre = []
    if limit is not None:
        # no file of create.py or of what it runs may grow beyond this
        pre = [sys.executable, "-c", "import os, resource, sys; resource.setrlimit(resource.RLIMIT_FSIZE, ({0}, {0})); os.execv(sys.argv[1], sys.argv[1:])".format(limit)]
    return call(pre + [sys.executable, REPO + "/create.py", "-g", gendir, "-n", str(n)] + opts.split() + [out], timeout, env=e, cwd=cwd)


def declarations(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    pre = sorted(x.strip() for x in re.findall(r"^[ \t]*#[^\n]*", text, re.M))
    body = re.sub(r"^[ \t]*#[^\n]*", " ", text, flags=re.M)
    return pre + sorted(re.sub(r"\s+", " ", x).strip() for x in re.split(r"[;{}]", body))


def snapshot(out):
    """What a source tree means, apart from its place on the disk and from orders that have no meaning."""
    r = {}
    for d, dirs, files in os.walk(out):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, out)
            if rel.endswith(".log"):
                continue
            t = open(p, errors="replace").read().replace(os.path.realpath(out), "<OUT>").replace(out, "<OUT>")
            if rel.endswith("_generated.h"):
                r[rel] = declarations(t)
            elif os.path.basename(rel).startswith("filelist"):
                r[rel] = sorted(t.split())
            else:
                r[rel] = t
    return r


def difference(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return "{} is only in the second tree".format(k)
        if k not in b:
            return "{} is only in the first tree".format(k)
        if a[k] != b[k]:
            x, y = (v if isinstance(v, list) else v.splitlines() for v in (a[k], b[k]))
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "{} differs: {!r} and {!r}".format(k, (x[i:i + 1] or ["<end>"])[0][:160], (y[i:i + 1] or ["<end>"])[0][:160])
    return None


def random_options(r, l=None):
    l = l if l is not None else r.choice([0, 1, 1, 1, 2])
    d = r.choice([0, 1]) if l < 2 else r.choice([0, 0, 1])
    return "-l {} -p {} -d {} -ve {} -vg {} -he {} -hg {}".format(l, r.randint(0, l + 1), d, r.choice([0, 0, 1, 2, 3, 20]), r.choice([0, 2, 3, 4, 20]), r.choice([0, 0, 1, 2, 20]), r.choice([0, 1, 2, 3, 20]))


PROGS = ("ostei", "ostei_deriv1", "ostei_hrr", "ostei_vrr")


def fault_run(f, d):
    """One faulty run of create.py; returns what is wrong with its outcome, or None, and whether the fault happened."""
    g = build.faulty_generator()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/count")
    if f["kind"] in ("missing", "notexec"):
        g2 = d + "/g"
        os.makedirs(g2)
        for p in PROGS:
            if p != f["prog"]:
                os.symlink(os.path.join(g, p + "_generator"), os.path.join(g2, p + "_generator"))
            elif f["kind"] == "notexec":
                open(os.path.join(g2, p + "_generator"), "w").write("not a program\n")
        rc, txt = create(g2, f["opts"], d + "/o", {"FAULT_DIR": d + "/count"}, f["n"])
        hit = True
    elif f["prog"] == "create":
        if f["kind"] == "open-tree":
            open(d + "/o", "w").write("a file where the tree should be\n")
        elif f["kind"] == "open-parent":
            open(d + "/f", "w").write("a file where a directory should be\n")
        rc, txt = create(build.generator(), f["opts"], d + ("/f/o" if f["kind"] == "open-parent" else "/o"), None, f["n"], limit=int(f["kind"][5:]) if f["kind"].startswith("limit") else None)
        hit = True
        if rc == 0 and f["kind"] == "open-parent":
            return "create.py reports success", True
    else:
        rc, txt = create(g, f["opts"], d + "/o", {"FAULT_DIR": d + "/count", "FAULT_PROG": f["prog"], "FAULT_K": str(f["k"]), "FAULT_KIND": f["kind"]}, f["n"])
        hit = os.path.exists(d + "/count/HIT")
    if rc is None:
        return "create.py did not finish within 240 s", hit
    if rc != 0:
        return None, hit
    if not hit:
        return None, False
    if f["kind"].split("-")[0].startswith(("limit", "full", "open")):
        # the limit may not have been reached: then the tree has to be complete
        rc2, txt2 = create(build.generator(), f["opts"], d + "/ref", n=1)
        if rc2 != 0:
            return "UNDECIDED create.py fails without any fault: " + txt2[-300:], hit
        w = difference(snapshot(d + "/ref"), snapshot(d + "/o"))
        if not w:
            w = log_difference(d + "/ref", d + "/o")
        return ("create.py reports success but left an incomplete tree: " + w if w else None), hit
    return "create.py reports success", hit


def log_difference(a, b):
    for f in sorted(os.listdir(a + "/simint/ostei/gen")):
        if f.endswith(".log"):
            q = os.path.join(b, "simint/ostei/gen", f)
            if not os.path.exists(q):
                return "{} is missing".format(f)
    return None


def fault_text(f):
    what = {"missing": "is missing", "notexec": "cannot be executed"}.get(f["kind"])
    if not what:
        k = f["kind"]
        what = "call number {} ".format(f["k"]) + ("exits with status " + k[4:] if k.startswith("exit") else "dies from signal " + k[6:] if k.startswith("signal") else
                "cannot write beyond byte {} of any file".format(k[5:]) if k.startswith("limit") else "does its work and exits with status " + k[5:] if k.startswith("after") else
                "finds no room to write its " + k[5:] if k.startswith("full") else "cannot open its " + k[5:] if k.startswith("open") else k)
    if f["prog"] == "create":
        what = "call number 0 cannot write beyond byte {} of any file".format(f["kind"][5:]) if f["kind"].startswith("limit") else "finds a file in the place of its output directory" if f["kind"] == "open-tree" else "cannot make its output directory"
        return "create.py {} -n {}: {}".format(f["opts"], f["n"], what.replace("call number 0 ", ""))
    return "create.py {} -n {}: {}_generator {}".format(f["opts"], f["n"], f["prog"], what)


def shrink_fault(f, d):
    for e in ([dict(f, n=1)] if f["n"] != 1 else []) + ([dict(f, k=0)] if f.get("k") else []):
        v, hit = fault_run(e, d)
        if v and not v.startswith("UNDECIDED"):
            f = e
    return f


@check("P19", level="fault_enumeration", rule="Faults of the generator programs during create.py: for each option set every call of every program is counted, and calls chosen by the seed fail by exit status, by signal, by a full disk (a file-size limit), or after their work; programs are also missing or not executable. Non-trivial: the fault took place.")
def p19(ctx):
    r = ctx.rng("faults")
    build.faulty_generator()
    nopt, per = (60, 80) if ctx.thorough else (12, 28)
    base = ["-l 1 -p 1 -d 1 -ve 0 -vg 20 -he 0 -hg 20", "-l 1 -p 0 -d 1"]
    opts = base + [random_options(r, r.choice([0, 1, 1])) for _ in range(nopt - len(base))]

    def count(o):
        d = os.path.join(ctx.scratch, "c{}".format(opts.index(o)))
        os.makedirs(d + "/count")
        rc, txt = create(build.faulty_generator(), o, d + "/o", {"FAULT_DIR": d + "/count"}, 2)
        n = {p: os.path.getsize(os.path.join(d, "count", p)) if os.path.exists(os.path.join(d, "count", p)) else 0 for p in PROGS}
        shutil.rmtree(d, ignore_errors=True)
        return rc, n, txt

    with cf.ThreadPoolExecutor(NCPU) as pool:
        counts = list(pool.map(count, opts))
    faults = []
    for o, (rc, n, txt) in zip(opts, counts):
        if rc != 0:
            ctx.problem("create.py {} fails without a fault: {}".format(o, txt[-300:]))
            return
        for i in range(per):
            p = [x for x in PROGS if n[x]][i % sum(1 for x in PROGS if n[x])]
            kind = ["exit1", "signal11", "limit{}".format(int(10 ** r.uniform(0, 4))), "limit{}".format(r.choice([0, 1, 50, 100, 400, 1000, 4096])), "exit{}".format(r.randint(2, 255)), "signal9", "signal6", "after1", "after{}".format(r.randint(1, 255)), "full-source", "full-header", "full-output", r.choice(["open-source", "open-header"])][r.randrange(13)]
            k = r.choice([0, n[p] - 1, r.randrange(n[p]), r.randrange(n[p])])
            faults.append({"opts": o, "prog": p, "k": k, "kind": kind, "n": r.choice([1, 1, 2, 4])})
    for p in PROGS:
        for k, kind in ((0, "full-source"), (0, "full-header"), (1, "full-output"), (0, "open-header")):
            if counts[0][1][p] > k:
                faults.append({"opts": base[0], "prog": p, "k": k, "kind": kind, "n": 1})
        for kind in ("missing", "notexec"):
            faults.append({"opts": base[0], "prog": p, "k": 0, "kind": kind, "n": 1})
    for i in range(60 if ctx.thorough else 12):
        faults.append({"opts": opts[i % len(opts)], "prog": "create", "k": 0, "kind": r.choice(["limit{}".format(int(10 ** r.uniform(0, 5.6)))] * 3 + ["open-tree", "open-parent"]), "n": r.choice([1, 1, 3])})
    ctx.notes["generator_calls_without_fault"] = {o: n for o, (rc, n, t) in zip(opts, counts)}

    def one(i, f):
        if ctx.stop:
            return
        d = os.path.join(ctx.scratch, "x{}".format(i))
        v, hit = fault_run(f, d)
        ctx.add(1, 1 if hit else 0, [fault_text(f)] if i % 40 == 0 else [], None, {re.sub(r"\d+", "", f["kind"]) + " of " + f["prog"]: 1})
        if v and v.startswith("UNDECIDED"):
            ctx.problem(v)
        elif v:
            f = shrink_fault(f, d)
            ctx.violation("{}: {}".format(fault_text(f), v), {"kind": "fault", "fault": f}, key=f["kind"])
        shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(NCPU) as pool:
        for x in [pool.submit(one, i, f) for i, f in enumerate(faults)]:
            x.result()


def replay_fault(d):
    tmp = os.path.join(build.BUILD, "scratch", "replay-fault")
    v, hit = fault_run(d["fault"], tmp)
    print(fault_text(d["fault"]) + ": " + (v or "holds"))
    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if v else 0


KINDS["fault"] = replay_fault

SANGEN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined"


def make_stale(top, seed):
    """What the run of an older version could have left: files with other contents, missing ones, further ones."""
    r = random.Random(seed)
    fs = sorted(os.path.join(p, f) for p, _, l in os.walk(top) for f in l if not os.path.islink(os.path.join(p, f)))
    here = [f for f in fs if os.path.dirname(f) == top]
    ds = sorted(p for p, _, _ in os.walk(top) if p != top)
    for f in r.sample(fs, min(len(fs), r.randint(0, 8))) + [f for f in here if r.random() < 0.5]:
        k = r.randrange(4)
        if k == 0:
            os.path.exists(f) and os.remove(f)
        else:
            with open(f, "ab" if k == 1 else "wb") as o:
                o.write(b"stale\n" * (k > 1) + b"/* older */\n" * (k == 1))
            if r.random() < 0.5:
                os.utime(f, (4e9, 4e9))
    for p in r.sample(ds, min(len(ds), r.randint(0, 3))):
        with open(os.path.join(p, r.choice(["old.c", "ostei_z_z_z_z.c", "old.h", "CMakeLists.txt"])), "w") as o:
            o.write("int old;\n")


def same_run(t, d):
    """A tree made another way must be the tree; t: opts, way, n, seed, and for histories before/k."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, txt = create(build.generator(), t["opts"], d + "/ref", n=1)
    if rc != 0:
        return "UNDECIDED create.py {} fails: {}".format(t["opts"], txt[-300:])
    g, env = build.generator(), {}
    out = d + "/o"
    if t["way"] == "clang":
        g = build.generator(cxx="clang++", flags="-O2")
    elif t["way"] == "sanitized":
        g = build.generator(cxx="clang++", flags=SANGEN)
        env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=97", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"}
    elif t["way"] == "over":
        rc, txt = create(g, t["before"], out, n=2)
    elif t["way"] == "crash":
        os.makedirs(d + "/count")
        create(build.faulty_generator(), t["before"], out, {"FAULT_DIR": d + "/count", "FAULT_PROG": t["prog"], "FAULT_K": str(t["k"]), "FAULT_KIND": "killall"}, 2)
    if t.get("stale") and os.path.isdir(out):
        make_stale(out, t["stale"])
    cwd, name = None, out
    if t.get("place") == "relative":
        cwd, name, g = d, "o", os.path.relpath(g, d)
    elif t.get("place") == "dots":
        cwd, name = d, "./x/../o/"
        os.makedirs(d + "/x")
    elif t.get("place") == "spaces" and not os.path.isdir(out):
        name = out = d + "/a b/o (1)"
        os.makedirs(d + "/a b")
        env = dict(env, LANG="tr_TR.UTF-8", LC_ALL="C", TZ="Pacific/Apia", COLUMNS="7")
    elif t.get("place") == "link" and not os.path.isdir(out):
        os.makedirs(d + "/real")
        os.symlink("real", out)
    rc, txt = create(g, t["opts"], name, env, t["n"], t["hashseed"], cwd=cwd)
    if rc != 0:
        san = ""
        gen = out + "/simint/ostei/gen"
        for f in sorted(os.listdir(gen)) if os.path.isdir(gen) else []:
            if f.endswith(".log"):
                m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*)", open(os.path.join(gen, f), errors="replace").read())
                if m:
                    san = "; {}: {}".format(f, m.group(1))
                    break
        m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*)", txt)
        return "fails ({}){}".format(rc, san or (": " + m.group(1) if m else ": " + txt[-400:]))
    w = difference(snapshot(d + "/ref"), snapshot(out))
    return "gives another source tree: " + w if w else None


def same_text(t):
    way = {"clang": "with generators compiled by clang -O2", "sanitized": "with generators compiled with the address and undefined-behaviour sanitizers", "plain": "in another order",
           "over": "over the tree of create.py {}".format(t.get("before")), "crash": "over what create.py {} left when it was killed at call {} of {}".format(t.get("before"), t.get("k"), t.get("prog"))}[t["way"]] + (" and whose files were changed ({})".format(t["stale"]) if t.get("stale") else "")
    return "create.py {} -n {} (PYTHONHASHSEED={}{}) {}".format(t["opts"], t["n"], t["hashseed"], "; output directory given as: " + t["place"] if t.get("place") else "", way)


@check("P22", rule="Random create.py options generated twice: plainly, and with other numbers of processes, hash seeds, compilers of the generator, with sanitizers in the generator, over an older tree or over what a killed run left; the trees are compared file by file (headers and file lists as multisets). Non-trivial: every case.")
def p22(ctx):
    r = ctx.rng("same")
    ways = ["plain", "clang", "sanitized", "over", "crash"]
    n = 1500 if ctx.thorough else 130
    with cf.ThreadPoolExecutor(3) as b:
        for x in [b.submit(build.generator), b.submit(build.generator, "Psi4", "clang++", "-O2"), b.submit(build.generator, "Psi4", "clang++", SANGEN)]:
            x.result()
    build.faulty_generator()
    todo = []
    for i in range(n):
        t = {"opts": random_options(r, 3 if ctx.thorough and i % 50 == 0 else None), "way": ways[i % len(ways)], "n": r.choice([1, 2, 4, 8]), "hashseed": r.randrange(1, 4000000), "place": r.choice([None, "relative", "dots", "spaces", "link"])}
        if t["way"] in ("over", "crash"):
            t["before"] = random_options(r, r.choice([0, 1, 2, 2]))
            t["stale"] = r.choice([0, r.randrange(1, 1 << 30)])
        if t["way"] == "crash":
            t["prog"], t["k"] = r.choice(["ostei", "ostei", "ostei_hrr", "ostei_vrr", "ostei_deriv1"]), r.randrange(0, 12)
        todo.append(t)

    def one(i, t):
        if ctx.stop:
            return
        d = os.path.join(ctx.scratch, "s{}".format(i))
        v = same_run(t, d)
        ctx.add(1, 1, [same_text(t)] if i % 11 == 0 else [], None, {t["way"]: 1})
        if v and v.startswith("UNDECIDED"):
            ctx.problem(v)
        elif v:
            for o in ("-l 0 -p 1 -d 0", "-l 1 -p 1 -d 0", "-l 1 -p 1 -d 1"):
                w = same_run(dict(t, opts=o), d)
                if w and not w.startswith("UNDECIDED"):
                    t, v = dict(t, opts=o), w
                    break
            ctx.violation("{}: {}".format(same_text(t), v), {"kind": "same", "case": t}, key=t["way"])
        shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(NCPU) as pool:
        for x in [pool.submit(one, i, t) for i, t in enumerate(todo)]:
            x.result()


def replay_same(d):
    tmp = os.path.join(build.BUILD, "scratch", "replay-same")
    v = same_run(d["case"], tmp)
    print(same_text(d["case"]) + ": " + (v or "holds"))
    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if v else 0


KINDS["same"] = replay_same


# ------------------------------------------------------------------ P21 the ordering option
@check("P21", rule="Libraries from generators configured with the GAMESS ordering (and, for comparison, the default one): integrals compared with the reference in that ordering, for inlined and external recurrences up to l = 3 and for general ones up to l = 1. Two probes run the listed finding.")
def p21(ctx):
    k = 20 if ctx.thorough else 1
    src = ["main.cpp", "eri_props.cpp"]
    gam = ("--ordering", "GAMESS")
    o = lambda opts, vec, **kw: cfg(opts, vec, ordering="GAMESS", sources=src, **kw)
    todo = [(o(INL.format(l=2, d=0), "sse"), "eri", 24000 * k, 20 * k, 3, gam), (o(EXT.format(l=2, d=0), "scalar"), "eri", 24000 * k, 20 * k, 3, gam),
            (o("-l 2 -p 0 -d 0 -ve 3 -vg 20 -he 2 -hg 20", "avx2"), "eri", 16000 * k, 20 * k, 2, gam), (o(EXT.format(l=2, d=0), "scalar"), "batch", 6000 * k, 20 * k, 1, gam),
            (o(G.format(l=1, d=0), "sse"), "eri", 12000 * k, 20 * k, 1, gam),
            (o("-l 3 -p 3 -d 0 -ve 0 -vg 20 -he 0 -hg 20", "sse"), "eri", 40000 * k, 25 * k, 4, gam)]
    # high angular momenta in every place, inlined and with external recurrences
    r = ctx.rng("quartets")
    for _ in range(4 if ctx.thorough else 1):
        q = sorted(set(corners(r, [4, 5]) + corners(r, [6, 7]) + sides(r, 8) + ["".join(r.sample("0134", 4)), "".join(r.sample("0025", 4))]))
        todo += [(cfg("-l 7 -p 8 -d 0 " + r.choice(["-ve 20 -vg 20 -he 20 -hg 20", "-ve 0 -vg 20 -he 0 -hg 20"]), r.choice(["sse", "avx2"]), ordering="GAMESS", quartets={"0": q, "1": []}, sources=src, hx=["-Wl,--allow-multiple-definition"]),
                  "eri", 60 * len(q) * k, 20 * k, 2, gam + ("--quartets", ",".join(q)))]
    todo += [(o(G.format(l=2, d=0), "sse"), "eri", 200, 20, 1, gam + ("--quartets", "0122")), (o(INL.format(l=1, d=1), "sse"), "deriv", 200, 20, 1, gam + ("--quartets", "1110"))]
    run_harness(ctx, todo, build_fail=lambda c, m: build_violation(ctx, c, m))


# ------------------------------------------------------------------ P23 configuring and packaging
VECTORS = ["scalar", "scalar-sse", "scalar-avx", "scalar-avx2", "sse", "avx", "avx2", "commonavx512"]
OTHER_VECTORS = ["micavx512", "scalar-micavx512", "asimd", "sve"]  # cannot run here: configured, and compiled for where gcc can


def configure_case(r):
    l, d = r.choice([(0, 0), (1, 0), (1, 1), (2, 0)])
    v = r.choice(VECTORS + (OTHER_VECTORS if r.random() < 0.3 else []))
    c = {"l": l, "d": d, "vector": "".join(x.upper() if r.random() < 0.3 else x for x in v), "am": r.choice([None, 0, 0, l, l, l + 1, l + 2]), "der": r.choice([None, 0, d, d, d + 1, d + 2]),
         "shared": r.choice([None, "ON", "OFF"]), "bad": None}
    if r.random() < 0.2:
        c["vector"] = r.choice(["", "mmx", "avx3", "sse-scalar", "scalar-", "scal", "avx 2", "neon", "avx,sse"])
        c["bad"] = "vector"
    # what the same build directory was configured for before
    c["before"] = [{"vector": r.choice(VECTORS + ["mmx"]), "am": r.choice([None, 0, l, l + 1]), "der": r.choice([None, 0, d, d + 1]), "shared": r.choice([None, "ON", "OFF"])}
                   for _ in range(r.choice([0, 0, 1, 1, 2]))]
    return c


def configure_limits(c):
    """The limits in force: those given last, else what was generated."""
    am, der = c["l"], c["d"]
    for x in c.get("before", []) + [c]:
        am, der = (am if x["am"] is None else x["am"]), (der if x["der"] is None else x["der"])
    return am, der


def configure_ok(c):
    am, der = configure_limits(c)
    return not c["bad"] and am <= c["l"] and der <= c["d"]


def configure_text(c):
    return "sources of create.py -l {l} -d {d} configured with SIMINT_VECTOR='{vector}' SIMINT_MAXAM={am} SIMINT_MAXDER={der} BUILD_SHARED_LIBS={shared}".format(**c) + \
        "".join(", before that in the same directory with '{vector}' {am} {der} {shared}".format(**x) for x in c.get("before", []))


def configure_run(c, d):
    src = build.source("-l {} -p {} -d {}".format(c["l"], c["l"], c["d"]).split())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in c.get("before", []) + [c]:
        cmd = ["cmake", "-S", src, "-B", d + "/b", "-G", "Ninja", "-DENABLE_TESTS=OFF", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_INSTALL_PREFIX=" + d + "/i", "-DCMAKE_INSTALL_LIBDIR=lib"]
        for k, n in (("vector", "SIMINT_VECTOR"), ("am", "SIMINT_MAXAM"), ("der", "SIMINT_MAXDER"), ("shared", "BUILD_SHARED_LIBS")):
            if x[k] is not None:
                cmd.append("-D{}={}".format(n, x[k]))
        rc, txt = call(cmd, 200, env=build.ENV)
        if rc is None:
            return "UNDECIDED cmake did not finish"
    ok = configure_ok(c)
    if rc != 0 and ok:
        return "is refused: " + txt[-600:]
    if rc == 0 and not ok:
        return "is accepted"
    if not ok:
        return None
    # what was accepted is what a program is told
    am, der = configure_limits(c)
    v = c["vector"].lower()
    simd = 1 if v.startswith("scalar") else {"sse": 2, "avx": 4, "avx2": 4, "commonavx512": 8, "micavx512": 8}.get(v)
    if simd is None:
        return None
    want = (am, der, am if der else -1, simd)
    names = ("SIMINT_OSTEI_MAXAM", "SIMINT_OSTEI_MAXDER", "SIMINT_OSTEI_DERIV1_MAXAM", "SIMINT_SIMD_LEN")
    open(d + "/t.c", "w").write('#include "simint/simint.h"\n#include "simint/vectorization/vectorization.h"\n'
                                + "".join("_Static_assert((int)({}) == {}, \"told otherwise\");\n".format(*x) for x in zip(names, want)))
    rc, txt = call(["gcc", "-w", "-c"] + (["-mavx512f", "-mavx512pf", "-mavx512er", "-mavx512cd", "-mfma"] if "micavx512" in v else build.isa_of(v)) + ["-I" + d + "/b/stage", "-I" + src, d + "/t.c", "-o", d + "/t.o"], 100, env=build.ENV)
    if rc != 0:
        if "told otherwise" in txt:
            return "gives headers that do not say {} = {}: {}".format(", ".join(names), want, txt[-600:])
        return "gives headers that do not compile: " + txt[-600:]
    return None


CONSUMER_C = r"""
#include <math.h>
#include <stdio.h>
#include "simint/simint.h"
#include "simint/vectorization/vectorization.h"
int main(void)
{
    simint_init();
    double a = 1.0, c = 1.0, out[16], *work = (double *)SIMINT_ALLOC(simint_eri_workmem(0, SIMINT_OSTEI_MAXAM));
    struct simint_shell s;
    struct simint_multi_shellpair P;
    simint_initialize_shell(&s);
    simint_initialize_multi_shellpair(&P);
    simint_create_shell(1, 0, 0, 0, 0, &a, &c, &s);
    simint_normalize_shells(1, &s);
    simint_create_multi_shellpair(1, &s, 1, &s, &P, SIMINT_SCREEN_NONE);
    simint_compute_eri(&P, &P, 0.0, work, out);
    printf("%d %d %.10f\n", SIMINT_OSTEI_MAXAM, SIMINT_OSTEI_MAXDER, out[0]);
    return fabs(out[0] - 2.0 / sqrt(M_PI)) < 1e-12 ? 0 : 1;
}
"""

CONSUMER_F = r"""
program t
  use iso_c_binding
  use SimintFortran
  implicit none
  type(c_simint_shell), target :: s(1)
  type(c_simint_multi_shellpair), target :: P
  double precision :: a(1), c(1)
  double precision, allocatable :: work(:), res(:)
  integer :: n
  call simint_init()
  a = 1.0d0
  c = 1.0d0
  call simint_initialize_shell(s(1))
  call simint_initialize_multi_shellpair(P)
  call simint_create_shell(1, 0, 0.0d0, 0.0d0, 0.0d0, a, c, s(1))
  call simint_normalize_shells(1, s)
  call simint_create_multi_shellpair(1, s, 1, s, P, 0)
  allocate(work(simint_eri_worksize(0, 0) + 64), res(16))
  n = simint_compute_eri(P, P, 0.0d0, work, res)
  write(*, '(I0,1X,F0.10)') n, res(1)
  call simint_free_multi_shellpair(P)
  call simint_free_shell(s(1))
  call simint_finalize()
  if (n /= 1 .or. abs(res(1) - 2.0d0 / sqrt(3.14159265358979323846d0)) > 1.0d-12) stop 1
end program
"""

PACKAGES = [{"l": 1, "d": 1, "am": 1, "der": 1, "vector": "sse", "shared": "ON", "fortran": True}, {"l": 2, "d": 0, "am": 2, "der": 0, "vector": "scalar", "shared": "OFF", "more": ["-DCMAKE_INSTALL_LIBDIR=lib64/here"]},
            {"l": 1, "d": 1, "am": 0, "der": 0, "vector": "SSE", "shared": None, "fortran": True, "more": ["-DCMAKE_INSTALL_INCLUDEDIR=inc/deep", "-DCMAKE_INSTALL_LIBDIR=l"]},
            {"l": 0, "d": 1, "am": 0, "der": 1, "vector": "scalar-sse", "shared": "ON"}]


def package_build(k, d):
    """Builds and installs package k, moves it, and links a program against it through find_package."""
    p = PACKAGES[k]
    log = d + "/log"
    src = build.source("-l {} -p {} -d {}".format(p["l"], p["l"], p["d"]).split())
    cmd = ["cmake", "-S", src, "-B", d + "/b", "-G", "Ninja", "-DENABLE_TESTS=OFF", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=-O1", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_INSTALL_PREFIX=" + d + "/first",
           "-DSIMINT_VECTOR=" + p["vector"], "-DSIMINT_MAXAM={}".format(p["am"]), "-DSIMINT_MAXDER={}".format(p["der"])]
    if p["shared"]:
        cmd.append("-DBUILD_SHARED_LIBS=" + p["shared"])
    if p.get("fortran"):
        cmd.append("-DENABLE_FORTRAN=ON")
    build.sh(cmd + p.get("more", []), log)
    build.sh(["cmake", "--build", d + "/b", "-j", str(NCPU)], log)
    build.sh(["cmake", "--install", d + "/b"], log)
    os.rename(d + "/first", d + "/i")
    version = re.search(r"project\(\s*simint\s+VERSION\s+([0-9.]+)", open(src + "/CMakeLists.txt").read(), re.I)
    return d + "/i", version.group(1) if version else None


def request_case(r, version):
    q = {"version": None, "exact": False, "components": []}
    major, minor = (version or "0.8").split(".")[:2]
    if r.random() < 0.5 and version:
        q["version"] = r.choice([version, version, "{}.{}".format(major, max(0, int(minor) - 1)), "{}.{}".format(major, int(minor) + 1), "{}.0".format(int(major) + 1), "0.1", version + ".1"])
        q["exact"] = r.random() < 0.3
    pool = ["am0", "am1", "am2", "am3", "am7", "am10", "der0", "der1", "der2", "der10", "shared", "static", "am", "der", "fortran", "am1x"]
    q["components"] = r.sample(pool, r.choice([0, 1, 1, 2, 2, 3]))
    q["optional"] = r.random() < 0.15
    return q


def request_found(q, p, version):
    if q["version"]:
        key = lambda v: [int(x) for x in (v + ".0.0.0").split(".")[:4]]
        if q["exact"] and key(q["version"]) != key(version):
            return False
        if key(q["version"]) > key(version):
            return False
    if q["optional"]:
        return True
    for c in q["components"]:
        m = re.fullmatch(r"(am|der)(\d+)", c)
        if m:
            if int(m.group(2)) > p[m.group(1)]:
                return False
        elif c == "shared":
            if p["shared"] != "ON":
                return False
        elif c == "static":
            if p["shared"] == "ON":
                return False
        else:
            return False
    return True


def request_text(q):
    return "find_package(simint {}{}{})".format(q["version"] or "", " EXACT" if q["exact"] else "", (" OPTIONAL_COMPONENTS " if q["optional"] else " COMPONENTS ") + " ".join(q["components"]) if q["components"] else "")


def requests_run(prefix, p, version, qs, d):
    """All requests in one CMake run, each in a directory of its own; returns a list of (index, what is wrong)."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    top = "cmake_minimum_required(VERSION 3.10)\nproject(t C)\n"
    for i, q in enumerate(qs):
        os.makedirs("{}/q{}".format(d, i))
        open("{}/q{}/CMakeLists.txt".format(d, i), "w").write(
            'unset(simint_DIR CACHE)\n{} \nmessage(STATUS "RESULT {} [${{simint_FOUND}}] [${{simint_MAXAM}}] [${{simint_MAXDER}}] [${{simint_VECTOR}}] [${{simint_LIBRARIES}}] [${{simint_INCLUDE_DIRS}}]")\n'.format(
                request_text(q).replace("(simint ", "(simint ", 1)[:-1] + " QUIET CONFIG)" if not q["components"] else re.sub(r" (OPTIONAL_COMPONENTS|COMPONENTS)", r" QUIET CONFIG \1", request_text(q)), i))
        top += "add_subdirectory(q{})\n".format(i)
    open(d + "/CMakeLists.txt", "w").write(top)
    rc, txt = call(["cmake", "-S", d, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_PREFIX_PATH=" + prefix, "-DCMAKE_C_COMPILER=gcc"], 200, env=build.ENV)
    if rc != 0:
        return [(None, "a project asking for the package cannot be configured: " + txt[-800:])]
    bad = []
    for i, q in enumerate(qs):
        m = re.search(r"RESULT {} \[(.*?)\] \[(.*?)\] \[(.*?)\] \[(.*?)\] \[(.*?)\] \[(.*?)\]".format(i), txt)
        if not m:
            bad.append((i, "no result"))
            continue
        found = m.group(1) in ("1", "TRUE", "ON")
        want = request_found(q, p, version)
        if found != want:
            bad.append((i, "is {}".format("satisfied" if found else "not satisfied")))
        elif found and (m.group(2) != str(p["am"]) or m.group(3) != str(p["der"]) or m.group(4) != p["vector"].lower()):
            bad.append((i, "tells am {} der {} vector {}".format(*m.group(2, 3, 4))))
        elif found and not (os.path.isfile(m.group(5)) and os.path.isfile(m.group(6) + "/simint/simint.h")):
            bad.append((i, "names the library {} and the headers {}".format(*m.group(5, 6))))
    return bad


def consumers(p):
    return ["target", "variables", "target, C++"] + (["target, Fortran"] if p.get("fortran") else [])


def consumer_run(prefix, p, d, how):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src, lang, text = {"target, C++": ("t.cpp", "CXX", CONSUMER_C), "target, Fortran": ("t.f90", "Fortran", CONSUMER_F)}.get(how, ("t.c", "C", CONSUMER_C))
    open(d + "/" + src, "w").write(text)
    link = "target_link_libraries(t simint::simint m)" if how != "variables" else "target_include_directories(t PRIVATE ${simint_INCLUDE_DIRS})\ntarget_link_libraries(t ${simint_LIBRARIES} -fopenmp m)"
    if lang == "Fortran":
        link += "\ntarget_include_directories(t PRIVATE ${simint_INCLUDE_DIR}/simint)"
    open(d + "/CMakeLists.txt", "w").write("cmake_minimum_required(VERSION 3.10)\nproject(t {})\nfind_package(simint CONFIG REQUIRED)\nadd_executable(t {})\n".format(lang, src) + link + "\n")
    for cmd in (["cmake", "-S", d, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_PREFIX_PATH=" + prefix, "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"], ["cmake", "--build", d + "/b"]):
        rc, txt = call(cmd, 200, env=build.ENV)
        if rc != 0:
            return "a program using the installed package ({}) cannot be built: {}".format(how, txt[-800:])
    rc, txt = call([d + "/b/t"], 60, env=build.ENV)
    want = "{} {} ".format(p["am"], p["der"]) if lang != "Fortran" else "1 1.128379167"
    if rc != 0 or not txt.startswith(want):
        return "a program using the installed package ({}) ends with {} and prints {!r}, not {!r} and the integral 2/sqrt(pi)".format(how, rc, txt[-200:], want)
    return None


def package_text(p):
    return "package of create.py -l {l} -d {d}, SIMINT_MAXAM={am} SIMINT_MAXDER={der} SIMINT_VECTOR={vector} BUILD_SHARED_LIBS={shared}{rest}, installed and moved".format(rest="".join(" " + x[2:] for x in p.get("more", [])) + (" ENABLE_FORTRAN=ON" if p.get("fortran") else ""), **p)


def generation_case(r):
    """arguments of create.py, half of them impossible"""
    c = {"l": r.choice([0, 0, 1]), "p": r.randint(0, 3), "d": r.choice([0, 0, 1]), "n": r.randint(1, 3)}
    k = r.randrange(8)
    if k < 2:
        c["d"] = r.choice([2, 3, 10, -1])
    elif k == 2:
        c["l"] = r.choice([8, 9, -1, -2])
    elif k == 3:
        c.update(l=r.choice([8, -1, 0, 1]), d=r.choice([2, -1]))
    return c


def generation_ok(c):
    return 0 <= c["l"] <= 7 and 0 <= c["d"] <= 1


def generation_text(c):
    return "create.py -l {l} -p {p} -d {d} -n {n}".format(**c)


def generation_run(c, tmp):
    """None when create.py accepts the possible and refuses the impossible; generators that do nothing stand in where it has to refuse"""
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    gen = build.generator()
    if not generation_ok(c):
        gen = tmp + "/gen"
        os.makedirs(gen)
        for n in ("ostei_generator", "ostei_deriv1_generator", "ostei_hrr_generator", "ostei_vrr_generator"):
            with open(os.path.join(gen, n), "w") as f:
                f.write("#!/bin/sh\nwhile [ $# -gt 0 ]; do if [ $1 = -o ] || [ $1 = -oh ]; then : >> $2; fi; shift; done\n")
            os.chmod(os.path.join(gen, n), 0o755)
    cmd = [sys.executable, os.path.join(REPO, "create.py"), "-g", gen] + "-l {l} -p {p} -d {d} -n {n}".format(**c).split() + [tmp + "/out"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        return "UNDECIDED time limit"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if generation_ok(c) == (p.returncode == 0):
        return None
    return ("refused: " + p.stdout.decode(errors="replace")[-300:]) if generation_ok(c) else "accepted, although such code cannot be generated"


@check("P23", rule="Random CMake configurations (possible and impossible ones) with the outcome and the constants of the headers compared with a model; installed and relocated packages asked for random versions and components through find_package, compared with a model, and linked to a program. Non-trivial: every configuration; requests with a version or a component.")
def p23(ctx):
    r = ctx.rng("cmake")
    nconf, nreq = (800, 3000) if ctx.thorough else (80, 240)
    confs = [configure_case(r) for _ in range(nconf)]
    for c in confs:
        build.source("-l {} -p {} -d {}".format(c["l"], c["l"], c["d"]).split())

    def conf(i, c):
        if ctx.stop:
            return
        d = os.path.join(ctx.scratch, "conf{}".format(i))
        v = configure_run(c, d)
        ctx.add(1, 1, [configure_text(c)] if i % 20 == 0 else [], None, {"configuration to be " + ("accepted" if configure_ok(c) else "refused"): 1})
        if v and v.startswith("UNDECIDED"):
            ctx.problem(v)
        elif v:
            for k, x in (("before", []), ("shared", None), ("der", None), ("am", None)):
                e = dict(c, **{k: x})
                if e != c:
                    w = configure_run(e, d)
                    if w and w.split()[:2] == v.split()[:2]:
                        c, v = e, w
            ctx.violation("{} {}".format(configure_text(c), v), {"kind": "configure", "case": c})
        shutil.rmtree(d, ignore_errors=True)

    def gene(i, c):
        if ctx.stop:
            return
        d = os.path.join(ctx.scratch, "gene{}".format(i))
        v = generation_run(c, d)
        ctx.add(1, 1, [generation_text(c)] if i % 20 == 0 else [], None, {"generation to be " + ("accepted" if generation_ok(c) else "refused"): 1})
        if v and v.startswith("UNDECIDED"):
            ctx.problem(v)
        elif v:
            for k, x in (("n", 1), ("p", 0), ("d", 0), ("l", 0)):
                e = dict(c, **{k: x})
                if e != c and (generation_run(e, d) or "").split()[:1] == v.split()[:1]:
                    c = e
            ctx.violation("{}: {}".format(generation_text(c), v), {"kind": "generation", "case": c})

    def pack(k):
        d = os.path.join(ctx.scratch, "pack{}".format(k))
        os.makedirs(d)
        p = PACKAGES[k]
        try:
            prefix, version = package_build(k, d)
        except BuildError as e:
            ctx.violation("{}: cannot be built: {}".format(package_text(p), str(e)[-800:]), {"kind": "package", "package": k, "request": None})
            return
        rr = ctx.rng("requests{}".format(k))
        qs = [request_case(rr, version) for _ in range(nreq // len(PACKAGES))]
        for how in consumers(p):
            v = consumer_run(prefix, p, d + "/consumer", how)
            ctx.add(1, 1, [], None, {"program linked": 1})
            if v:
                ctx.violation("{}: {}".format(package_text(p), v), {"kind": "package", "package": k, "request": None})
                return
        for a in range(0, len(qs), 40):
            part = qs[a:a + 40]
            bad = requests_run(prefix, p, version, part, d + "/req")
            ctx.add(len(part), sum(1 for q in part if q["version"] or q["components"]), [package_text(p) + ": " + request_text(part[0])], None,
                    {"request to be " + ("satisfied" if w else "refused"): sum(1 for q in part if request_found(q, p, version) == w) for w in (True, False)})
            for i, v in bad[:1]:
                q = part[i] if i is not None else None
                if q:
                    for j in range(len(q["components"]) - 1, -1, -1):
                        e = dict(q, components=q["components"][:j] + q["components"][j + 1:])
                        if requests_run(prefix, p, version, [e], d + "/req"):
                            q = e
                    e = dict(q, version=None, exact=False)
                    if requests_run(prefix, p, version, [e], d + "/req"):
                        q = e
                ctx.violation("{}: {} {}".format(package_text(p), request_text(q) if q else "", v), {"kind": "package", "package": k, "request": q})
                return
        shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(NCPU) as pool:
        fs = [pool.submit(pack, k) for k in range(len(PACKAGES))] + [pool.submit(conf, i, c) for i, c in enumerate(confs)] + \
             [pool.submit(gene, i, generation_case(r)) for i in range(nconf // 2)]
        for x in fs:
            x.result()


def replay_configure(d):
    v = configure_run(d["case"], os.path.join(build.BUILD, "scratch", "replay-configure"))
    print(v or "holds")
    return 1 if v else 0


def replay_package(d):
    tmp = os.path.join(build.BUILD, "scratch", "replay-package")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        prefix, version = package_build(d["package"], tmp)
    except BuildError as e:
        print(str(e)[-2000:])
        return 1
    p = PACKAGES[d["package"]]
    bad = [v for v in (consumer_run(prefix, p, tmp + "/c", how) for how in consumers(p)) if v]
    if d["request"]:
        bad += requests_run(prefix, p, version, [d["request"]], tmp + "/r")
    print(bad or "holds")
    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def replay_generation(d):
    v = generation_run(d["case"], os.path.join(build.BUILD, "scratch", "replay-generation"))
    print(v or "holds")
    return 1 if v else 0


KINDS["configure"] = replay_configure
KINDS["generation"] = replay_generation
KINDS["package"] = replay_package
