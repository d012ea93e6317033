"""P25: every recursion step, general and generated, horizontal and vertical, against the quantities it relates."""
import concurrent.futures as cf
import os, re, shutil, subprocess, time

import build
from build import BuildError, NCPU
from drivers import KINDS
from run import call, check, seed_of

CHARS = "spdfghiklmnoqrtuvwxyzabceSPDFGHIKLMNOQRTUVWXYZABCE0123456789"
STEPS = "IJKL"


def nc(l):
    return (l + 1) * (l + 2) // 2


def text(s):
    kind, d, am, general = s
    q = "({} {}|{} {})".format(*am) if kind == "V" else ("({} {}|".format(am[0], am[1]) if d in "IJ" else "|{} {})".format(am[2], am[3]))
    return "{} {} step {} to {}".format("general" if general else "generated", {"V": "vertical", "H": "horizontal"}[kind], d, q)


def choose(r, thorough):
    """the generated steps that are looked at"""
    vsmall, vbig, nv = (1500, 14400, 40) if thorough else (260, 2200, 6)
    hsmall, hbig, nh = (700, 1400, 24) if thorough else (130, 700, 5)
    # (a s|c s) that the recursion can need
    small = [(a, c) for a in range(16) for c in range(16) if a + c <= 17 and a + c > 0]
    big = [x for x in small if vsmall < nc(x[0]) * nc(x[1]) <= vbig]
    pick = [x for x in small if nc(x[0]) * nc(x[1]) <= vsmall] + r.sample(big, min(nv, len(big)))
    out = []
    for a, c in pick:
        if a:
            out += [("V", "I", (a, 0, c, 0)), ("V", "I", (a, 0, 0, c)), ("V", "J", (0, a, c, 0)), ("V", "J", (0, a, 0, c))]
        if c:
            out += [("V", "K", (a, 0, c, 0)), ("V", "K", (0, a, c, 0)), ("V", "L", (a, 0, 0, c)), ("V", "L", (0, a, 0, c))]
    pairs = [(a, b) for a in range(16) for b in range(16) if a + b <= 15 and min(a, b) <= 8 and a + b > 0]
    big = [x for x in pairs if hsmall < nc(x[0]) * nc(x[1]) <= hbig]
    for a, b in [x for x in pairs if nc(x[0]) * nc(x[1]) <= hsmall] + r.sample(big, min(nh, len(big))):
        if b:
            out += [("H", "J", (a, b, 0, 0)), ("H", "L", (0, 0, a, b))]
        if a:
            out += [("H", "I", (a, b, 0, 0)), ("H", "K", (0, 0, a, b))]
    return sorted(set(out))


def vertical_source(s):
    """the step that does the work: only (X s|X s) have code of their own"""
    d, am = s[1], s[2]
    return ("V", "I" if d in "IJ" else "K", (am[0] or am[1], 0, am[2] or am[3], 0))


class Unknown(Exception):
    """the generated functions do not have the arguments that are known here"""


def argument(decl, s):
    """C++ for one argument, by its name, or by its type where only one has this type"""
    kind, d, am = s
    name = re.sub(r"\[\d*\]", "", decl).split()[-1].lstrip("*")
    m = re.fullmatch(r"\w*INT__(\w)_(\w)_(\w)_(\w)", name)
    if m:
        q = m.groups()
        if kind == "V":
            return "A.arr({}, {}, {}, {})".format(*(CHARS.index(x) for x in q))
        return "A.harr({}, {})".format(*(CHARS.index(x) for x in (q[:2] if d in "IJ" else q[2:])))
    known = {"hAB": "A.XY", "hCD": "A.XY", "ncart_ket": "A.ncart", "ncart_bra": "A.ncart", "num_n": "A.num_n",
             "P_PA": "A.dist(0)", "P_PB": "A.dist(1)", "Q_PA": "A.dist(2)", "Q_PB": "A.dist(3)", "aop_PQ": "A.aop()", "aoq_PQ": "A.aoq()"}
    if name in known:
        return known[name]
    if name in ("one_over_2p", "one_over_2q", "one_over_2pq", "a_over_p", "a_over_q"):
        return "A.sc(&Lane::{})".format(name)
    if re.fullmatch(r"\s*(const )?int (const )?\w+", decl):
        return "A.num_n" if kind == "V" else "A.ncart"
    if kind == "H" and re.fullmatch(r"\s*(const double|double const) (\w+\[3\]|\* ?\w+)", decl):
        return "A.XY"
    raise Unknown("argument " + name)


def prototype_call(s, header):
    """a call of the function of this step, from its declaration"""
    fn = "{}RR_{}_{}".format(s[0], s[1], "_".join(CHARS[x] for x in (s[2] if s[0] == "V" else s[2][:2] if s[1] in "IJ" else s[2][2:])))
    m = re.search(r"\bvoid\s+{}\s*\(([^)]*)\)\s*;".format(fn), header)
    if not m:
        raise Unknown("no declaration of " + fn)
    args = ["A.out()" if s[0] == "V" else "A.hout()"] + [argument(x, s) for x in m.group(1).split(",")[1:]]
    return "[](Args & A) {{ {}({}); }}".format(fn, ", ".join(args))


def make_program(todo, vector, d):
    """Generates and compiles the steps and the program that tries them."""
    gen = build.generator()
    s, b = build.library("-l 0 -p 1 -d 0".split(), vector)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    H = os.path.join(build.VERIF, "harness")
    inc = build.isa_of(vector) + ["-I" + s, "-I" + b + "/stage", "-I" + b]
    files = sorted(set(todo) | {vertical_source(x) for x in todo if x[0] == "V"})
    flags = {"I": [], "J": ["-center_j"], "K": ["-center_k"], "L": ["-center_l"]}

    def one(i):
        x = files[i]
        f, h = "{}/f{}.c".format(d, i), "{}/f{}.h".format(d, i)
        log = "{}/f{}.log".format(d, i)
        if x[0] == "V":
            build.sh([gen + "/ostei_vrr_generator", "-q"] + [str(y) for y in x[2]] + flags[x[1]] + ["-o", f, "-oh", h], log)
        else:
            q = x[2][:2] if x[1] in "IJ" else x[2][2:]
            build.sh([gen + "/ostei_hrr_generator", "-q"] + [str(y) for y in q] + {"I": ["-bra", "-bra_i"], "J": ["-bra"], "K": ["-ket_k"], "L": []}[x[1]] + ["-o", f, "-oh", h], log)

    def comp(i):
        f, o = "{}/f{}.c".format(d, i), "{}/f{}.o".format(d, i)
        big = os.path.getsize(f) > 400000
        build.sh(["gcc", "-std=gnu99", "-w", "-O0" if big else "-O1", "-include", d + "/all.h", "-I" + d + "/fake"] + inc + ["-c", f, "-o", o], "{}/f{}.log".format(d, i))
        os.remove(f)

    with cf.ThreadPoolExecutor(NCPU) as pool:
        list(pool.map(one, range(len(files))))
        header = "\n".join(open("{}/f{}.h".format(d, i)).read() for i in range(len(files)))
        with open(d + "/all.h", "w") as f:
            f.write('#pragma once\n#include "simint/vectorization/vectorization.h"\n#ifdef __cplusplus\n#define restrict __restrict__\nextern "C" {\n#endif\n' + header + "\n#ifdef __cplusplus\n}\n#undef restrict\n#endif\n")
        rows = []
        for x in todo:
            rows.append("{{{{'{}', '{}', {{{}, {}, {}, {}}}, false}}, {}}}".format(x[0], x[1], *x[2], prototype_call(x, header)))
        with open(d + "/steps_main.cpp", "w") as f:
            f.write('#include "{}/steps.cpp"\n#include "{}/all.h"\nextern const Entry generated[] = {{\n{}\n}};\nextern const int ngenerated = {};\n'.format(
                H, d, ",\n".join(rows) or "{{'V','I',{0,0,0,0},false}, nullptr}", len(rows)))
        main = pool.submit(build.sh, ["g++", "-std=gnu++17", "-O2", "-w"] + inc + ["-c", d + "/steps_main.cpp", "-o", d + "/main.o"], d + "/main.log")
        list(pool.map(comp, sorted(range(len(files)), key=lambda i: -os.path.getsize("{}/f{}.c".format(d, i)))))
        main.result()
    with open(d + "/objects", "w") as f:
        f.write("\n".join("{}/f{}.o".format(d, i) for i in range(len(files))))
    build.sh(["g++", d + "/main.o", "@" + d + "/objects", b + "/simint/libsimint.a", "-lm", "-o", d + "/steps"], d + "/main.log")
    return d + "/steps"


def culprit(todo, vector, d):
    """the first step that cannot be made, provided that steps as such can"""
    try:
        make_program([("V", "I", (1, 0, 0, 0)), ("H", "J", (1, 1, 0, 0))], vector, d)
    except (BuildError, Unknown):
        return None
    for a in range(0, len(todo), 24):
        try:
            make_program(todo[a:a + 24], vector, d)
        except BuildError:
            for s in todo[a:a + 24]:
                try:
                    make_program([s], vector, d)
                except BuildError as e:
                    return s, str(e)[-400:]
    return None


def one_case(prog, s, seed, flags):
    """None when the case holds"""
    rc, out = call([prog, "one", s[0], s[1]] + [str(x) for x in s[2]] + [str(int(s[3])), str(seed), str(flags)], 120)
    if rc == 0:
        return None
    if rc == 1:
        return out.strip().splitlines()[-1]
    return "ends with {}".format(rc) if rc is not None else "does not end"


def shrink(prog, s, seed, flags):
    for f in (1, 2, 4, 8, 16):
        if one_case(prog, s, seed, flags | f):
            flags |= f
    if s[3]:
        again = True
        while again:
            again = False
            for c in range(4):
                am = list(s[2])
                am[c] -= 1
                if am[c] >= 0 and am["IJKL".index(s[1])] > 0:
                    t = (s[0], s[1], tuple(am), True)
                    if one_case(prog, t, seed, flags):
                        s, again = t, True
    return s, flags


@check("P25", rule="Each step that the general functions can be asked for, and generated steps (all small ones, larger ones by seed), with random geometries, exponents, orders and sizes of the other side: every component in every lane against closed forms in quadruple precision; canaries. Non-trivial: every case.")
def p25(ctx):
    r = ctx.rng("steps")
    vectors = [v for v in ("avx2", "scalar", "sse", "avx") if build.cpu_has(v)]
    plans = [(v, choose(r, True)) for v in vectors] if ctx.thorough else [(r.choice(vectors), choose(r, False))]
    for vector, todo in plans:
        d = os.path.join(ctx.scratch, "steps-" + vector)
        try:
            prog = make_program(todo, vector, d)
        except Unknown as e:
            # other names or arguments than those known here: the general steps can still be tried
            ctx.notes["generated_steps"] = "not tried: {}".format(e)
            try:
                prog, todo = make_program([], vector, d), []
            except BuildError as e:
                ctx.notes["general_steps"] = "not tried: {}".format(str(e)[-300:])
                continue
        except BuildError as e:
            bad = culprit(todo, vector, d)
            if bad:
                s, m = bad
                ctx.violation("{} cannot be generated and compiled: {}".format(text(s + (False,)), m), {"kind": "step", "step": s + (False,), "seed": "1", "flags": 0, "vector": vector}, key=text(s + (False,)))
                continue
            ctx.notes["steps"] = "not tried: {}".format(str(e)[-300:])
            continue
        rounds = 40 if ctx.thorough else 3

        def shard(k):
            if ctx.stop:
                return
            rc, out = call([prog, "run", str(seed_of(ctx, "steps" + vector)), str(rounds), str(k), str(NCPU)], 3000 if ctx.thorough else 400)
            fails = re.findall(r"^FAIL (\w) (\w) (\d+) (\d+) (\d+) (\d+) (\d) (\d+) (\d+)$", out, re.M)
            done = re.search(r"^DONE (\d+) (\d+) (\d+) (\S+)$", out, re.M)
            if done:
                a, b, c, w = done.groups()
                ctx.add(int(a) + int(b) + int(c), int(a) + int(b) + int(c), [], None, {"general vertical": int(a), "general horizontal": int(b), "generated": int(c)})
                ctx.notes["largest error"] = max(ctx.notes.get("largest error", 0), float(w))
            elif rc is None:
                ctx.problem("time limit")
            else:
                # it ended in the middle of a case
                m = re.findall(r"^RUN (\w) (\w) (\d+) (\d+) (\d+) (\d+) (\d) (\d+) (\d+)$", out, re.M)
                fails = fails or m[-1:]
                if not m:
                    ctx.problem("the program ends with {}: {}".format(rc, out[-300:]))
            for f in fails[:1]:
                s = (f[0], f[1], tuple(int(x) for x in f[2:6]), f[6] == "1")
                s, flags = shrink(prog, s, f[7], int(f[8]))
                ctx.violation("{} ({}): {}".format(text(s), vector, one_case(prog, s, f[7], flags)), {"kind": "step", "step": s, "seed": f[7], "flags": flags, "vector": vector}, key=text(s))

        with cf.ThreadPoolExecutor(NCPU) as pool:
            list(pool.map(shard, range(NCPU)))
        ctx.add(0, 0, [text(x + (False,)) for x in r.sample(todo, min(20, len(todo)))])
        shutil.rmtree(d, ignore_errors=True)


def replay_step(d):
    kind, di, am, general = d["step"]
    tmp = os.path.join(build.BUILD, "scratch", "replay-step")
    try:
        prog = make_program([] if general else [(kind, di, tuple(am))], d["vector"], tmp)
        v = one_case(prog, (kind, di, tuple(am), general), d["seed"], d["flags"])
    except BuildError as e:
        v = str(e)[-1000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(v or "holds")
    return 1 if v else 0


KINDS["step"] = replay_step
