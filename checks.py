"""What each check runs: configurations, generators (harness properties) and amounts."""
import json, os, random, shutil, sys, threading

import build
from build import BuildError
from run import ASSUME, BASE, EXT, G, INL, MIX, Ctx, call, cfg, check, built, describe, run_harness, seed_of

ASAN = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer"]
ASANF = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
TSANF = "-O1 -g1 -fsanitize=thread"


def f(t, l, d):
    return t.format(l=l, d=d)


# amounts: (cases, seconds) for the quick tier; the thorough tier multiplies the seconds
def jobs(ctx, entries):
    """entries: (config, prop, cases, seconds, shards[, args])"""
    out = []
    for e in entries:
        c, prop, cases, secs, shards = e[:5]
        args = e[5] if len(e) > 5 else ()
        if ctx.thorough:
            cases, secs, shards = cases * 40, secs * 12, max(shards, 2)
        out.append((c, prop, cases, secs, shards, args))
    return out


@check("P01", rule="Shell quartets of random centres, exponents and contraction coefficients, walking through every quartet of angular momenta of each configuration.")
def p01(ctx):
    e = [(cfg(f(G, 3, 0), "sse"), "eri", 60000, 25, 4), (cfg(f(EXT, 2, 0), "scalar"), "eri", 24000, 20, 2),
         (cfg(f(MIX, 2, 0), "avx"), "eri", 24000, 20, 2), (cfg(f(INL, 2, 0), "avx2"), "eri", 24000, 20, 2)]
    if ctx.thorough:
        e += [(cfg(f(G, 4, 0), "avx2", cflags="-O2"), "eri", 20000, 60, 4), (cfg(f(EXT, 3, 0), "commonavx512"), "eri", 20000, 30, 2),
              (cfg(f(INL, 3, 0), "sse", cflags="-O3"), "eri", 20000, 30, 2), (cfg(f(MIX, 3, 0), "scalar-avx2", cc="clang"), "eri", 20000, 30, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P02", rule="As P01, for the twelve centre derivatives.")
def p02(ctx):
    e = [(cfg(f(G, 2, 1), "sse"), "deriv", 6000, 25, 3), (cfg(f(EXT, 2, 1), "scalar"), "deriv", 3000, 20, 2),
         (cfg(f(MIX, 2, 1), "avx"), "deriv", 3000, 20, 2), (cfg(f(INL, 2, 1), "avx2"), "deriv", 3000, 20, 2)]
    if ctx.thorough:
        e += [(cfg(f(G, 3, 1), "avx2", cflags="-O2"), "deriv", 10000, 60, 4), (cfg(f(EXT, 3, 1), "sse"), "deriv", 5000, 30, 2),
              (cfg(f(MIX, 3, 1), "commonavx512", cc="clang"), "deriv", 5000, 30, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P03", rule="Batches of up to several SIMD shell batches on both sides with repeated pairs, same-shell pairs, clips and screening data present; every block of the result is compared with its own quartet.")
def p03(ctx):
    e = [(cfg(f(G, 2, 1), "sse"), "batch", 36000, 20, 3), (cfg(f(INL, 1, 1), "commonavx512"), "batch", 16000, 20, 2), (cfg(f(EXT, 2, 1), "scalar"), "batch", 24000, 20, 2),
         (cfg(f(MIX, 2, 0), "avx2"), "batch", 20000, 20, 2), (cfg(f(G, 2, 1), "sse"), "huge", 24, 20, 2), (cfg(f(MIX, 2, 1), "avx2"), "huge", 32, 20, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P04", rule="Batches whose primitives spread over many decades, screened at tolerances from 1e-13 to 1e-2.")
def p04(ctx):
    e = [(cfg(f(G, 2, 1), "avx"), "screen", 21000, 25, 3), (cfg(f(INL, 1, 1), "scalar"), "screen", 21000, 25, 2), (cfg(f(EXT, 2, 0), "commonavx512"), "screen", 9000, 25, 2),
         (cfg(f(MIX, 1, 0), "sse"), "screen", 15000, 25, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P05", rule="Random lists of shell pairs split at random points, created piecewise, concatenated, and compared with the same list created at once.")
def p05(ctx):
    e = [(cfg(f(G, 1, 1), "sse"), "cat", 120000, 20, 3), (cfg(f(INL, 1, 0), "scalar"), "cat", 120000, 20, 2), (cfg(f(EXT, 1, 1), "commonavx512"), "cat", 48000, 20, 3)]
    run_harness(ctx, jobs(ctx, e))


@check("P06", rule="Calls on read-only inputs, with result and workspace of the advertised size fenced by unmapped pages and filled with NaNs, zeros or numbers, repeated in other orders.")
def p06(ctx):
    e = [(cfg(f(G, 3, 1), "sse"), "purity", 15000, 20, 4), (cfg(f(MIX, 2, 1), "avx2"), "purity", 7500, 20, 2), (cfg(f(INL, 2, 1), "scalar"), "purity", 7500, 20, 2),
         (cfg(f(EXT, 1, 1), "commonavx512"), "purity", 4500, 20, 1)]
    run_harness(ctx, jobs(ctx, e))


@check("P07", rule="Histories of create, copy, normalize, concatenate, recreate and free on shells and pair sets against a model, in libraries built with the address and undefined-behaviour sanitizers.")
def p07(ctx):
    e = [(cfg(f(G, 1, 1), "scalar", cflags=ASANF, hx=ASAN), "life", 24000, 25, 4), (cfg(f(INL, 1, 0), "avx2", cflags=ASANF, hx=ASAN), "life", 24000, 25, 4)]
    run_harness(ctx, jobs(ctx, e))


@check("P08")
def p08(ctx):
    e = [(BASE, "norm", 4800, 20, 8), (cfg("-l 0 -p 1 -d 0", "avx2", cflags="-O3"), "norm", 1200, 20, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P09")
def p09(ctx):
    e = [(BASE, "overlap", 7200, 25, 6), (cfg("-l 0 -p 1 -d 0", "avx2", cflags=ASANF, hx=ASAN), "overlap", 1800, 25, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P10")
def p10(ctx):
    e = [(BASE, "potential", 21000, 25, 6), (cfg("-l 0 -p 1 -d 0", "avx2", cflags=ASANF, hx=ASAN), "potential", 4000, 25, 2)]
    run_harness(ctx, jobs(ctx, e))


VECS = ["scalar", "sse", "avx", "avx2", "commonavx512"]


@check("P11")
def p11(ctx):
    e = [(cfg("-l 0 -p 1 -d 0", v, sources=["main.cpp", "num_props.cpp"]), "boys", 600000, 12, 2) for v in VECS]
    run_harness(ctx, jobs(ctx, e))


@check("P12")
def p12(ctx):
    e = [(cfg("-l 0 -p 1 -d 0", "sse", sources=["main.cpp", "num_props.cpp"]), "tables", 1600000, 12, 4)]
    run_harness(ctx, jobs(ctx, e))


@check("P14")
def p14(ctx):
    e = []
    for cc in ("gcc", "clang"):
        for v in VECS:
            e.append((cfg("-l 0 -p 1 -d 0", v, cc=cc, sources=["main.cpp", "num_props.cpp"]), "simd", 200000, 5, 1))
    run_harness(ctx, jobs(ctx, e))


@check("P16", rule="One quartet compared with its image under a symmetry of the integrals; the exact value gives only the scale of the rounding.")
def p16(ctx):
    e = [(cfg(f(G, 3, 1), "sse"), "meta", 32000, 20, 4), (cfg(f(MIX, 2, 1), "avx2"), "meta", 16000, 20, 2), (cfg(f(INL, 2, 1), "scalar"), "meta", 16000, 20, 2)]
    run_harness(ctx, jobs(ctx, e))


@check("P17", rule="Two to eight threads mixing integral, derivative, pair-creation, one-electron and screening calls on shared inputs, against the same calls made alone; also under the thread sanitizer.")
def p17(ctx):
    e = [(cfg(f(G, 1, 1), "sse", cflags="-O2"), "threads", 1200, 15, 1), (cfg(f(EXT, 2, 1), "avx2"), "threads", 1200, 15, 1),
         (cfg(f(MIX, 1, 1), "sse", cflags=TSANF, hx=["-fsanitize=thread"], cxx="g++"), "threads", 1200, 30, 6)]
    run_harness(ctx, jobs(ctx, e))


@check("P20", rule="Quartets in which one shell of the bra, the ket or both is the zero shell.")
def p20(ctx):
    e = [(cfg(f(G, 3, 1), "sse"), "zeroshell", 6400, 20, 4), (cfg(f(EXT, 2, 1), "scalar"), "zeroshell", 6400, 20, 2), (cfg(f(INL, 2, 1), "avx2"), "zeroshell", 6400, 20, 2)]
    run_harness(ctx, jobs(ctx, e))


# ------------------------------------------------------------------ replay
def replay(path):
    d = json.load(open(path))
    print("{}: {}".format(d["property"], d["message"]))
    if d["kind"] == "harness":
        prog = built(d["config"])
        tmp = os.path.join(build.BUILD, "replay.case")
        if "case" in d:
            open(tmp, "w").write(d["case"])
            rc, out = call([prog, "--prop", d["prop"], "--replay", tmp] + d["args"], 400)
        else:
            rc, out = call([prog] + [x for x in d["rerun"]], 600)
        print(out)
        return 0 if rc == 0 else 1
    import drivers
    return drivers.replay(d)

import drivers  # noqa: E402  (registers the remaining checks)
import tables  # noqa: E402
import steps  # noqa: E402
