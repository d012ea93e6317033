"""P24: the scripts that write the tables of the sources, and the tables in the sources, against the definitions
of what the tables contain."""
import concurrent.futures as cf
import decimal, itertools, os, re, shutil, subprocess, sys, time

import build
from build import NCPU
from drivers import KINDS
from run import check

CHARS = "spdfghiklmnoqrtuvwxyzabceSPDFGHIKLMNOQRTUVWXYZABCE0123456789"
D = decimal.Decimal
MP = None


def mp_python():
    """A Python that has mpmath (some of the scripts need it)."""
    global MP
    if MP is None:
        MP = next((p for p in (sys.executable, shutil.which("python3"), shutil.which("python3-vt"), "/opt/veriftools/pyvenv/bin/python3")
                   if p and subprocess.run([p, "-c", "import mpmath"], capture_output=True).returncode == 0), "")
    return MP


# ---------------------------------------------------------------- definitions
def cartesians(l):
    return [(l - a, a - b, b) for a in range(l + 1) for b in range(a + 1)]


# the order of GAMESS, where it is another one
GAMESS = {l: [tuple(f.count(a) for a in "xyz") for f in s.split()] for l, s in
          ((2, "xx yy zz xy xz yz"), (3, "xxx yyy zzz xxy xxz xyy yyz xzz yzz xyz"))}

PI = None


def pi():
    global PI
    if PI is None:
        with decimal.localcontext() as c:
            c.prec = 80
            a = lambda x: sum((D(-1) ** k / (D(2 * k + 1) * D(x) ** (2 * k + 1)) for k in range(130)), D(0))
            PI = 4 * (4 * a(5) - a(239))
    return PI


def boys(nmax, x):
    """F_0 .. F_nmax at x (a Decimal)."""
    with decimal.localcontext() as c:
        c.prec = 90
        e = (-x).exp()
        t = s = D(1) / (2 * nmax + 1)
        k = nmax
        while t > s * D(10) ** -85:
            k += 1
            t = t * 2 * x / (2 * k + 1)
            s += t
        f = [None] * nmax + [s * e]
        for n in range(nmax, 0, -1):
            f[n - 1] = (2 * x * f[n] + e) / (2 * n - 1)
        return f


def halfint(n):
    """(2n-1)!! / 2^n"""
    f = D(1)
    for k in range(1, n + 1):
        f = f * (2 * k - 1) / 2
    return f


def close(got, want, rel=4e-16):
    return abs(D(got) - want) <= abs(want) * D(rel)


# ---------------------------------------------------------------- running the scripts and reading what they wrote
class Bad(Exception):
    pass


class Undecided(Exception):
    pass


def script(name, args, d, mp=False):
    py = mp_python() if mp else sys.executable
    if not py:
        raise Undecided("no Python with mpmath")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([py, os.path.join(build.REPO, "python", name)] + args, cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=600)
    if p.returncode:
        raise Bad("{} {} fails: {}".format(name, " ".join(args), p.stderr[-400:]))
    return p.stdout


def table_program(d, files, main, args=(), cxx=False, what=""):
    """Compiles the table with a main that prints it, and gives what it printed, in lines of words."""
    src = os.path.join(d, "main." + ("cpp" if cxx else "c"))
    with open(src, "w") as f:
        f.write(main)
    p = subprocess.run(["g++" if cxx else "gcc", "-w", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", d + "/prog", src] + list(files) + list(args) + ["-lm"], cwd=d, capture_output=True, text=True, errors="replace", timeout=600)
    if p.returncode:
        raise Bad("{}: what was written does not compile: {}".format(what, p.stderr[-400:]))
    p = subprocess.run([d + "/prog"], cwd=d, capture_output=True, text=True, errors="replace", timeout=300)
    if p.returncode:
        raise Bad("{}: reading the table: {}".format(what, p.stderr[-400:]))
    return [l.split() for l in p.stdout.splitlines()]


def skel(*p):
    return os.path.join(build.REPO, "skel", "simint", *p)


# ---------------------------------------------------------------- the tables
def ordering(c, d):
    n = c["max-am"]
    if c["committed"]:
        path = os.path.join(build.REPO, "generator", "Ordering_{}.cpp".format(c.get("order", "Psi4")))
    else:
        path = d + "/order.cpp"
        script("gen_ordering.py", ["--filename", "order.cpp", "--max-am", str(n)], d)
    got = table_program(d, [], '#include "%s"\n#include <cstdio>\nint main(){for(auto const& e : gorder_map) { printf("e %%d", e.first); for(auto const& x : e.second) printf(" %%d,%%d,%%d", x[0], x[1], x[2]); puts(""); }\n'
                        'for(auto const& e : gindex_map) { printf("i %%d", e.first); for(auto x : e.second) printf(" %%d", x); puts(""); } }' % path, cxx=True, what="ordering")
    want = {}
    for l in range(n + 1):
        ts = GAMESS[l] if c.get("order") == "GAMESS" and l in GAMESS else cartesians(l)
        want["e", l] = ["{},{},{}".format(*t) for t in ts]
        want["i", l] = [str(t[0] | t[1] << 8 | t[2] << 16) for t in ts]
    have = {(g[0], int(g[1])): g[2:] for g in got}
    for k in want:
        if have.get(k) != want[k]:
            raise Bad("{} of l = {} are {}, not {}".format("exponents" if k[0] == "e" else "indices", k[1], " ".join(have.get(k, ["absent"]))[:200], " ".join(want[k])[:200]))
    if set(have) - set(want) and not c["committed"]:
        raise Bad("entries beyond the maximum: {}".format(sorted(set(have) - set(want))[:4]))


def recurinfo(c, d):
    n = c["max-am"]
    tot = (n + 1) * (n + 2) * (n + 3) // 6
    if c["committed"]:
        path, inc = skel("recur_lookup.c"), os.path.join(build.REPO, "skel")
    else:
        script("gen_recurinfo.py", ["--filename", "recur", "--max-am", str(n)], d)
        path, inc = d + "/recur.c", d + "/inc"
        os.makedirs(inc + "/simint", exist_ok=True)
        # "REMEMBER TO CHANGE THE HEADER FILE"
        with open(skel("recur_lookup.h")) as f:
            h = f.read()
        h = re.sub(r"recurinfo_array\s*\[\s*\d+\s*\]", "recurinfo_array[%d]" % tot, h)
        h = re.sub(r"am_recur_map\s*\[\s*\d+\s*\]", "am_recur_map[%d]" % (n + 1), h)
        with open(inc + "/simint/recur_lookup.h", "w") as f:
            f.write(h)
    got = table_program(d, [path], '#include "simint/recur_lookup.h"\n#include <stdio.h>\nint main(){for(int l = 0; l < %d; l++) for(int k = 0; k < (l+1)*(l+2)/2; k++) { struct RecurInfo const * r = &recurinfo_array[am_recur_map[l] + k];\n'
                        'printf("%%d %%d %%d %%d %%d", l, r->ijk[0], r->ijk[1], r->ijk[2], r->dir); for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) printf(" %%d", r->idx[a][b]); puts(""); } return 0; }' % (n + 1),
                        ["-I" + inc], what="recurrences")
    got = [tuple(map(int, g)) for g in got]
    index = {l: {t: i for i, t in enumerate(cartesians(l))} for l in range(-2, n + 2)}
    k = 0
    for l in range(n + 1):
        for t in cartesians(l):
            if k >= len(got) or got[k][:4] != (l,) + t:
                raise Bad("function {} of l = {} is {}".format(k, l, got[k][:4] if k < len(got) else "absent"))
            di, idx = got[k][4], got[k][5:]
            if l == 0:
                if di != -1:
                    raise Bad("an s function has the direction {}".format(di))
            else:
                m = min(x for x in t if x)
                if not 0 <= di <= 2 or t[di] != m:
                    raise Bad("direction {} for the exponents {}: not one of the least non-zero exponent".format(di, t))
            for a in range(3):
                for b, s in enumerate((-1, -2, 1)):
                    u = tuple(x + (s if i == a else 0) for i, x in enumerate(t))
                    w = index[l + s].get(u, -1) if l + s >= 0 else -1
                    if idx[3 * a + b] != w:
                        raise Bad("index of {} reached from {} is {}, not {}".format(u, t, idx[3 * a + b], w))
            k += 1


def fill(c, d):
    """The pointer arrays: every quartet up to the limits has the function that carries its name."""
    n, der = c["max-am"], c["der"]
    maxam, limit = c["maxam"], c["limit"]
    if c["committed"]:
        path = skel("ostei", "ostei_init.c" if der == 0 else "ostei_deriv1_init.c")
    else:
        path = d + "/fill.c"
        script("gen_fill.py", ["-l", str(n), "-d", str(der), "fill.c"], d)
    os.makedirs(d + "/inc/simint/ostei/gen", exist_ok=True)
    top = min(n, limit)
    name = ("ostei_deriv{}_".format(der) if der else "ostei_")
    qs = list(itertools.product(range(n + 1), repeat=4))
    fn = lambda q: name + "_".join(CHARS[x] for x in q)
    with open(d + "/inc/simint/ostei/ostei_config.h", "w") as f:
        f.write("#pragma once\n#define SIMINT_OSTEI_MAXAM %d\n#define SIMINT_OSTEI_MAXDER %d\n" % (maxam, max(der, c["maxder"])))
        f.write("".join("#define SIMINT_OSTEI_DERIV%d_MAXAM %d\n" % (k, limit if k == der else 0) for k in (1, 2)))
    with open(d + "/inc/simint/ostei/ostei.h", "w") as f:
        f.write("#pragma once\n#include \"simint/ostei/ostei_config.h\"\ntypedef int (*simint_osteifunc)(int);\n")
    with open(d + "/inc/simint/ostei/ostei_init.h", "w") as f:
        f.write("#pragma once\nvoid simint_ostei_init(void); void simint_ostei_finalize(void);\n" + "".join("void simint_ostei_deriv%d_init(void); void simint_ostei_deriv%d_finalize(void);\n" % (k, k) for k in (1, 2)))
    with open(d + "/inc/simint/ostei/gen/ostei_{}generated.h".format("deriv%d_" % der if der else ""), "w") as f:
        f.write("#pragma once\n" + "".join("int {}(int);\n".format(fn(q)) for q in qs if max(q) <= top))
    want = {(der,) + q: i for i, q in enumerate(qs) if max(q) <= top}
    if n > 8:
        # too many functions to compile: the assignments that the preprocessor leaves
        p = subprocess.run(["gcc", "-E", "-P", "-I" + d + "/inc", path], capture_output=True, text=True, errors="replace", timeout=300)
        if p.returncode:
            raise Bad("pointer array: what was written does not compile: {}".format(p.stderr[-400:]))
        number = {fn(q): i for i, q in enumerate(qs)}
        got = {}
        for m in re.finditer(r"simint_osteifunc_array((?:\s*\[\s*\d+\s*\])+)\s*=\s*&?\s*(\w+)", p.stdout):
            got[tuple(map(int, re.findall(r"\d+", m.group(1))))] = number.get(m.group(2), -1)
        fill_compare(got, want, lambda i: "no function" if i is None else "an unknown function" if i < 0 else fn(qs[i]))
        return
    suffix = "_deriv%d" % der if der else ""
    main = '#include "simint/ostei/ostei.h"\n#include "simint/ostei/ostei_init.h"\n#include <stdio.h>\n#define A (SIMINT_OSTEI_MAXAM+1)\nsimint_osteifunc simint_osteifunc_array[SIMINT_OSTEI_MAXDER+1][A][A][A][A];\n'
    main += "".join("int {}(int x) {{ return {}; }}\n".format(fn(q), i) for i, q in enumerate(qs) if max(q) <= top)
    main += "int main() { simint_ostei%s_init(); for(int d = 0; d <= SIMINT_OSTEI_MAXDER; d++) for(int i = 0; i < A; i++) for(int j = 0; j < A; j++) for(int k = 0; k < A; k++) for(int l = 0; l < A; l++)\n" % suffix
    main += 'if(simint_osteifunc_array[d][i][j][k][l]) printf("%d %d %d %d %d %d\\n", d, i, j, k, l, simint_osteifunc_array[d][i][j][k][l](0));\n'
    main += "simint_ostei%s_finalize(); return 0; }\n" % suffix
    got = {tuple(map(int, g[:5])): int(g[5]) for g in table_program(d, [path], main, ["-I" + d + "/inc"], what="pointer array")}
    fill_compare(got, want, lambda i: "no function" if i is None else fn(qs[i]))


def fill_compare(got, want, show):
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            raise Bad("the entry of {} (derivative {}) is {}, not {}".format(k[1:], k[0], show(got.get(k)), show(want.get(k))))


def shellconstants(c, d):
    n = c["max-am"]
    if c["committed"]:
        path, hdr = skel("shell", "shell_constants.c"), skel("shell", "shell_constants.h")
    else:
        script("gen_shellconstants.py", ["--filename", "con", "--max-am", str(n), "--dps", str(c["dps"])], d, True)
        path, hdr = d + "/con.c", d + "/con.h"
    got = table_program(d, [], '#include "%s"\n#include "%s"\n#include <stdio.h>\nint main(){printf("%%d %%d\\n", (int)SHELL_PRIM_NORMFAC_MAXL, (int)(sizeof(norm_fac)/sizeof(double))); for(int l = 0; l <= SHELL_PRIM_NORMFAC_MAXL; l++) printf("%%.17g\\n", norm_fac[l]); return 0; }' % (hdr, path), what="normalization factors")
    if got[0] != [str(n), str(n + 1)]:
        raise Bad("limit and length are {}, not {}".format(got[0], [n, n + 1]))
    for l in range(n + 1):
        w = (pi() ** 3).sqrt() * halfint(l)
        if not close(got[1 + l][0], w):
            raise Bad("factor of l = {} is {}, not {:.17g}".format(l, got[1 + l][0], w))


def longfac(c, d):
    n = c["max-n"]
    if c["committed"]:
        path = skel("boys", "boys_longfac.h")
    else:
        script("boys/gen_boys_longfac.py", ["--filename", "lf", "--max-n", str(n), "--dps", str(c["dps"])], d, True)
        path = d + "/lf.h"
    got = table_program(d, [], '#include "%s"\n#include <stdio.h>\nint main(){printf("%%d\\n", (int)BOYS_LONGFAC_MAXN); for(int l = 0; l <= BOYS_LONGFAC_MAXN; l++) printf("%%.17g\\n", boys_longfac[l]); return 0; }' % path, what="factors of the Boys function")
    if got[0] != [str(n)]:
        raise Bad("limit is {}, not {}".format(got[0][0], n))
    for k in range(n + 1):
        w = pi().sqrt() * halfint(k) / 2
        if not close(got[1 + k][0], w):
            raise Bad("factor of n = {} is {}, not {:.17g}".format(k, got[1 + k][0], w))


def shortgrid(c, d):
    n, mx, sp = c["max-n"], c["max-x"], c["spacing"]
    if c["committed"]:
        path, hdr = skel("boys", "boys_shortgrid.c"), skel("boys", "boys_shortgrid.h")
    else:
        script("boys/gen_boys_shortgrid.py", ["--filename", "grid", "--max-n", str(n), "--max-x", mx, "--spacing", sp, "--dps", str(c["dps"])], d, True)
        path, hdr = d + "/grid.c", d + "/grid.h"
    got = table_program(d, [], '#include "%s"\n#include "%s"\n#include <stdio.h>\n#include <math.h>\nint main(){double below = nextafter(BOYS_SHORTGRID_MAXX, 0.0); printf("%%d %%d %%d %%d %%.17g %%.17g %%d\\n", (int)BOYS_SHORTGRID_MAXN, (int)BOYS_SHORTGRID_NPOINT, (int)(sizeof(boys_shortgrid)/sizeof(boys_shortgrid[0])), (int)(sizeof(boys_shortgrid[0])/sizeof(double)),\n'
                        '(double)BOYS_SHORTGRID_MAXX, (double)BOYS_SHORTGRID_SPACE, (int)(BOYS_SHORTGRID_LOOKUPFAC*(below+BOYS_SHORTGRID_LOOKUPFAC2)));\n'
                        'for(int i = 0; i < BOYS_SHORTGRID_NPOINT; i++) { for(int k = 0; k <= BOYS_SHORTGRID_MAXN; k++) printf("%%.17g ", boys_shortgrid[i][k]); puts(""); }\n'
                        'for(int i = 0; i < 2*BOYS_SHORTGRID_MAXX/BOYS_SHORTGRID_SPACE; i++) { double x = (0.37 + i) * 0.5 * BOYS_SHORTGRID_SPACE; if(x < BOYS_SHORTGRID_MAXX) printf("%%.17g %%d\\n", x, (int)(BOYS_SHORTGRID_LOOKUPFAC*(x+BOYS_SHORTGRID_LOOKUPFAC2))); } return 0; }' % (hdr, path), what="grid of the Boys function")
    h = got[0]
    points = int(h[1])
    if int(h[0]) != n or h[1] != h[2] or int(h[3]) != n + 1:
        raise Bad("limits and sizes are {}".format(h[:4]))
    if not close(h[4], D(mx)) or not close(h[5], D(sp)):
        raise Bad("cutoff and spacing are {} and {}".format(h[4], h[5]))
    if int(h[6]) >= points:
        raise Bad("the grid has {} points and x just below {} is looked up at point {}".format(points, mx, h[6]))
    for i in range(points):
        w = boys(n, i * D(sp))
        for k in range(n + 1):
            if not close(got[1 + i][k], w[k]):
                raise Bad("F_{}({}) is {}, not {:.17g}".format(k, i * D(sp), got[1 + i][k], w[k]))
    for x, i in got[1 + points:]:
        if abs(D(x) - int(i) * D(sp)) > D(sp) * D("0.5000001"):
            raise Bad("x = {} is looked up at point {}, which is {}".format(x, i, int(i) * D(sp)))


def cutoff(c, d):
    n, sp, eps = c["max-n"], D(c["spacing"]), D(10) ** -c["eps"]
    out = script("boys/cutoff_finder.py", ["--spacing", c["spacing"], "--max-n", str(n), "--eps", str(c["eps"])], d, True)
    got = [l.split() for l in out.splitlines() if re.match(r"\s*\d+\s+[0-9.]+\s*$", l)]
    with decimal.localcontext() as ctx:
        ctx.prec = 80
        want, x = [None] * (n + 1), D(0)
        while None in want:
            x += sp
            f = boys(n, x)
            for k in range(n + 1):
                if want[k] is None and abs(f[k] - (pi() / x ** (2 * k + 1)).sqrt() * halfint(k) / 2) < eps:
                    want[k] = x
    if [int(g[0]) for g in got] != list(range(n + 1)):
        raise Bad("printed for the orders {}".format([g[0] for g in got]))
    for k in range(n + 1):
        if abs(D(got[k][1]) - want[k]) > want[k] * D("0.00001"):
            raise Bad("cutoff of n = {} is {}, not {}".format(k, got[k][1], want[k]))


TOOLS = {"ordering": ordering, "recurinfo": recurinfo, "fill": fill, "shellconstants": shellconstants, "longfac": longfac, "shortgrid": shortgrid, "cutoff": cutoff}


def text(c):
    t = " ".join("{} {}".format(k, c[k]) for k in sorted(c) if k not in ("tool", "committed") and c[k] is not None)
    return "{}{} {}".format(c["tool"], " (the table in the sources)" if c["committed"] else "", t)


def run_case(c, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        TOOLS[c["tool"]](c, d)
        return None
    except Bad as e:
        return str(e)
    except subprocess.TimeoutExpired as e:
        raise Undecided("{}: {}".format(text(c), e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def committed():
    """The tables in the sources with the limits the rest of the sources relies on."""
    r = [{"tool": "ordering", "max-am": 24}, {"tool": "ordering", "max-am": 24, "order": "GAMESS"}, {"tool": "recurinfo", "max-am": 18}, {"tool": "shellconstants", "max-am": 20}, {"tool": "longfac", "max-n": 31},
         {"tool": "shortgrid", "max-n": 36, "max-x": "36.5", "spacing": "0.1"}]
    r += [{"tool": "fill", "der": e, "max-am": 7, "limit": l, "maxam": 7, "maxder": 1} for e in (0, 1) for l in (0, 3, 7)]
    for c in r:
        if c["tool"] == "fill" and c["der"] == 0:
            c["maxam"] = c["limit"]
        c["committed"] = True
    return r


def case(r, thorough):
    tool = r.choice(list(TOOLS) + ["shortgrid"])
    dps = r.choice([25, 50, 80, 256])
    c = {"tool": tool, "committed": False}
    if tool == "ordering":
        c.update({"max-am": r.choice([0, 1, r.randint(2, 12), r.randint(13, 40)])})
    elif tool == "recurinfo":
        c.update({"max-am": r.choice([0, 1, r.randint(2, 10), r.randint(11, 30)])})
    elif tool == "fill":
        n, e = r.choice([r.randint(0, 5), r.randint(0, 8 if thorough else 6), r.randint(9, 16), r.randint(17, 32 if thorough else 24)]), r.randint(0, 2)
        limit = r.randint(0, n)
        c.update({"max-am": n, "der": e, "limit": limit, "maxam": limit if e == 0 else r.randint(limit, n), "maxder": r.randint(e, 2)})
    elif tool == "shellconstants":
        c.update({"max-am": r.choice([0, 1, r.randint(2, 20), r.randint(21, 60)]), "dps": dps})
    elif tool == "longfac":
        c.update({"max-n": r.choice([0, 1, r.randint(2, 31), r.randint(32, 80)]), "dps": dps})
    elif tool == "shortgrid":
        n = r.randint(0, 40)
        sp = r.choice([D("0.1"), D("0.2"), D("0.25"), D("0.5"), D("0.05"), D("0.3"), D("0.125"), D(r.randint(2, 200)) / 100])
        points = r.randint(1, (4000 if thorough else 1000) // (n + 1))
        x = points * sp
        if r.random() < 0.6:
            x += sp * r.choice([D("0.5"), D("0.3"), D("0.8"), D(r.randint(0, 999)) / 1000])
        x = min(x, D(60))
        c.update({"max-n": n, "max-x": str(x.normalize() if x != x.to_integral() else int(x)), "spacing": str(sp.normalize()), "dps": dps})
    else:
        c.update({"max-n": r.randint(0, 16), "spacing": r.choice(["0.1", "0.5", "1", "0.25", "2", "0.7"]), "eps": r.randint(3, 17)})
    return c


def shrink(c, d):
    c = dict(c)
    again = True
    while again:
        again = False
        for k in ("max-am", "max-n", "limit", "maxam", "maxder"):
            if k not in c or c["committed"]:
                continue
            for v in (0, 1, c[k] // 2, c[k] - 1):
                e = dict(c, **{k: v})
                if not 0 <= v < c[k] or c["tool"] == "fill" and (e["limit"] > e["max-am"] or e["maxam"] < e["limit"] or e["maxder"] < e["der"] or e["der"] == 0 and e["maxam"] != e["limit"]):
                    continue
                if run_case(e, d):
                    c, again = e, True
                    break
    return c


@check("P24", rule="The scripts of /repo/python run with random limits; the compiled table (or, for the cutoffs, what is printed) is compared entry by entry with the definition of its contents, computed with integers or with numbers of 80 digits. The same for the tables in the sources. Non-trivial: limits above one.")
def p24(ctx):
    r = ctx.rng("tables")
    todo = committed() + [case(r, ctx.thorough) for _ in range(6000 if ctx.thorough else 240)]
    budget = 3000 if ctx.thorough else 300

    def one(i, c):
        if ctx.stop or time.time() - ctx.t0 > budget:
            return
        d = os.path.join(ctx.scratch, "t{}".format(i))
        try:
            v = run_case(c, d)
        except Undecided as e:
            ctx.problem(str(e))
            return
        ctx.add(1, int(max(c.get("max-am", 0), c.get("max-n", 0)) > 1), [text(c)] if i % 12 == 0 else [], None, {c["tool"] + (" in the sources" if c["committed"] else ""): 1})
        if v:
            if ctx.stop:
                return
            ctx.stop = not ctx.thorough
            c = shrink(c, d)
            ctx.violation("{}: {}".format(text(c), run_case(c, d) or v), {"kind": "table", "case": c}, key=c["tool"])

    with cf.ThreadPoolExecutor(NCPU) as pool:
        for x in [pool.submit(one, i, c) for i, c in enumerate(todo)]:
            x.result()


def replay_table(d):
    v = run_case(d["case"], os.path.join(build.BUILD, "scratch", "replay-table"))
    print(v or "holds")
    return 1 if v else 0


KINDS["table"] = replay_table
