// Boys function, lookup tables and vector primitives: the numerical substrate,
// called through the library's own headers.
#include "common.hpp"
#include <tuple>

#include "simint/boys/boys.h"
#include "simint/recur_lookup.h"
#include "simint/constants.h"
#include "simint/shell/shell_constants.h"

// The helpers behind boys_F_split are tried on their own where they exist under
// their present names and arguments: have_NAME() tells, call_NAME(..) calls.
#define HELPER(ret, f, ...) \
    template<class... A> auto have1_##f(int, A... a) -> decltype(ret(f(a...)), true) { return true; } \
    template<class... A> bool have1_##f(long, A...) { return false; } \
    template<class... A> auto call1_##f(int, A... a) -> decltype(ret(f(a...))) { return ret(f(a...)); } \
    template<class... A> ret call1_##f(long, A...) { return ret(); } \
    static bool have_##f() { return std::apply([](auto... a) { return have1_##f(0, a...); }, std::tuple<__VA_ARGS__>()); } \
    template<class... A> ret call_##f(A... a) { return call1_##f(0, a...); }
HELPER(void, boys_F_taylor, double *, double, int)
HELPER(double, boys_F_taylor_single, double, int)
HELPER(void, boys_F_taylor_vec, SIMINT_DBLTYPE *, SIMINT_DBLTYPE, int)
HELPER(SIMINT_DBLTYPE, boys_F_taylor_single_vec, SIMINT_DBLTYPE, int)
HELPER(void, boys_F_long, double *, double, int)
HELPER(double, boys_F_long_single, double, int)
HELPER(void, boys_F_long_vec, SIMINT_DBLTYPE *, SIMINT_DBLTYPE, int)
HELPER(SIMINT_DBLTYPE, boys_F_long_single_vec, SIMINT_DBLTYPE, int)
HELPER(void, boys_F_long_recur, double *, double, int)
HELPER(void, boys_F_long_recur_vec, SIMINT_DBLTYPE *, SIMINT_DBLTYPE, int)

static const int V = SIMINT_SIMD_LEN;
// highest order the documented angular momenta ask for: (77|77), first derivative
static const int NMAX = 29;

union Vec
{
    SIMINT_DBLTYPE v;
    double d[SIMINT_SIMD_LEN];
};

// ------------------------------------------------------------------ Boys function
static double gen_x(Rng & r, int k)
{
    switch(k)
    {
    case 0: return r.uni(0, 36.5);
    case 1: { // around a point of the lookup grid or a boundary between two of them
        double x = r.below(366) * 0.1 + (r.chance(0.5) ? 0.05 : 0);
        const int n = r.range(-3, 3);
        for(int i = 0; i < std::abs(n); i++) x = std::nextafter(x, n < 0 ? -1.0 : 1e9);
        return std::max(0.0, x);
    }
    case 2: { // around the end of the grid
        double x = 36.5;
        const int n = r.range(-4, 4);
        for(int i = 0; i < std::abs(n); i++) x = std::nextafter(x, n < 0 ? -1.0 : 1e9);
        return x;
    }
    case 3: return r.chance(0.3) ? 0.0 : r.logu(-300, -1);
    case 4: return r.uni(36.5, 80);
    case 5: return r.logu(1.57, 4);
    case 6: return r.logu(4, 12);
    default: return r.uni(30, 45);
    }
}
static Case gen_boys(Rng & r, int n)
{
    Case c;
    c.iextra = {n % (NMAX + 1)};
    const int mode = r.below(4);
    for(int i = 0; i < V; i++)
    {
        int k;
        if(mode == 0) k = r.below(4);                                 // all on the grid
        else if(mode == 1) k = 4 + r.below(3);                        // all beyond it
        else k = r.below(8);
        c.extra.push_back(gen_x(r, k));
    }
    if(mode == 1)
        for(auto & x : c.extra)
            if(x <= 36.5) x = 37;
    return c;
}

// The table look-up and the long-range forms, each called directly in its range.
static void boys_parts(const Case & c, int n, Verdict & v, Stats * st)
{
    const double end = BOYS_SHORTGRID_MAXX;
    Vec x, F[NMAX + 3];
    bool grid = true, far = true;
    for(int i = 0; i < V; i++)
    {
        x.d[i] = std::fabs(c.extra[i]);
        grid = grid && x.d[i] < end;
        far = far && x.d[i] >= end;
    }
    auto clear = [&] {
        for(int i = 0; i <= NMAX + 2; i++)
            for(int q = 0; q < V; q++) F[i].d[q] = -77.25;
    };
    std::vector<ref::R> G(n + 1);
    // what is compared, for one lane; form: 0 the Boys function, 1 its long-range form
    auto want = [&](double a, int form) {
        if(form == 0) ref::boys(n, (ref::R)a, G.data());
        else
        {
            ref::R g = 0.5L * sqrtl(3.14159265358979323846264338327950288L / (ref::R)a);
            for(int m = 0; m <= n; m++) { G[m] = g; g *= (m + 0.5L) / (ref::R)a; }
        }
    };
    auto one = [&](const char * name, int m, double a, double got) {
        // powers of large arguments leave the range of doubles before the value does
        if((2 * m + 1) * std::log10(std::max(a, 1.0)) > 295) return;
        const double w = (double)G[m], err = std::fabs(got - w);
        if(!(err <= 1e-13 * w + 1e-300)) v.fail(fmt("%s, order %d of %d at %.17g: computed %.17g, exact %.17g", name, m, n, a, got, w));
    };
    auto lane = [&](const char * name, int i, int form) {
        want(x.d[i], form);
        for(int m = 0; m <= n && v.ok; m++) one(name, m, x.d[i], F[m].d[i]);
    };
    auto untouched = [&](const char * name, int i0, int cnt) __attribute__((noinline)) {
        for(int m = 0; m <= NMAX + 2 && v.ok; m++)
            for(int i = 0; i < V; i++)
            {
                const bool asked = m <= n && i >= i0 && i - i0 < cnt;
                if(!asked && F[m].d[i] != -77.25) { v.fail(fmt("%s: wrote order %d of lane %d, asked for order %d of %d lanes from %d", name, m, i, n, cnt, i0)); break; }
            }
    };
    double s = 0;
    const int i = (int)(c.extra.size() > 1 ? (unsigned)(n + (int)(c.extra[1] * 8)) % V : 0);
    double * Fd = (double *)F;
    if(x.d[i] < end)
    {
        if(have_boys_F_taylor())
        {
            clear();
            call_boys_F_taylor(Fd + i, x.d[i], n);
            lane("boys_F_taylor", i, 0);
            untouched("boys_F_taylor", i, 1);
        }
        if(have_boys_F_taylor_single())
        {
            s = call_boys_F_taylor_single(x.d[i], n);
            want(x.d[i], 0);
            one("boys_F_taylor_single", n, x.d[i], s);
        }
    }
    else
    {
        if(have_boys_F_long())
        {
            clear();
            call_boys_F_long(Fd + i, x.d[i], n);
            lane("boys_F_long", i, 1);
            untouched("boys_F_long", i, 1);
        }
        if(have_boys_F_long_single())
        {
            s = call_boys_F_long_single(x.d[i], n);
            want(x.d[i], 1);
            one("boys_F_long_single", n, x.d[i], s);
        }
        if(have_boys_F_long_recur())
        {
            clear();
            call_boys_F_long_recur(Fd + i, x.d[i], n);
            lane("boys_F_long_recur", i, 0);
            untouched("boys_F_long_recur", i, 1);
        }
    }
    if(grid && have_boys_F_taylor_vec())
    {
        clear();
        call_boys_F_taylor_vec(&F[0].v, x.v, n);
        for(int q = 0; q < V; q++) lane("boys_F_taylor_vec", q, 0);
        untouched("boys_F_taylor_vec", 0, V);
    }
    if(grid && have_boys_F_taylor_single_vec())
    {
        F[n].v = call_boys_F_taylor_single_vec(x.v, n);
        for(int q = 0; q < V; q++) { want(x.d[q], 0); one("boys_F_taylor_single_vec", n, x.d[q], F[n].d[q]); }
    }
    if(far && have_boys_F_long_vec())
    {
        clear();
        call_boys_F_long_vec(&F[0].v, x.v, n);
        for(int q = 0; q < V; q++) lane("boys_F_long_vec", q, 1);
        untouched("boys_F_long_vec", 0, V);
    }
    if(far && have_boys_F_long_single_vec())
    {
        F[n].v = call_boys_F_long_single_vec(x.v, n);
        for(int q = 0; q < V; q++) { want(x.d[q], 1); one("boys_F_long_single_vec", n, x.d[q], F[n].d[q]); }
    }
    if(far && have_boys_F_long_recur_vec())
    {
        clear();
        call_boys_F_long_recur_vec(&F[0].v, x.v, n);
        for(int q = 0; q < V; q++) lane("boys_F_long_recur_vec", q, 0);
        untouched("boys_F_long_recur_vec", 0, V);
    }
    (void)st;
}

static Verdict chk_boys(const Case & c, Stats * st)
{
    Verdict v;
    const int n = c.iextra[0];
    Vec x, F[NMAX + 3];
    for(int i = 0; i < V; i++) x.d[i] = std::fabs(c.extra[i]);
    for(int i = 0; i <= NMAX + 2; i++)
        for(int q = 0; q < V; q++) F[i].d[q] = -77.25;
    boys_F_split(&F[0].v, x.v, n);
    int lo = 0, hi = 0;
    for(int i = 0; i < V && v.ok; i++)
    {
        std::vector<ref::R> G(n + 1);
        ref::boys(n, (ref::R)x.d[i], G.data());
        (x.d[i] < 36.5 ? lo : hi)++;
        for(int m = 0; m <= n; m++)
        {
            const double w = (double)G[m], err = std::fabs(F[m].d[i] - w);
            // the lowest orders use the asymptotic form from the end of the grid on, which is
            // good to 4e-13 there; everything else is good to a few ulp
            const double tol = n < 4 && x.d[i] > 36 ? 1e-12 : 1e-13;
            if(!(err <= tol * w + 1e-320)) { v.fail(fmt("F_%d(%.17g), asked for orders up to %d, lane %d: computed %.17g, exact %.17g, relative error %.3g", m, x.d[i], n, i, F[m].d[i], w, err / w)); break; }
            if(st && w > 1e-300) st->err(err / w / tol, fmt("F_%d(%.6g) of %d", m, x.d[i], n));
        }
        for(int m = n + 1; m <= n + 2; m++)
            if(F[m].d[i] != -77.25) v.fail(fmt("order %d written although only %d was asked for", m, n));
    }
    boys_parts(c, n, v, st);
    v.nontrivial = true;
    for(double e : c.extra) v.nontrivial = v.nontrivial && e != 0;
    if(st) st->klass(lo && hi ? "lanes on both sides of the grid's end" : lo ? "all lanes on the grid" : "all lanes beyond the grid");
    return v;
}
static Reg r1("boys", gen_boys, chk_boys, "no lane is exactly zero (where the value is trivially 1/(2n+1))");

// ------------------------------------------------------------------ tables
extern "C" double const norm_fac[SHELL_PRIM_NORMFAC_MAXL + 1];
static const int TAB_AM = 18;
// iextra: [table, i, j]
static Case gen_tab(Rng & r, int n)
{
    Case c;
    // exhaustive walk: recursion entries, then grid rows, then the small tables
    const int NR = 1330, NG = 366;
    if(n < NR) c.iextra = {0, n, 0};
    else if(n < NR + NG) c.iextra = {1, n - NR, 0};
    else if(n < NR + NG + 32) c.iextra = {2, n - NR - NG, 0};
    else if(n < NR + NG + 32 + 21) c.iextra = {3, n - NR - NG - 32, 0};
    else if(n < NR + NG + 32 + 21 + TAB_AM + 1) c.iextra = {4, n - NR - NG - 32 - 21, 0};
    else
    {
        // two-step walks through the recursion table
        c.iextra = {5, r.range(0, 16), r.below(100000), r.below(3), r.below(3)};
    }
    return c;
}
static int off(int am) { int s = 0; for(int l = 0; l < am; l++) s += ref::ncart(l); return s; }
static int find_cart(int am, int x, int y, int z)
{
    const auto & l = ref::cart(am);
    for(size_t i = 0; i < l.size(); i++)
        if(l[i][0] == x && l[i][1] == y && l[i][2] == z) return (int)i;
    return -1;
}
static Verdict chk_tab(const Case & c, Stats * st)
{
    Verdict v;
    v.nontrivial = true;
    const int i = c.iextra[1];
    if(c.iextra[0] == 0)
    {
        int am = 0, k = i;
        while(k >= ref::ncart(am)) k -= ref::ncart(am++);
        const RecurInfo & R = recurinfo_array[am_recur_map[am] + k];
        const auto & e = ref::cart(am)[k];
        for(int d = 0; d < 3; d++)
            if(R.ijk[d] != e[d]) v.fail(fmt("entry %d of angular momentum %d has exponents %d %d %d, expected %d %d %d", k, am, R.ijk[0], R.ijk[1], R.ijk[2], e[0], e[1], e[2]));
        if(am > 0)
        {
            if(R.dir < 0 || R.dir > 2 || e[(int)R.dir] == 0) v.fail(fmt("entry %d of angular momentum %d: direction %d has no exponent to lower", k, am, R.dir));
        }
        for(int d = 0; d < 3 && v.ok; d++)
            for(int s = 0; s < 3; s++)
            {
                int f[3] = {e[0], e[1], e[2]};
                f[d] += s == 0 ? -1 : s == 1 ? -2 : 1;
                const int am2 = am + (s == 0 ? -1 : s == 1 ? -2 : 1);
                if(f[d] < 0 || am2 > TAB_AM) continue; // never looked up
                const int want = find_cart(am2, f[0], f[1], f[2]);
                if(R.idx[d][s] != want) v.fail(fmt("entry %d of angular momentum %d: neighbour %d in direction %d is %d, expected %d", k, am, s, d, R.idx[d][s], want));
            }
        if(st) st->klass("recursion entry");
    }
    else if(c.iextra[0] == 1)
    {
        // exact spacing in decimal
        const ref::R x = (ref::R)i / 10;
        std::vector<ref::R> F(BOYS_SHORTGRID_MAXN + 1);
        ref::boys(BOYS_SHORTGRID_MAXN, x, F.data());
        if(i < BOYS_SHORTGRID_NPOINT)
            for(int n = 0; n <= BOYS_SHORTGRID_MAXN; n++)
            {
                const double w = (double)F[n];
                if(!(std::fabs(boys_shortgrid[i][n] - w) <= 3e-16 * w)) v.fail(fmt("grid value F_%d(%g) is %.17g, expected %.17g", n, (double)x, boys_shortgrid[i][n], w));
            }
        if(st) st->klass("grid row");
    }
    else if(c.iextra[0] == 2)
    {
        if(i <= BOYS_LONGFAC_MAXN)
        {
            ref::R f = sqrtl(3.14159265358979323846264338327950288L) / 2;
            for(int n = 1; n <= i; n++) f *= (2 * n - 1) / 2.0L;
            if(!(std::fabs(boys_longfac[i] - (double)f) <= 3e-16 * (double)f)) v.fail(fmt("long-range factor %d is %.17g, expected %.17g", i, boys_longfac[i], (double)f));
        }
        if(st) st->klass("long-range factor");
    }
    else if(c.iextra[0] == 3)
    {
        if(i <= SHELL_PRIM_NORMFAC_MAXL)
        {
            ref::R f = powl(3.14159265358979323846264338327950288L, 1.5L);
            for(int n = 1; n <= i; n++) f *= (2 * n - 1) / 2.0L;
            if(!(std::fabs(norm_fac[i] - (double)f) <= 3e-16 * (double)f)) v.fail(fmt("normalization factor %d is %.17g, expected %.17g", i, norm_fac[i], (double)f));
        }
        if(st) st->klass("normalization factor");
    }
    else if(c.iextra[0] == 4)
    {
        if(am_recur_map[i] != off(i)) v.fail(fmt("angular momentum %d starts at %d, expected %d", i, am_recur_map[i], off(i)));
        if(st) st->klass("start of an angular momentum");
    }
    else
    {
        // raising in d1 then d2 is the same as d2 then d1, and lowering undoes raising
        const int am = i, k = c.iextra[2] % ref::ncart(am), d1 = c.iextra[3], d2 = c.iextra[4];
        auto E = [](int l, int q) -> const RecurInfo & { return recurinfo_array[am_recur_map[l] + q]; };
        const int a = E(am, k).idx[d1][2], b = E(am, k).idx[d2][2];
        if(a < 0 || b < 0 || a >= ref::ncart(am + 1) || b >= ref::ncart(am + 1)) v.fail("raised index out of range");
        else
        {
            if(E(am + 1, a).idx[d2][2] != E(am + 1, b).idx[d1][2]) v.fail(fmt("raising entry %d of angular momentum %d in directions %d and %d depends on the order", k, am, d1, d2));
            if(E(am + 1, a).idx[d1][0] != k) v.fail("lowering does not undo raising");
            const int aa = E(am + 1, a).idx[d1][2];
            if(am + 2 <= TAB_AM && E(am + 2, aa).idx[d1][1] != k) v.fail("lowering by two does not undo raising twice");
        }
        if(st) st->klass("walk");
    }
    return v;
}
static Reg r2("tables", gen_tab, chk_tab, "every case looks at table entries that the recursions read", false);

// ------------------------------------------------------------------ vector primitives
// iextra: [ncart, offsets...]; extra: operands
static Case gen_simd(Rng & r, int n)
{
    (void)n;
    Case c;
    c.iextra.push_back(r.chance(0.5) ? r.range(1, 20) : r.range(1, 130));
    int o = 0;
    for(int i = 0; i < V; i++)
    {
        if(i && r.chance(0.5)) o++;
        c.iextra.push_back(o);
    }
    c.iextra.push_back(r.range(0, V)); // nlane
    const int wild = r.below(4);
    for(int i = 0; i < 3 * V; i++)
    {
        double x = r.uni(-4, 4);
        if(wild == 1) x = r.logu(-30, 30) * (r.chance(0.5) ? -1 : 1);
        if(wild == 2) x = r.range(-3, 3);
        c.extra.push_back(x);
    }
    c.extra.push_back(r.uni(-2, 2));
    c.iextra.push_back((int)(r.next() & 0xffffff));
    return c;
}
static Verdict chk_simd(const Case & c, Stats * st)
{
    Verdict v;
    if((int)c.extra.size() < 3 * V + 1 || (int)c.iextra.size() < V + 3) return v;
    const int ncart = c.iextra[0];
    int offs[SIMINT_SIMD_LEN];
    for(int i = 0; i < V; i++) offs[i] = c.iextra[1 + i];
    const int nlane = c.iextra[1 + V];
    Rng r(c.iextra[2 + V]);
    Vec a, b, d, q;
    for(int i = 0; i < V; i++) { a.d[i] = c.extra[i]; b.d[i] = c.extra[V + i]; d.d[i] = c.extra[2 * V + i]; }
    auto near = [](double x, double y, double scale) { return std::fabs(x - y) <= 4e-16 * scale + 1e-300 || (x != x && y != y) || x == y; };
    auto chk = [&](const char * nm, const Vec & got, auto f, auto scale) {
        for(int i = 0; i < V; i++)
        {
            const double w = f(i);
            if(!near(got.d[i], w, scale(i))) v.fail(fmt("%s lane %d: %.17g, expected %.17g (operands %.17g %.17g %.17g)", nm, i, got.d[i], w, a.d[i], b.d[i], d.d[i]));
        }
    };
    auto exact = [](int) { return 0.0; };
    auto fms = [&](int i) { return std::fabs(a.d[i] * b.d[i]) + std::fabs(d.d[i]); };
    q.v = SIMINT_ADD(a.v, b.v); chk("add", q, [&](int i) { return a.d[i] + b.d[i]; }, exact);
    q.v = SIMINT_SUB(a.v, b.v); chk("sub", q, [&](int i) { return a.d[i] - b.d[i]; }, exact);
    q.v = SIMINT_MUL(a.v, b.v); chk("mul", q, [&](int i) { return a.d[i] * b.d[i]; }, exact);
    q.v = SIMINT_NEG(a.v); chk("neg", q, [&](int i) { return -a.d[i]; }, exact);
    q.v = SIMINT_FMADD(a.v, b.v, d.v); chk("fmadd", q, [&](int i) { return std::fma(a.d[i], b.d[i], d.d[i]); }, fms);
    q.v = SIMINT_FMSUB(a.v, b.v, d.v); chk("fmsub", q, [&](int i) { return std::fma(a.d[i], b.d[i], -d.d[i]); }, fms);
    q.v = SIMINT_DBLSET1(a.d[0]); chk("set1", q, [&](int) { return a.d[0]; }, exact);
    {
        Vec p, e, w;
        for(int i = 0; i < V; i++) { p.d[i] = std::fabs(a.d[i]) + 1e-30; e.d[i] = -std::min(std::fabs(b.d[i]), 700.0); w.d[i] = std::max(-12.0, std::min(12.0, d.d[i])); }
        q.v = SIMINT_SQRT(p.v); chk("sqrt", q, [&](int i) { return std::sqrt(p.d[i]); }, exact);
        q.v = SIMINT_DIV(a.v, p.v); chk("div", q, [&](int i) { return a.d[i] / p.d[i]; }, exact);
        q.v = SIMINT_EXP(e.v); chk("exp", q, [&](int i) { return std::exp(e.d[i]); }, [&](int i) { return 5 * std::exp(e.d[i]); });
        for(int i = 0; i < V; i++) p.d[i] = std::max(1e-8, std::min(1e8, p.d[i]));
        q.v = SIMINT_POW(p.v, w.v); chk("pow", q, [&](int i) { return std::pow(p.d[i], w.d[i]); }, [&](int i) { return 10 * std::pow(p.d[i], w.d[i]); });
    }
    // loads
    {
        double * m = (double *)aligned_alloc(64, 64 * sizeof(double));
        for(int i = 0; i < 64; i++) m[i] = r.uni(-1, 1);
        const int at = V * r.below(64 / V);
        q.v = SIMINT_DBLLOAD(m, at); chk("load", q, [&](int i) { return m[at + i]; }, exact);
        std::vector<double> keep(m, m + 64);
        q.v = mask_load(nlane, m + at); chk("masked load", q, [&](int i) { return i < nlane ? m[at + i] : 0.0; }, exact);
        if(memcmp(keep.data(), m, 64 * 8)) v.fail("a load changed memory");
        free(m);
    }
    // the maximum is taken of screening values, which are never negative
    Vec ab;
    for(int i = 0; i < V; i++) ab.d[i] = std::fabs(a.d[i]);
    double mn = a.d[0], mx = ab.d[0];
    for(int i = 1; i < V; i++) { mn = std::min(mn, a.d[i]); mx = std::max(mx, ab.d[i]); }
    if(vector_min(a.v) != mn) v.fail(fmt("vector_min %.17g, expected %.17g", vector_min(a.v), mn));
    if(vector_max(ab.v) != mx) v.fail(fmt("vector_max %.17g, expected %.17g", vector_max(ab.v), mx));
    // contractions
    const int ndest = ncart * (offs[V - 1] + 1);
    Guarded src((size_t)ncart * V);
    for(int i = 0; i < ncart * V; i++) src.p[i] = r.uni(-1, 1);
    Vec f;
    for(int i = 0; i < V; i++) f.d[i] = c.extra[3 * V];
    const int shift = r.below(8); // the destination has no particular alignment
    for(int mode = 0; mode < 4 && v.ok; mode++)
    {
        Guarded dst(ndest + 8);
        std::vector<double> want(ndest + 8), mag(ndest + 8);
        for(int i = 0; i < ndest + 8; i++) { dst.p[i] = want[i] = r.uni(-1, 1); mag[i] = std::fabs(want[i]); }
        double * D = dst.p + shift;
        const bool all = mode & 1, fac = mode & 2;
        for(int i = 0; i < V; i++)
            for(int k = 0; k < ncart; k++)
            {
                const double t = src.p[k * V + i] * (fac ? f.d[i] : 1);
                want[shift + (all ? 0 : offs[i]) * ncart + k] += t;
                mag[shift + (all ? 0 : offs[i]) * ncart + k] += std::fabs(t);
            }
        const SIMINT_DBLTYPE * S = (const SIMINT_DBLTYPE *)src.p;
        if(mode == 0) contract(ncart, offs, S, D);
        else if(mode == 1) contract_all(ncart, S, D);
        else if(mode == 2) contract_fac(ncart, f.v, offs, S, D);
        else contract_all_fac(ncart, f.v, S, D);
        if(dst.touched()) v.fail("a contraction wrote outside its destination");
        for(int i = 0; i < ndest + 8; i++)
            if(!(std::fabs(dst.p[i] - want[i]) <= 1e-14 * mag[i]))
                v.fail(fmt("contraction mode %d, %d components, element %d: %.17g, expected %.17g", mode, ncart, i - shift, dst.p[i], want[i]));
    }
    v.nontrivial = ncart > 1;
    if(st) st->klass(ncart >= 8 ? "eight or more components" : "fewer than eight components");
    return v;
}
static Reg r3("simd", gen_simd, chk_simd, "contractions with more than one component");
