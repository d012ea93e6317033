// One-electron integrals.
#include "eri_util.hpp"

static int l_hi() { return g_thorough ? 10 : 8; }
static Case gen_pair(Rng & r, int n, int lmax)
{
    Case c;
    const int N = lmax + 1;
    const int k = n < N * N ? n : r.below(N * N);
    GenOpt g;
    g.maxprim = k % N + k / N > 8 ? 2 : 4;
    g.longprim = 12;
    g.loexp = r.chance(0.05) ? -4 : r.chance(0.3) ? -2.5 : -1.2;
    g.hiexp = r.chance(0.08) ? 8.5 : r.chance(0.3) ? 5 : 2;
    const int style = gen_style(r);
    c.pool.push_back(gen_shell(r, k % N, style, g));
    if(k % N == k / N && r.chance(0.3)) c.pool.push_back(c.pool[0]);
    else c.pool.push_back(gen_shell(r, k / N, style, g));
    return c;
}
static bool cmp(const Guarded & g, const ref::Out & o, double tol, Verdict & v, Stats * st, const std::string & w)
{
    if(g.touched()) { v.fail(w + ": wrote outside the result buffer"); return false; }
    for(size_t k = 0; k < o.v.size(); k++)
    {
        const double m = (double)o.m[k], r = (double)o.v[k], err = std::fabs(g.p[k] - r);
        if(!(err <= tol * m + TINY))
        {
            v.fail(fmt("%s element %zu: computed %.17g, exact %.17g, error %.3g = %.3g of the term magnitude", w.c_str(), k, g.p[k], r, err, err / m));
            return false;
        }
        if(st && m > 1e-200) st->err(err / m / tol, w);
        if(std::fabs(r) > 1e-6 * m && m > 1e-100) v.nontrivial = true;
    }
    return true;
}
static void both(const Case & c, int which, Verdict & v, Stats * st)
{
    if(c.pool.size() < 2) return;
    SShells s(c.pool);
    const std::vector<simint_shell> before = s.v;
    const ref::Shell A = c.pool[0].toref(), B = c.pool[1].toref();
    const size_t n = (size_t)ref::ncart(A.am) * ref::ncart(B.am);
    for(int pass = 0; pass < 2 && v.ok; pass++)
    {
        Guarded g(n, pass ? 0x4059000000000000ULL : 0x7ff8dead0000beefULL);
        ref::Out o;
        const bool t = which == 1;
        const int ret = t ? simint_compute_ke(&s.v[0], &s.v[1], g.p) : simint_compute_overlap(&s.v[0], &s.v[1], g.p);
        if(ret != 1) v.fail(fmt("returned %d", ret));
        if(t) ref::kinetic(A, B, o);
        else ref::overlap(A, B, o);
        cmp(g, o, g_tol, v, st, fmt("%s (%d|%d)", t ? "kinetic energy" : "overlap", A.am, B.am));
    }
    for(size_t i = 0; i < 2; i++)
    {
        if(memcmp(&s.v[i], &before[i], sizeof(simint_shell))) v.fail("a shell changed");
        for(size_t k = 0; k < c.pool[i].a.size(); k++)
            if(s.v[i].alpha[k] != c.pool[i].a[k] || s.v[i].coef[k] != c.pool[i].c[k]) v.fail("a shell's data changed");
    }
}
static Verdict chk_overlap(const Case & c, Stats * st)
{
    Verdict v;
    both(c, 0, v, st);
    both(c, 1, v, st);
    if(st) st->klass(fmt("(%d|%d)", c.pool[0].am, c.pool[1].am));
    return v;
}
static Reg r1("overlap", [](Rng & r, int n) { return gen_pair(r, n, l_hi()); }, chk_overlap,
              "an overlap or kinetic-energy integral above 1e-6 of its sum of absolute terms");

static Case gen_pot(Rng & r, int n)
{
    Case c = gen_pair(r, n, 7);
    if(n >= 64 && r.chance(0.04))
    {
        // higher than what four-centre code is generated for
        const int hi = r.range(8, 9), lo = r.below(4), w = r.below(2);
        GenOpt g;
        g.maxprim = 2;
        const int style = gen_style(r);
        c.pool = {gen_shell(r, w ? hi : lo, style, g), gen_shell(r, w ? lo : hi, style, g)};
    }
    const int nc = r.chance(0.03) ? 0 : r.chance(0.03) ? r.range(5, r.chance(0.1) ? 400 : 40) : r.range(1, 4);
    const bool far = r.chance(0.1);                      // all of them far away
    for(int i = 0; i < nc; i++)
    {
        double x[3];
        const int k = far ? 6 : r.below(6);
        if(k == 6)
        {
            const double s = r.logu(1.3, 6);
            for(int d = 0; d < 3; d++) x[d] = s * r.uni(-1, 1);
        }
        else if(k == 0) for(int d = 0; d < 3; d++) x[d] = c.pool[0].x[d];
        else if(k == 1) for(int d = 0; d < 3; d++) x[d] = c.pool[1].x[d];
        else if(k == 2) for(int d = 0; d < 3; d++) x[d] = r.uni(-20, 20);
        else if(k == 3) for(int d = 0; d < 3; d++) x[d] = c.pool[0].x[d] + r.uni(-1e-6, 1e-6);
        else for(int d = 0; d < 3; d++) x[d] = r.uni(-3, 3);
        c.extra.push_back(r.chance(0.2) ? -r.uni(0, 10) : r.chance(0.1) ? r.logu(-6, 4) * (r.chance(0.5) ? -1 : 1) : r.range(0, 40));
        for(int d = 0; d < 3; d++) c.extra.push_back(x[d]);
    }
    return c;
}
static Verdict chk_pot(const Case & c, Stats * st)
{
    Verdict v;
    if(c.pool.size() < 2) return v;
    SShells s(c.pool);
    const ref::Shell A = c.pool[0].toref(), B = c.pool[1].toref();
    const size_t n = (size_t)ref::ncart(A.am) * ref::ncart(B.am);
    const int nc = (int)c.extra.size() / 4;
    std::vector<double> Z(nc + 1), x(nc + 1), y(nc + 1), z(nc + 1);
    for(int i = 0; i < nc; i++) { Z[i] = c.extra[4 * i]; x[i] = c.extra[4 * i + 1]; y[i] = c.extra[4 * i + 2]; z[i] = c.extra[4 * i + 3]; }
    auto Z0 = Z, x0 = x, y0 = y, z0 = z;
    ref::Out o;
    ref::potential(nc, Z.data(), x.data(), y.data(), z.data(), A, B, o);
    for(int pass = 0; pass < 2 && v.ok; pass++)
    {
        Guarded g(n, pass ? 0x4059000000000000ULL : 0x7ff8dead0000beefULL);
        const int ret = simint_compute_potential(nc, Z.data(), x.data(), y.data(), z.data(), &s.v[0], &s.v[1], g.p);
        if(ret != 1) v.fail(fmt("returned %d", ret));
        cmp(g, o, g_tol, v, st, fmt("potential (%d|%d) of %d centres", A.am, B.am, nc));
    }
    if(Z != Z0 || x != x0 || y != y0 || z != z0) v.fail("the charges or their positions changed");
    if(st) st->klass(fmt("(%d|%d)", c.pool[0].am, c.pool[1].am));
    return v;
}
static Reg r2("potential", gen_pot, chk_pot, "a potential integral above 1e-6 of its sum of absolute terms");
