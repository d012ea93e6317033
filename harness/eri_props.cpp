// Properties of the integral entry points: values, derivatives, batching,
// screening, purity, symmetries, threads.
#include "eri_util.hpp"
#include "simint/shell/shell_screen.h"
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <thread>
#include <atomic>

static void need(bool b, const char * m)
{
    if(!b) { fprintf(stderr, "%s\n", m); exit(3); }
}

// ------------------------------------------------------------------ values
static long g_walk = 0; // steps taken in the walk over all quartets
static Case gen_quartet(Rng & r, int n, int deriv)
{
    Case c;
    c.deriv = deriv;
    const int L = g_maxam, lo = g_minam;
    int am[4];
    // walk through every quartet first, then at random
    const int nq = g_quartets.empty() ? (L + 1) * (L + 1) * (L + 1) * (L + 1) : (int)g_quartets.size();
    int k;
    do
    {
        const long w = (long)g_walk * g_nshard + g_shard;
        k = w < nq ? (int)((w * 7919 + 13) % nq) : r.below(nq); // 7919 is prime and larger than any factor of nq
        g_walk++;
        if(!g_quartets.empty())
            for(int i = 0; i < 4; i++) am[i] = g_quartets[k][i] - '0';
        else
            for(int i = 0, kk = k; i < 4; i++) { am[i] = kk % (L + 1); kk /= (L + 1); }
    } while(std::max(std::max(am[0], am[1]), std::max(am[2], am[3])) < lo);
    (void)n;
    const int style = gen_style(r);
    int tot = am[0] + am[1] + am[2] + am[3];
    GenOpt g;
    g.maxprim = tot + deriv > 9 ? 1 : tot + deriv > 6 ? 2 : 3;
    g.loexp = r.chance(0.04) ? -4 : r.chance(0.3) ? -2.5 : -1.2;
    g.hiexp = r.chance(0.2) ? 4.5 : 1.8;
    if((style == 0 || style == 1 || style == 4 || style == 5) && r.chance(0.06)) g.hiexp = 8;
    if(tot + deriv <= 4) { g.longprim = tot + deriv <= 2 ? 12 : 8; g.plong = 0.015; }
    const int nb = tot > 6 ? 1 : r.range(1, 2), nk = tot > 9 ? 1 : tot > 6 ? r.range(1, 2) : r.range(1, 4);
    std::vector<int> a[4];
    for(int i = 0; i < 4; i++)
    {
        const int cnt = i < 2 ? nb : nk;
        for(int q = 0; q < cnt; q++)
        {
            // the same shell object on both sides of a pair is stored in triangular form
            if((i & 1) && am[i] == am[i - 1] && r.chance(0.3)) { a[i].push_back(a[i - 1][q]); continue; }
            const bool near = (i & 1) && am[i] == am[i - 1] && r.chance(0.2);
            a[i].push_back((int)c.pool.size());
            c.pool.push_back(near ? near_copy(r, HShell(c.pool[a[i - 1][q]])) : gen_shell(r, am[i], style, g));
        }
    }
    for(int q = 0; q < nb; q++) c.bra.push_back({a[0][q], a[1][q]});
    for(int q = 0; q < nk; q++) c.ket.push_back({a[2][q], a[3][q]});
    return c;
}
static Verdict chk_ref(const Case & c, Stats * st)
{
    Verdict v;
    SShells s(c.pool);
    SPair P(s, c.bra, c.scrP), Q(s, c.ket, c.scrQ);
    Run r = run_pairs(c, &P.P, &Q.P, 0.0);
    const int nab = (int)c.bra.size(), ncd = (int)c.ket.size(), per = per_of(c);
    if(r.ret != nab * ncd) v.fail(fmt("returned %d for %d shell quartets", r.ret, nab * ncd));
    guards_ok(r, v);
    ref::Out o;
    for(int ab = 0; ab < nab && v.ok; ab++)
        for(int cd = 0; cd < ncd && v.ok; cd++)
        {
            ref_block(c, c.bra[ab], c.ket[cd], o);
            block_vs_ref(&r.v[((size_t)ab * ncd + cd) * per], o, g_tol, 0, v, st, fmt("%s d%d bra %d ket %d", am4(c).c_str(), c.deriv, ab, cd));
        }
    if(st) st->klass(am4(c));
    return v;
}
static Reg r1("eri", [](Rng & r, int n) { return gen_quartet(r, n, 0); }, chk_ref,
              "at least one integral of the batch is larger than 1e-6 of its own sum of absolute terms (not a symmetry zero or underflow)");
static Case gen_quartet_d(Rng & r, int n) { need(SIMINT_OSTEI_MAXDER > 0, "library without derivatives"); return gen_quartet(r, n, 1); }
static Reg r2("deriv", gen_quartet_d, chk_ref,
              "at least one derivative of the batch is larger than 1e-6 of its own sum of absolute terms");

// Zero shells: two- and three-index integrals.
static Reg r3("zeroshell",
              [](Rng & r, int n) {
                  (void)n;
                  const int deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.4)) ? 1 : 0;
                  Case c;
                  c.deriv = deriv;
                  const int style = gen_style(r);
                  int L = std::min(g_maxam, 3);
                  int am[4], z = r.below(8);
                  for(int i = 0; i < 4; i++) am[i] = r.range(0, L);
                  // z: which centres are dummies, never both of one pair
                  bool zb[4] = {false, false, false, false};
                  if(z & 1) zb[(z & 2) ? 1 : 0] = true;
                  if(z & 4 || !(z & 1)) zb[r.chance(0.5) ? 2 : 3] = true;
                  GenOpt g;
                  g.maxprim = 3;
                  g.longprim = 9;
                  const int nb = r.range(1, 3), nk = r.range(1, 9);
                  for(int i = 0; i < 4; i++)
                      if(zb[i]) am[i] = 0;
                  for(int side = 0; side < 2; side++)
                      for(int q = 0; q < (side ? nk : nb); q++)
                      {
                          int id[2];
                          for(int k = 0; k < 2; k++)
                          {
                              id[k] = (int)c.pool.size();
                              HShell h;
                              if(zb[2 * side + k]) { h.zero = true; h.a = {0.0}; h.c = {1.0}; }
                              else h = gen_shell(r, am[2 * side + k], style, g);
                              c.pool.push_back(h);
                          }
                          (side ? c.ket : c.bra).push_back({id[0], id[1]});
                      }
                  return c;
              },
              chk_ref, "at least one two- or three-index integral larger than 1e-6 of its sum of absolute terms");

// ------------------------------------------------------------------ batching
static Case gen_batch(Rng & r, int n)
{
    (void)n;
    Case c;
    c.deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.3)) ? 1 : 0;
    const int W = SIMINT_NSHELL_SIMD;
    const int L = std::min(g_maxam, 3);
    int am[4], tot;
    do
    {
        tot = 0;
        for(int i = 0; i < 4; i++) { am[i] = r.range(0, L); tot += am[i]; }
    } while(tot + c.deriv > 5);
    const int style = gen_style(r);
    GenOpt g;
    g.maxprim = tot > 3 ? 2 : 4;
    if(tot + c.deriv <= 2) g.longprim = 10;
    const int np = r.range(1, 3), nq = r.range(1, 4);
    std::vector<IPair> pb, pk;
    for(int side = 0; side < 2; side++)
        for(int q = 0; q < (side ? nq : np); q++)
        {
            int i = (int)c.pool.size();
            c.pool.push_back(gen_shell(r, am[2 * side], style, g));
            if(am[2 * side] == am[2 * side + 1] && r.chance(0.4)) (side ? pk : pb).push_back({i, i});
            else
            {
                c.pool.push_back(am[2 * side] == am[2 * side + 1] && r.chance(0.2) ? near_copy(r, HShell(c.pool[i])) : gen_shell(r, am[2 * side + 1], style, g));
                (side ? pk : pb).push_back({i, i + 1});
            }
        }
    auto size = [&](int cap) {
        int k = r.below(6), v;
        if(k == 0) v = r.range(1, 3);
        else if(k == 1) v = W + r.range(-1, 1);
        else if(k == 2) v = 2 * W + r.range(-1, 1);
        else if(k == 3) v = r.range(1, 3 * W + 2);
        else v = r.range(1, W);
        return std::max(1, std::min(v, cap));
    };
    int nb = size(50), nk = size(50);
    if(r.chance(0.05)) // many pairs on one side
    {
        (r.chance(0.5) ? nb : nk) = r.range(51, tot > 3 ? 150 : 400);
        (nb > nk ? nk : nb) = r.range(1, 3);
    }
    for(int i = 0; i < nb; i++) c.bra.push_back(r.pick(pb));
    for(int i = 0; i < nk; i++) c.ket.push_back(r.pick(pk));
    if(r.chance(0.5)) c.clipP = r.chance(0.04) ? 0 : r.range(1, nb);
    if(r.chance(0.6)) c.clipQ = r.chance(0.04) ? 0 : r.range(1, nk);
    if(r.chance(0.25)) c.scrP = 1 + r.below(2);
    if(r.chance(0.25)) c.scrQ = 1 + r.below(2);
    return c;
}
static Verdict chk_batch(const Case & c, Stats * st)
{
    Verdict v;
    SShells s(c.pool);
    SPair P(s, c.bra, c.scrP), Q(s, c.ket, c.scrQ);
    if(c.clipP >= 0) P.P.nshell12_clip = c.clipP;
    if(c.clipQ >= 0) Q.P.nshell12_clip = c.clipQ;
    const int nab = P.P.nshell12_clip, ncd = Q.P.nshell12_clip, per = per_of(c);
    Run r = run_pairs(c, &P.P, &Q.P, 0.0);
    if(r.ret != nab * ncd) v.fail(fmt("returned %d for %d shell quartets", r.ret, nab * ncd));
    guards_ok(r, v);
    RefCache rc(c);
    for(int ab = 0; ab < nab && v.ok; ab++)
        for(int cd = 0; cd < ncd && v.ok; cd++)
            block_vs_ref(&r.v[((size_t)ab * ncd + cd) * per], rc.get(ab, cd), g_tol, 0, v, st,
                         fmt("%s d%d batch %dx%d (of %zux%zu) bra %d ket %d", am4(c).c_str(), c.deriv, nab, ncd, c.bra.size(), c.ket.size(), ab, cd));
    v.nontrivial = v.nontrivial && (nab > 1 || ncd > 1);
    if(st)
    {
        if(nab > SIMINT_NSHELL_SIMD) st->klass("bra beyond one shell batch");
        if(ncd > SIMINT_NSHELL_SIMD) st->klass("ket beyond one shell batch");
        if(c.clipP >= 0 && c.clipP < (int)c.bra.size()) st->klass("bra clipped");
        if(c.clipQ >= 0 && c.clipQ < (int)c.ket.size()) st->klass("ket clipped");
        st->klass(c.deriv ? "derivative" : "value");
    }
    return v;
}
static Reg r4("batch", gen_batch, chk_batch, "more than one shell quartet and at least one integral above 1e-6 of its sum of absolute terms");

// Very large sets, of a few distinct pairs in a random order: iextra = {pairs in the bra, pairs in the ket, seed}
static Case gen_huge(Rng & r, int n)
{
    (void)n;
    Case c;
    c.deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.4)) ? 1 : 0;
    int am[4] = {0, 0, 0, 0};
    const int tot = c.deriv ? r.range(1, 2) : r.range(1, 3);
    for(int i = 0; i < tot; i++) am[r.below(4)]++;
    if(!c.deriv && g_maxam >= 2 && r.chance(0.4)) // a permuted kernel with a horizontal recurrence
    {
        const bool bra = r.chance(0.5);
        for(int i = 0; i < 4; i++) am[i] = (i < 2) == bra ? (i & 1) + 1 : 0;
    }
    for(int i = 0; i < 4; i++) am[i] = std::min(am[i], g_maxam);
    const int style = gen_style(r);
    GenOpt g;
    g.maxprim = 2;
    for(int side = 0; side < 2; side++)
        for(int q = 0; q < 3; q++)
        {
            const int i = (int)c.pool.size();
            c.pool.push_back(gen_shell(r, am[2 * side], style, g));
            c.pool.push_back(gen_shell(r, am[2 * side + 1], style, g));
            (side ? c.ket : c.bra).push_back({i, i + 1});
        }
    const int sum = am[0] + am[1] + am[2] + am[3], big = r.range(200000, sum > 2 || (c.deriv && sum > 1) ? 250000 : c.deriv ? 420000 : 700000), few = r.range(1, 2);
    const bool bra = r.chance(0.4);
    c.iextra = {bra ? big : few, bra ? few : big, r.below(1000000)};
    return c;
}
static Verdict chk_huge(const Case & c, Stats * st)
{
    Verdict v;
    if(c.iextra.size() < 3 || c.bra.empty() || c.ket.empty()) return v;
    SShells s(c.pool);
    Rng r((uint64_t)c.iextra[2]);
    std::vector<int> pick[2];
    for(int side = 0; side < 2; side++)
        for(int i = 0; i < std::max(1, c.iextra[side]); i++) pick[side].push_back(r.below((int)(side ? c.ket : c.bra).size()));
    auto pairs = [&](int side) {
        std::vector<IPair> l;
        for(int k : pick[side]) l.push_back((side ? c.ket : c.bra)[k]);
        return l;
    };
    SPair P(s, pairs(0), 0), Q(s, pairs(1), 0);
    const size_t nab = pick[0].size(), ncd = pick[1].size(), per = per_of(c);
    std::vector<double> out(nab * ncd * per, NAN);
    Guarded work(simint_eri_worksize(c.deriv, maxam_of(c)));
    const int ret = call_eri(c.deriv, &P.P, &Q.P, 0.0, work.p, out.data());
    if(ret != (int)(nab * ncd)) v.fail(fmt("returned %d for %zu shell quartets", ret, nab * ncd));
    if(work.touched()) v.fail("wrote outside the advertised workspace");
    RefCache rc(c);
    for(size_t ab = 0; ab < nab && v.ok; ab++)
        for(size_t cd = 0; cd < ncd && v.ok; cd++)
        {
            const ref::Out & o = rc.get(pick[0][ab], pick[1][cd]);
            const double * g = &out[(ab * ncd + cd) * per];
            for(size_t k = 0; k < per; k++)
                if(!(std::fabs(g[k] - (double)o.v[k]) <= g_tol * (double)o.m[k] + TINY))
                {
                    v.fail(fmt("%s d%d, %zu pairs by %zu pairs, bra %zu ket %zu element %zu: computed %.17g, exact %.17g", am4(c).c_str(), c.deriv, nab, ncd, ab, cd, k, g[k], (double)o.v[k]));
                    break;
                }
        }
    v.nontrivial = true;
    if(st) st->klass(fmt("very large %s", nab > ncd ? "bra" : "ket"));
    return v;
}
static Reg r4h("huge", gen_huge, chk_huge, "at least 200000 pairs in one set");

// ------------------------------------------------------------------ screening
static Case gen_screen(Rng & r, int n)
{
    (void)n;
    Case c;
    c.deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.4)) ? 1 : 0;
    const int W = SIMINT_NSHELL_SIMD;
    const int L = std::min(g_maxam, 2);
    const bool fast = r.chance(0.3), small = c.deriv || (fast && r.chance(0.6));
    int am[4], tot;
    do
    {
        tot = 0;
        for(int i = 0; i < 4; i++) { am[i] = fast && !small ? 0 : r.range(0, L); tot += am[i]; }
    } while(tot > (small ? 3 : 5));
    int style = r.chance(0.6) ? 3 : gen_style(r);
    GenOpt g;
    g.maxprim = small ? 3 : tot > 3 ? 4 : 6;
    if(tot <= 2) g.longprim = 12;
    g.hiexp = r.chance(0.5) ? 1.5 : 4;
    const int np = r.range(1, 2), nq = r.range(1, 3);
    std::vector<IPair> pb, pk;
    for(int side = 0; side < 2; side++)
        for(int q = 0; q < (side ? nq : np); q++)
        {
            int i = (int)c.pool.size();
            c.pool.push_back(gen_shell(r, am[2 * side], style, g));
            if(am[2 * side] == am[2 * side + 1] && r.chance(0.3)) (side ? pk : pb).push_back({i, i});
            else
            {
                c.pool.push_back(am[2 * side] == am[2 * side + 1] && r.chance(0.2) ? near_copy(r, HShell(c.pool[i])) : gen_shell(r, am[2 * side + 1], style, g));
                (side ? pk : pb).push_back({i, i + 1});
            }
        }
    // contraction coefficients that spread over many decades make screening bite
    for(auto & h : c.pool)
        for(auto & x : h.c)
            if(r.chance(0.5)) x *= r.logu(-6, 1);
    const int nb = r.chance(0.5) ? r.range(1, 3) : r.range(1, 2 * W + 1), nk = r.chance(0.5) ? r.range(1, 4) : r.range(1, 2 * W + 1);
    for(int i = 0; i < std::min(nb, 20); i++) c.bra.push_back(r.pick(pb));
    for(int i = 0; i < std::min(nk, 20); i++) c.ket.push_back(r.pick(pk));
    c.scrP = c.scrQ = fast ? 2 : 1;
    c.tol = r.chance(0.15) ? 0 : r.logu(-13, -2);
    if(r.chance(0.3)) c.clipP = r.range(1, (int)c.bra.size());
    if(r.chance(0.3)) c.clipQ = r.range(1, (int)c.ket.size());
    c.iextra = {r.below(2)}; // 1: screen_max lowered to its documented value, the largest entry
    return c;
}

// documented screening value of one primitive pair
static double prim_screen_ref(const HShell & A, const HShell & B, size_t i, size_t j, int method, double & maj)
{
    ref::Shell a = A.toref(), b = B.toref();
    a.a = {a.a[i]}; a.c = {a.c[i]};
    b.a = {b.a[j]}; b.c = {b.c[j]};
    if(method == 2) { a.am = 0; b.am = 0; }
    ref::Out o;
    ref::eri(a, b, a, b, o);
    const int n1 = ref::ncart(a.am), n2 = ref::ncart(b.am), n12 = n1 * n2;
    double best = 0;
    maj = 0;
    for(int m = 0; m < n12; m++)
    {
        best = std::max(best, std::fabs((double)o.v[(size_t)m * n12 + m]));
        maj = std::max(maj, (double)o.m[(size_t)m * n12 + m]);
    }
    return best;
}

struct Row
{
    double x, y, z, ax, ay, az, bx, by, bz, al, pf;
    double a2 = 0, b2 = 0;
    bool operator<(const Row & o) const { return memcmp(this, &o, sizeof(Row)) < 0; }
    bool operator==(const Row & o) const { return memcmp(this, &o, sizeof(Row)) == 0; }
};
static Row row_of(const simint_multi_shellpair & P, int i)
{
    Row r;
    memset((void *)&r, 0, sizeof r);
    r.x = P.x[i]; r.y = P.y[i]; r.z = P.z[i];
    r.ax = P.PA_x[i]; r.ay = P.PA_y[i]; r.az = P.PA_z[i];
    r.bx = P.PB_x[i]; r.by = P.PB_y[i]; r.bz = P.PB_z[i];
    r.al = P.alpha[i]; r.pf = P.prefac[i];
#if SIMINT_OSTEI_MAXDER > 0
    r.a2 = P.alpha2[i]; r.b2 = P.beta2[i];
#endif
    return r;
}

// The screening data of a created pair set: every entry is the value of its
// own primitive pair, entries descend within a shell pair, no shell pair's
// data has been overwritten, and rows are those of the unscreened pair set.
static void check_screen_data(const Case & c, const std::vector<IPair> & pr, const simint_multi_shellpair & S,
                              const simint_multi_shellpair & U, int method, Verdict & v, const char * side)
{
    int idx = 0;
    for(int ab = 0; ab < (int)pr.size() && v.ok; ab++)
    {
        const HShell & A = c.pool[pr[ab].first];
        const HShell & B = c.pool[pr[ab].second];
        const bool same = pr[ab].first == pr[ab].second;
        const int n = S.nprim12[ab];
        const int expect = same ? (int)(A.a.size() * (A.a.size() + 1) / 2) : (int)(A.a.size() * B.a.size());
        if(n != expect || U.nprim12[ab] != expect) { v.fail(fmt("%s pair %d: %d primitives, expected %d", side, ab, n, expect)); return; }
        std::vector<double> want, maj;
        for(size_t i = 0; i < A.a.size(); i++)
            for(size_t j = 0; j < (same ? i + 1 : B.a.size()); j++)
            {
                double m;
                want.push_back(prim_screen_ref(A, B, i, j, method, m));
                maj.push_back(m);
            }
        std::vector<Row> rs, ru;
        for(int k = 0; k < n; k++)
        {
            rs.push_back(row_of(S, idx + k));
            ru.push_back(row_of(U, idx + k));
            if(k && !(S.screen[idx + k] <= S.screen[idx + k - 1]))
                v.fail(fmt("%s pair %d: screening values not descending at %d: %g then %g", side, ab, k, S.screen[idx + k - 1], S.screen[idx + k]));
            if(!(S.screen_max >= S.screen[idx + k])) v.fail(fmt("%s: screen_max %g below an entry %g", side, S.screen_max, S.screen[idx + k]));
        }
        // match each row of the screened set with a row of the unscreened one carrying the right value
        std::vector<char> used(n, 0);
        for(int k = 0; k < n && v.ok; k++)
        {
            int hit = -1;
            bool row = false;
            for(int u = 0; u < n && hit < 0; u++)
                if(!used[u] && ru[u] == rs[k])
                {
                    row = true;
                    if(std::fabs(S.screen[idx + k] - want[u]) <= 1e-11 * maj[u] + 1e-290) hit = u;
                }
            if(hit >= 0) used[hit] = 1;
            else if(!row) v.fail(fmt("%s pair %d: sorted primitive %d is not one of the pair's primitives", side, ab, k));
            else v.fail(fmt("%s pair %d primitive %d: screening value %.17g is not that of its primitive pair", side, ab, k, S.screen[idx + k]));
        }
        idx += n;
        if(((ab + 1) % SIMINT_NSHELL_SIMD) == 0 || ab + 1 == (int)pr.size())
            for(; idx < SIMINT_SIMD_ROUND(idx) && v.ok; idx++)
                if(S.screen[idx] != 0.0 || S.prefac[idx] != 0.0) v.fail(fmt("%s: padding slot %d has screening value %g, prefactor %g", side, idx, S.screen[idx], S.prefac[idx]));
    }
}
// The shell and primitive screening values asked for directly.
static void check_screen_calls(const Case & c, IPair ab, const SShells & s, Verdict & v)
{
    const HShell & A = c.pool[ab.first];
    const HShell & B = c.pool[ab.second];
    const bool same = ab.first == ab.second;
    const std::string w = fmt("pair of l = %d and %d, %zu and %zu primitives%s", A.am, B.am, A.a.size(), B.a.size(), same ? ", the same shell" : "");
    // largest self-repulsion of the contracted products
    ref::Out o;
    const ref::Shell a = A.toref(), b = B.toref();
    ref::eri(a, b, a, b, o);
    const int n12 = ref::ncart(A.am) * ref::ncart(B.am);
    double best = 0, maj = 0;
    for(int m = 0; m < n12; m++)
    {
        best = std::max(best, std::fabs((double)o.v[(size_t)m * n12 + m]));
        maj = std::max(maj, (double)o.m[(size_t)m * n12 + m]);
    }
    for(size_t k = 0; k < o.m.size(); k++) maj = std::max(maj, (double)o.m[k]);
    for(int how = 0; how < 2; how++)
    {
        const double got = how ? simint_shellscreen_schwarz(&s.v[ab.first], &s.v[ab.second]) : simint_shellscreen(&s.v[ab.first], &s.v[ab.second], SIMINT_SCREEN_SCHWARZ);
        if(!(std::fabs(got - best) <= 1e-11 * maj + 1e-290)) v.fail(fmt("%s: Schwarz screening value of the shell pair %.17g, exact %.17g", w.c_str(), got, best));
    }
    for(int method = 1; method <= 2 && v.ok; method++)
    {
        std::vector<double> want, mj;
        double top = 0, topm = 0, root = 0;
        for(size_t i = 0; i < A.a.size(); i++)
            for(size_t j = 0; j < (same ? i + 1 : B.a.size()); j++)
            {
                double m;
                const double x = prim_screen_ref(A, B, i, j, method, m);
                want.push_back(x);
                mj.push_back(m);
                top = std::max(top, x);
                topm = std::max(topm, m);
                root += (same && i != j ? 2 : 1) * std::sqrt(x);
            }
        for(int how = 0; how < 4 && v.ok; how++)
        {
            Guarded out(want.size());
            double * p = how & 1 ? NULL : out.p;
            const simint_shell *x = &s.v[ab.first], *y = &s.v[ab.second];
            const double got = how < 2 ? simint_primscreen(x, y, p, method == 1 ? SIMINT_SCREEN_SCHWARZ : SIMINT_SCREEN_FASTSCHWARZ) : method == 1 ? simint_primscreen_schwarz(x, y, p) : simint_primscreen_fastschwarz(x, y, p);
            if(!(std::fabs(got - top) <= 1e-11 * topm + 1e-290)) v.fail(fmt("%s: largest primitive screening value by method %d is %.17g, exact %.17g", w.c_str(), method, got, top));
            if(out.touched()) v.fail(w + ": primitive screening wrote outside its result");
            if(p)
                for(size_t k = 0; k < want.size() && v.ok; k++)
                    if(!(std::fabs(p[k] - want[k]) <= 1e-11 * mj[k] + 1e-290)) v.fail(fmt("%s: screening value of primitive pair %zu by method %d is %.17g, exact %.17g", w.c_str(), k, method, p[k], want[k]));
        }
        if(method == 2)
            for(int how = 0; how < 2; how++)
            {
                // an estimate: at least the largest primitive value, at most what the primitives can add up to
                const double got = how ? simint_shellscreen_fastschwarz(&s.v[ab.first], &s.v[ab.second]) : simint_shellscreen(&s.v[ab.first], &s.v[ab.second], SIMINT_SCREEN_FASTSCHWARZ);
                if(!(got >= top * (1 - 1e-10) - 1e-290 && got <= root * root * (1 + 1e-10) + 1e-290)) v.fail(fmt("%s: fast screening value of the shell pair %.17g, its primitives allow %.17g to %.17g", w.c_str(), got, top, root * root));
            }
    }
}
// What the dropped primitives of one quartet may contribute, element by element (for derivatives, and for
// the fast method above s shells, where the screening value is no bound).
static std::vector<double> dropped(const Case & c, IPair ab, IPair cd, int method)
{
    struct Prim { ref::Shell a, b; double s; bool twice; };
    auto list = [&](IPair p) {
        std::vector<Prim> l;
        const HShell & A = c.pool[p.first];
        const HShell & B = c.pool[p.second];
        for(size_t i = 0; i < A.a.size(); i++)
            for(size_t j = 0; j < (p.first == p.second ? i + 1 : B.a.size()); j++)
            {
                Prim q;
                q.a = A.toref(); q.b = B.toref();
                q.a.a = {q.a.a[i]}; q.a.c = {q.a.c[i]};
                q.b.a = {q.b.a[j]}; q.b.c = {q.b.c[j]};
                double m;
                q.s = prim_screen_ref(A, B, i, j, method, m);
                q.twice = p.first == p.second && i != j;
                l.push_back(q);
            }
        return l;
    };
    const auto P = list(ab), Q = list(cd);
    std::vector<double> d;
    for(auto & p : P)
        for(auto & q : Q)
        {
            const double s2 = p.s * q.s;
            if(!(s2 < c.tol * c.tol * (1 + 1e-8))) continue;
            for(int k = 0; k < (p.twice ? 2 : 1); k++)
                for(int l = 0; l < (q.twice ? 2 : 1); l++)
                {
                    ref::Out o;
                    const ref::Shell &a = k ? p.b : p.a, &b = k ? p.a : p.b, &e = l ? q.b : q.a, &f = l ? q.a : q.b;
                    if(c.deriv) ref::eri_deriv1(a, b, e, f, o);
                    else ref::eri(a, b, e, f, o);
                    if(d.empty()) d.assign(o.v.size(), 0);
                    for(size_t x = 0; x < o.v.size(); x++) d[x] += std::fabs((double)o.v[x]) + 1e-13 * (double)o.m[x];
                }
        }
    return d;
}
static double true_max(const std::vector<IPair> & pr, const simint_multi_shellpair & S)
{
    double m = 0;
    int idx = 0;
    for(int ab = 0; ab < (int)pr.size(); ab++)
    {
        for(int k = 0; k < S.nprim12[ab]; k++) m = std::max(m, S.screen[idx + k]);
        idx += S.nprim12[ab];
        if(((ab + 1) % SIMINT_NSHELL_SIMD) == 0) idx = SIMINT_SIMD_ROUND(idx);
    }
    return m;
}
static std::vector<int> offsets(const std::vector<IPair> & pr, const simint_multi_shellpair & S)
{
    std::vector<int> o;
    int idx = 0;
    for(int ab = 0; ab < (int)pr.size(); ab++)
    {
        o.push_back(idx);
        idx += S.nprim12[ab];
        if(((ab + 1) % SIMINT_NSHELL_SIMD) == 0) idx = SIMINT_SIMD_ROUND(idx);
    }
    return o;
}
static Verdict chk_screen(const Case & c, Stats * st)
{
    Verdict v;
    SShells s(c.pool);
    SPair P(s, c.bra, c.scrP), Q(s, c.ket, c.scrQ);
    {
        SPair PU(s, c.bra, 0), QU(s, c.ket, 0);
        if(c.scrP) check_screen_data(c, c.bra, P.P, PU.P, c.scrP, v, "bra");
        if(c.scrQ) check_screen_data(c, c.ket, Q.P, QU.P, c.scrQ, v, "ket");
        if(v.ok && c.scrP) check_screen_calls(c, c.bra[0], s, v);
        if(v.ok && c.scrQ) check_screen_calls(c, c.ket.back(), s, v);
        if(!v.ok) return v;
    }
    if(c.clipP >= 0) P.P.nshell12_clip = c.clipP;
    if(c.clipQ >= 0) Q.P.nshell12_clip = c.clipQ;
    const int nab = P.P.nshell12_clip, ncd = Q.P.nshell12_clip, per = per_of(c);
    if(!c.iextra.empty() && c.iextra[0] && c.scrP && c.scrQ)
    {
        P.P.screen_max = true_max(c.bra, P.P);
        Q.P.screen_max = true_max(c.ket, Q.P);
    }
    Run r = run_pairs(c, &P.P, &Q.P, c.tol);
    Run full = run_pairs(c, &P.P, &Q.P, 0.0);
    guards_ok(r, v);
    if(full.ret != nab * ncd) v.fail(fmt("unscreened call returned %d for %d quartets", full.ret, nab * ncd));
    const bool skipped = r.ret == -1;
    if(skipped && !(P.P.screen_max * Q.P.screen_max < c.tol * c.tol * (1 + 1e-14))) v.fail("whole batch skipped although the bound does not allow it");
    if(!skipped && r.ret != nab * ncd) v.fail(fmt("returned %d for %d quartets", r.ret, nab * ncd));
    RefCache rc(c);
    bool changed = false;
    int total = 0;
    for(auto & h : {c.bra[0], c.ket[0]}) total += c.pool[h.first].am + c.pool[h.second].am;
    const bool byelement = c.tol > 0 && (c.deriv || (total > 0 && (c.scrP == 2 || c.scrQ == 2)));
    std::map<std::pair<IPair, IPair>, std::vector<double>> dm;
    const std::vector<int> offP = offsets(c.bra, P.P), offQ = offsets(c.ket, Q.P);
    long eligible = 0;
    for(int ab = 0; ab < nab && v.ok; ab++)
        for(int cd = 0; cd < ncd && v.ok; cd++)
        {
            // what the contributions of the primitive quartets below the tolerance can add up to
            double slack = c.tol > 0 ? 1e-140 : 0; // screening values are squares and underflow
            const double mult = (c.bra[ab].first == c.bra[ab].second ? 2 : 1) * (c.ket[cd].first == c.ket[cd].second ? 2 : 1);
            const std::vector<double> * el = NULL;
            if(byelement)
            {
                auto key = std::make_pair(c.bra[ab], c.ket[cd]);
                if(!dm.count(key)) dm[key] = dropped(c, c.bra[ab], c.ket[cd], c.scrP);
                el = &dm[key];
                eligible += (long)el->size();
            }
            else if(c.scrP && c.scrQ)
                for(int i = 0; i < P.P.nprim12[ab]; i++)
                    for(int j = 0; j < Q.P.nprim12[cd]; j++)
                    {
                        const double s2 = P.P.screen[offP[ab] + i] * Q.P.screen[offQ[cd] + j];
                        if(s2 < c.tol * c.tol * (1 + 1e-10)) { slack += mult * std::sqrt(s2) * (1 + 1e-9); eligible++; }
                    }
            const std::string w = fmt("%s tol %.2g bra %d ket %d", am4(c).c_str(), c.tol, ab, cd);
            const double * f = &full.v[((size_t)ab * ncd + cd) * per];
            std::vector<double> zero;
            const double * g = &r.v[((size_t)ab * ncd + cd) * per];
            if(skipped) { zero.assign(per, 0.0); g = zero.data(); }
            const ref::Out & o = rc.get(ab, cd);
            block_vs_ref(f, o, g_tol, 0, v, st, w + " unscreened");
            block_vs_ref(g, o, g_tol, slack, v, st, w, el && !el->empty() ? el->data() : NULL);
            for(int k = 0; k < per; k++)
                if(g[k] != f[k]) changed = true;
        }
    v.nontrivial = v.nontrivial && (changed || c.tol == 0);
    if(st)
    {
        st->klass(c.scrP == 2 ? (total ? "fast schwarz" : "fast schwarz (s shells)") : "schwarz");
        if(c.deriv) st->klass("derivatives");
        if(changed) st->klass("screening dropped something");
        if(skipped) st->klass("whole batch skipped");
        if(c.tol > 0 && !eligible) st->klass("nothing below the tolerance: exact result required");
        if(!c.iextra.empty() && c.iextra[0]) st->klass("exact screen_max");
    }
    return v;
}
static Reg r5("screen", gen_screen, chk_screen,
              "an integral above 1e-6 of its sum of absolute terms, and the tolerance actually dropped contributions (or is zero)");

// ------------------------------------------------------------------ purity
// Inputs on read-only pages, result and workspace ending at an unmapped page.
struct Fence
{
    unsigned char * base = nullptr;
    size_t len = 0;
    double * p = nullptr;
    size_t nb = 0, head = 0;
    Fence(size_t bytes, unsigned char fill)
    {
        nb = (bytes + 63) / 64 * 64;
        const size_t pg = 4096;
        const size_t body = (nb + pg - 1) / pg * pg;
        len = body + 2 * pg;
        base = (unsigned char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        need(base != MAP_FAILED, "mmap");
        mprotect(base, pg, PROT_NONE);
        mprotect(base + pg + body, pg, PROT_NONE);
        memset(base + pg, fill, body);
        head = body - nb;
        p = (double *)(base + pg + head);
        fill_ = fill;
        used = bytes;
    }
    unsigned char fill_;
    size_t used;
    bool slack_intact() const
    {
        const unsigned char * b = base + 4096;
        for(size_t i = 0; i < head; i++)
            if(b[i] != fill_) return false;
        for(size_t i = used; i < nb; i++)
            if(b[head + i] != fill_) return false;
        return true;
    }
    void readonly() { mprotect(base + 4096, len - 2 * 4096, PROT_READ); }
    ~Fence() { munmap(base, len); }
    Fence(const Fence &) = delete;
    Fence & operator=(const Fence &) = delete;
};
static void rebase(simint_multi_shellpair & P, unsigned char * to)
{
    const unsigned char * from = (const unsigned char *)P.ptr;
#define RB(f) if(P.f) P.f = (decltype(P.f))(to + ((const unsigned char *)P.f - from))
    RB(x); RB(y); RB(z); RB(PA_x); RB(PA_y); RB(PA_z); RB(PB_x); RB(PB_y); RB(PB_z); RB(alpha); RB(prefac); RB(screen);
    RB(AB_x); RB(AB_y); RB(AB_z); RB(nprim12);
#if SIMINT_OSTEI_MAXDER > 0
    RB(alpha2); RB(beta2);
#endif
#undef RB
    P.ptr = to;
}
static Verdict chk_purity(const Case & c, Stats * st)
{
    Verdict v;
    SShells s(c.pool);
    SPair P(s, c.bra, c.scrP), Q(s, c.ket, c.scrQ);
    if(c.clipP >= 0) P.P.nshell12_clip = c.clipP;
    if(c.clipQ >= 0) Q.P.nshell12_clip = c.clipQ;
    const int nab = P.P.nshell12_clip, ncd = Q.P.nshell12_clip, per = per_of(c);
    const size_t nout = (size_t)nab * ncd * per;
    // copies of the inputs on pages nobody may write
    Fence fp(P.P.memsize, 0), fq(Q.P.memsize, 0);
    memcpy(fp.p, P.P.ptr, P.P.memsize);
    memcpy(fq.p, Q.P.ptr, Q.P.memsize);
    simint_multi_shellpair RP = P.P, RQ = Q.P;
    rebase(RP, (unsigned char *)fp.p);
    rebase(RQ, (unsigned char *)fq.p);
    fp.readonly();
    fq.readonly();
    const simint_multi_shellpair RP0 = RP, RQ0 = RQ;
    const size_t ws = simint_eri_worksize(c.deriv, maxam_of(c));
    if(simint_eri_workmem(c.deriv, maxam_of(c)) != ws * sizeof(double)) v.fail("workspace size in bytes and in elements disagree");
    std::vector<double> first;
    const unsigned char fills[3] = {0xFF, 0x00, 0x41}; // NaNs, zeros, ordinary numbers
    for(int pass = 0; pass < 3 && v.ok; pass++)
    {
        Fence out(nout * sizeof(double), fills[pass]), work(ws * sizeof(double), fills[(pass + (pass == 2)) % 3]);
        int ret = call_eri(c.deriv, &RP, &RQ, c.tol, work.p, out.p);
        if(ret != nab * ncd) v.fail(fmt("returned %d for %d quartets", ret, nab * ncd));
        if(!out.slack_intact()) v.fail("wrote in front of or behind the result buffer");
        if(!work.slack_intact()) v.fail("wrote in front of or behind the workspace");
        if(memcmp(&RP, &RP0, sizeof RP) || memcmp(&RQ, &RQ0, sizeof RQ)) v.fail("input pair structure changed");
        if(!pass) first.assign(out.p, out.p + nout);
        else if(memcmp(first.data(), out.p, nout * sizeof(double)))
        {
            size_t k = 0;
            while(!memcmp(&first[k], &out.p[k], 8)) k++;
            v.fail(fmt("%s d%d: result element %zu depends on what the buffers held before: %.17g, then %.17g", am4(c).c_str(), c.deriv, k, first[k], out.p[k]));
        }
    }
    for(double x : first)
    {
        if(x != x) v.fail("result is not a number");
        if(x != 0) v.nontrivial = true;
    }
    // a call with another clip and tolerance in between changes nothing
    if(v.ok)
    {
        simint_multi_shellpair P2 = P.P, Q2 = Q.P;
        P2.nshell12_clip = 1;
        Q2.nshell12_clip = std::max(1, ncd / 2);
        std::vector<unsigned char> p0((unsigned char *)P.P.ptr, (unsigned char *)P.P.ptr + P.P.memsize), q0((unsigned char *)Q.P.ptr, (unsigned char *)Q.P.ptr + Q.P.memsize);
        run_pairs(c, &P2, &Q2, c.tol);
        run_pairs(c, &P.P, &Q2, 0.0);
        // the sets in exchanged roles, and the library initialized again
        simint_init();
        run_pairs(c, &Q2, &P.P, c.tol);
        if(memcmp(p0.data(), P.P.ptr, p0.size())) v.fail("bra pair data changed by a call");
        if(memcmp(q0.data(), Q.P.ptr, q0.size())) v.fail("ket pair data changed by a call");
        Run again = run_pairs(c, &P.P, &Q.P, c.tol);
        if(memcmp(first.data(), again.v.data(), nout * sizeof(double))) v.fail("the same call gives another result after calls with other clips");
        guards_ok(again, v);
    }
    if(st)
    {
        st->klass(am4(c));
        if(c.tol > 0) st->klass("with screening");
    }
    return v;
}
static Case gen_purity(Rng & r, int n)
{
    Case c;
    if(n % 2 == 0)
    {
        c = gen_quartet(r, n / 2, (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.5)) ? 1 : 0);
        // more copies of the pairs: fill a shell batch
        const int W = SIMINT_NSHELL_SIMD, nb = r.range(1, 3), nk = r.range(1, W + 3);
        std::vector<IPair> b = c.bra, k = c.ket;
        while((int)c.bra.size() < nb) c.bra.push_back(r.pick(b));
        while((int)c.ket.size() < nk) c.ket.push_back(r.pick(k));
    }
    else c = gen_batch(r, n);
    if(c.clipP > (int)c.bra.size()) c.clipP = -1;
    if(c.clipQ > (int)c.ket.size()) c.clipQ = -1;
    if(r.chance(0.4))
    {
        c.scrP = c.scrQ = 1 + r.below(2);
        c.tol = r.chance(0.3) ? 0 : r.logu(-12, -4);
    }
    else c.scrP = c.scrQ = 0;
    return c;
}
static Reg r6("purity", gen_purity, chk_purity, "the result has a non-zero element");

// ------------------------------------------------------------------ symmetries
// extra: translation (3), iextra: [relation, axis permutation 0..5, sign bits]
static Case gen_meta(Rng & r, int n)
{
    Case c;
    const int rel = n % 8;
    c.deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.4)) ? 1 : 0;
    if(rel == 7 && SIMINT_OSTEI_MAXDER > 0) c.deriv = 1;
    const int L = g_maxam;
    int am[4];
    do
        for(int i = 0; i < 4; i++) am[i] = r.range(0, L);
    while(am[0] + am[1] + am[2] + am[3] + 2 * c.deriv > 7);
    const int style = gen_style(r);
    GenOpt g;
    g.maxprim = 3;
    g.longprim = am[0] + am[1] + am[2] + am[3] <= 3 ? 8 : 0;
    g.plong = 0.015;
    g.loexp = r.chance(0.3) ? -2.5 : -1.2;
    g.hiexp = r.chance(0.2) ? 4 : 1.8;
    if(rel == 4) { if(r.chance(0.5)) am[1] = am[0]; else am[3] = am[2]; }
    for(int i = 0; i < 4; i++) c.pool.push_back(gen_shell(r, am[i], style, g));
    if(rel == 4)
    {
        if(am[0] == am[1] && (am[2] != am[3] || r.chance(0.5))) { c.pool[1] = c.pool[0]; c.bra = {{0, 0}}; c.ket = {{2, 3}}; }
        else { c.pool[3] = c.pool[2]; c.bra = {{0, 1}}; c.ket = {{2, 2}}; }
    }
    else { c.bra = {{0, 1}}; c.ket = {{2, 3}}; }
    for(int d = 0; d < 3; d++) c.extra.push_back(r.uni(-3, 3));
    c.extra.push_back(r.uni(-2, 2));
    c.iextra = {rel, r.below(6), r.below(8), r.below(4)};
    return c;
}
static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
// integrals of one quartet of pool shells given by index
static std::vector<double> one(const std::vector<HShell> & pool, int a, int b, int cc, int d, int deriv, Verdict & v, bool copies = false)
{
    Case c;
    c.pool = pool;
    c.deriv = deriv;
    if(copies)
    {
        // give every position its own shell object
        c.pool = {pool[a], pool[b], pool[cc], pool[d]};
        a = 0; b = 1; cc = 2; d = 3;
    }
    c.bra = {{a, b}};
    c.ket = {{cc, d}};
    SShells s(c.pool);
    SPair P(s, c.bra, 0), Q(s, c.ket, 0);
    Run r = run_pairs(c, &P.P, &Q.P, 0.0);
    if(r.ret != 1) v.fail(fmt("returned %d for one quartet", r.ret));
    guards_ok(r, v);
    return r.v;
}
static Verdict chk_meta(const Case & c, Stats * st)
{
    Verdict v;
    const int rel = c.iextra[0], dv = c.deriv;
    const int a = c.bra[0].first, b = c.bra[0].second, k = c.ket[0].first, l = c.ket[0].second;
    std::vector<double> base = one(c.pool, a, b, k, l, dv, v);
    ref::Out o; // only for the size of the terms
    ref_block(c, c.bra[0], c.ket[0], o);
    const int n[4] = {ref::ncart(c.pool[a].am), ref::ncart(c.pool[b].am), ref::ncart(c.pool[k].am), ref::ncart(c.pool[l].am)};
    const int nd = dv ? 12 : 1;
    auto at = [&](int i, int j, int p, int q, int e) { return ((((size_t)i * n[1] + j) * n[2] + p) * n[3] + q) * nd + e; };
    std::vector<double> other;
    std::string name;
    const double tol = 2 * g_tol;
    auto cmp = [&](size_t idx, double got, double extra, const std::string & what) {
        const double err = std::fabs(base[idx] - got), m = (double)o.m[idx];
        if(!(err <= tol * (m + extra) + TINY))
            v.fail(fmt("%s broken for %s d%d element %zu: %.17g vs %.17g, difference %.3g of the term magnitude", what.c_str(), am4(c).c_str(), dv, idx, base[idx], got, err / m));
        if(st && m > 1e-200) st->err(err / (m + extra) / tol, what);
        if(std::fabs(base[idx]) > 1e-6 * m && m > 1e-100) v.nontrivial = true;
    };
    if(rel <= 2)
    {
        // index permutations: swap bra, swap ket, exchange bra and ket
        const bool s12 = rel == 0 || (rel == 2 && (c.iextra[3] & 1)), s34 = rel == 1 || (rel == 2 && (c.iextra[3] & 2)), sx = rel == 2;
        int p[4] = {a, b, k, l}, pos[4] = {0, 1, 2, 3};
        if(s12) { std::swap(p[0], p[1]); std::swap(pos[0], pos[1]); }
        if(s34) { std::swap(p[2], p[3]); std::swap(pos[2], pos[3]); }
        if(sx) { std::swap(p[0], p[2]); std::swap(p[1], p[3]); std::swap(pos[0], pos[2]); std::swap(pos[1], pos[3]); }
        other = one(c.pool, p[0], p[1], p[2], p[3], dv, v);
        name = sx ? "exchange of bra and ket" : s12 ? "exchange of the bra shells" : "exchange of the ket shells";
        int idx[4];
        for(idx[0] = 0; idx[0] < n[0]; idx[0]++)
            for(idx[1] = 0; idx[1] < n[1]; idx[1]++)
                for(idx[2] = 0; idx[2] < n[2]; idx[2]++)
                    for(idx[3] = 0; idx[3] < n[3] && v.ok; idx[3]++)
                        for(int e = 0; e < nd; e++)
                        {
                            size_t q = 0;
                            for(int t = 0; t < 4; t++) q = q * n[pos[t]] + idx[pos[t]];
                            int e2 = 0;
                            if(dv)
                            {
                                const int cen = e / 3;
                                for(int t = 0; t < 4; t++)
                                    if(pos[t] == cen) e2 = t * 3 + e % 3;
                            }
                            cmp(at(idx[0], idx[1], idx[2], idx[3], e), other[q * nd + e2], 0, name);
                        }
    }
    else if(rel == 3)
    {
        name = "translation";
        std::vector<HShell> p = c.pool;
        double span = 0;
        for(auto & h : p)
            for(int d = 0; d < 3; d++) { h.x[d] += c.extra[d]; span = std::max(span, std::fabs(h.x[d]) + std::fabs(c.extra[d])); }
        // moving a centre rounds its coordinates: compare with the exact value for the moved centres
        Case cm = c;
        cm.pool = p;
        other = one(p, a, b, k, l, dv, v);
        ref::Out om;
        ref_block(cm, c.bra[0], c.ket[0], om);
        for(size_t q = 0; q < base.size() && v.ok; q++)
            cmp(q, other[q], (double)fabsl(om.v[q] - o.v[q]) / tol + (double)om.m[q], name);
    }
    else if(rel == 4)
    {
        name = "same shell object against an equal copy";
        other = one(c.pool, a, b, k, l, dv, v, true);
        for(size_t q = 0; q < base.size() && v.ok; q++) cmp(q, other[q], 0, name);
    }
    else if(rel == 5)
    {
        // axis permutation and reflections are exact in floating point
        name = "rotation and reflection of the axes";
        const int * pm = PERM[c.iextra[1]];
        const int sg = c.iextra[2];
        std::vector<HShell> p = c.pool;
        for(size_t i = 0; i < p.size(); i++)
            for(int d = 0; d < 3; d++) p[i].x[pm[d]] = ((sg >> d) & 1 ? -1 : 1) * c.pool[i].x[d];
        other = one(p, a, b, k, l, dv, v);
        const int sh[4] = {a, b, k, l};
        std::vector<int> map[4];
        std::vector<int> sign[4];
        for(int t = 0; t < 4; t++)
        {
            const auto & ct = ref::cart(c.pool[sh[t]].am);
            for(const auto & e : ct)
            {
                std::array<int, 3> f;
                int s = 1;
                for(int d = 0; d < 3; d++)
                {
                    f[pm[d]] = e[d];
                    if(((sg >> d) & 1) && (e[d] & 1)) s = -s;
                }
                int w = -1;
                for(size_t q = 0; q < ct.size(); q++)
                    if(ct[q] == f) w = (int)q;
                map[t].push_back(w);
                sign[t].push_back(s);
            }
        }
        for(int i = 0; i < n[0]; i++)
            for(int j = 0; j < n[1]; j++)
                for(int p2 = 0; p2 < n[2]; p2++)
                    for(int q = 0; q < n[3] && v.ok; q++)
                        for(int e = 0; e < nd; e++)
                        {
                            int s = sign[0][i] * sign[1][j] * sign[2][p2] * sign[3][q], e2 = e;
                            if(dv)
                            {
                                e2 = (e / 3) * 3 + pm[e % 3];
                                if((sg >> (e % 3)) & 1) s = -s;
                            }
                            cmp(at(i, j, p2, q, e), s * other[at(map[0][i], map[1][j], map[2][p2], map[3][q], e2)], 0, name);
                        }
    }
    else if(rel == 6)
    {
        // linear in the coefficients of every shell: c -> f c, and splitting a contraction in two
        name = "linearity in a shell's coefficients";
        const int which[4] = {a, b, k, l};
        const int w = which[c.iextra[3]];
        int uses = 0;
        for(int t : which) uses += t == w;
        if(uses == 1)
        {
            std::vector<HShell> p1 = c.pool, p2 = c.pool;
            const double f = c.extra[3];
            p1[w].a.resize(1); p1[w].c.resize(1);
            for(auto & x : p1[w].c) x *= f;
            std::vector<double> u = one(p1, a, b, k, l, dv, v), rest;
            ref::Out big = o;
            p2[w].a.erase(p2[w].a.begin()); p2[w].c.erase(p2[w].c.begin());
            const bool has = !p2[w].a.empty();
            if(has) rest = one(p2, a, b, k, l, dv, v);
            if(std::fabs(f) > 1e-3)
                for(size_t q = 0; q < base.size() && v.ok; q++) cmp(q, u[q] / f + (has ? rest[q] : 0), 0, name);
        }
    }
    else if(dv)
    {
        name = "translational invariance of the derivatives";
        for(size_t q = 0; q + 11 < base.size() + 1 && v.ok; q += 12)
            for(int d = 0; d < 3; d++)
            {
                double sum = 0, m = 0;
                for(int cen = 0; cen < 4; cen++) { sum += base[q + 3 * cen + d]; m += (double)o.m[q + 3 * cen + d]; }
                if(!(std::fabs(sum) <= g_tol * m + TINY)) v.fail(fmt("derivatives of element %zu in direction %d sum to %.3g (terms %.3g)", q / 12, d, sum, m));
                if(m > 1e-100 && std::fabs(base[q + d]) > 1e-6 * m) v.nontrivial = true;
            }
    }
    if(st) st->klass(name.empty() ? "none" : name);
    return v;
}
static Reg r7("meta", gen_meta, chk_meta, "an integral above 1e-6 of its sum of absolute terms took part in the compared relation");

// ------------------------------------------------------------------ threads
static Case gen_threads(Rng & r, int n)
{
    Case c = gen_batch(r, n);
    if(c.bra.size() > 6) c.bra.resize(6);
    if(c.ket.size() > 12) c.ket.resize(12);
    c.clipP = c.clipQ = -1;
    if(r.chance(0.4)) { c.scrP = c.scrQ = 1; c.tol = r.logu(-12, -6); }
    else c.scrP = c.scrQ = 0;
    c.iextra = {r.range(2, 8), r.range(2, 6)};
    return c;
}
static Verdict chk_threads(const Case & c, Stats * st)
{
    Verdict v;
    SShells s(c.pool);
    const int nt = c.iextra[0], rep = c.iextra[1];
    auto together = [&](const std::function<void(int)> & f) {
        std::atomic<int> go(0);
        std::vector<std::thread> th;
        for(int t = 0; t < nt; t++)
            th.emplace_back([&, t]() {
                go++;
                while(go.load() < nt) {}
                f(t);
            });
        for(auto & t : th) t.join();
    };
    // The threads come first, so that anything a first call sets up is set up by several of them at once.
    auto scratch = [&](int t, std::vector<double> & data) {
        // every thread also builds and drops pairs and one-electron integrals of the shared shells
        SPair X(s, t % 2 ? c.bra : c.ket, t % 3);
        const auto pr = (t % 2 ? c.bra : c.ket)[0];
        data.push_back(X.P.prefac[0]);
        std::vector<double> one((size_t)ref::ncart(c.pool[pr.first].am) * ref::ncart(c.pool[pr.second].am) + 8);
        simint_compute_overlap(const_cast<simint_shell *>(&s.v[pr.first]), const_cast<simint_shell *>(&s.v[pr.second]), one.data());
        data.insert(data.end(), one.begin(), one.end());
        simint_compute_ke(const_cast<simint_shell *>(&s.v[pr.first]), const_cast<simint_shell *>(&s.v[pr.second]), one.data());
        data.insert(data.end(), one.begin(), one.end());
        double Z[2] = {1, 2}, x[2] = {0, 1}, y[2] = {0, -1}, z[2] = {0.5, 0};
        simint_compute_potential(2, Z, x, y, z, &s.v[pr.first], &s.v[pr.second], one.data());
        data.insert(data.end(), one.begin(), one.end());
        data.push_back(simint_shellscreen(&s.v[pr.first], &s.v[pr.second], 1));
        // and shells of its own
        simint_shell own[2];
        simint_initialize_shells(2, own);
        simint_copy_shell(&s.v[pr.first], &own[0]);
        const HShell & h = c.pool[pr.second];
        if(!h.zero) simint_create_shell((int)h.a.size(), h.am, h.x[0], h.x[1], h.x[2], h.a.data(), h.c.data(), &own[1]);
        else simint_create_zero_shell(&own[1]);
        if(!h.zero && !c.pool[pr.first].zero) simint_normalize_shells(2, own);
        for(auto & o : own) data.insert(data.end(), o.coef, o.coef + o.nprim);
        simint_free_shells(2, own);
    };
    std::vector<std::vector<double>> ss(nt), sp(nt);
    together([&](int t) { scratch(t, sp[t]); });
    SPair P(s, c.bra, c.scrP), Q(s, c.ket, c.scrQ);
    // every thread runs its own mix of calls on the shared pairs
    struct Job { simint_multi_shellpair P, Q; int deriv; double tol; };
    std::vector<Job> jobs;
    for(int t = 0; t < nt; t++)
        for(int k = 0; k < rep; k++)
        {
            Job j;
            const bool swap = (t + k) % 3 == 2;
            j.P = swap ? Q.P : P.P;
            j.Q = swap ? P.P : Q.P;
            j.P.nshell12_clip = 1 + (t * 7 + k * 3) % j.P.nshell12;
            j.Q.nshell12_clip = 1 + (t * 5 + k * 11) % j.Q.nshell12;
            j.deriv = (SIMINT_OSTEI_MAXDER > 0 && (t + k) % 2) ? 1 : 0;
            j.tol = (t + 2 * k) % 4 == 0 ? 0 : c.tol;
            jobs.push_back(j);
        }
    Case cs = c;
    std::swap(cs.bra, cs.ket);
    auto runjob = [&](const Job & j) {
        Case q = (j.P.ptr == Q.P.ptr) ? cs : c;
        q.deriv = j.deriv;
        return run_pairs(q, &j.P, &j.Q, j.tol);
    };
    std::vector<Run> serial, par(jobs.size());
    together([&](int t) {
        std::vector<double> again;
        for(int k = 0; k < rep; k++)
        {
            par[t * rep + k] = runjob(jobs[t * rep + k]);
            if(k == 0) scratch(t, again);
        }
        if(again.size() != sp[t].size() || memcmp(again.data(), sp[t].data(), again.size() * 8)) sp[t].clear();
    });
    for(auto & j : jobs) serial.push_back(runjob(j));
    for(int t = 0; t < nt; t++) scratch(t, ss[t]);
    for(size_t i = 0; i < jobs.size() && v.ok; i++)
    {
        if(par[i].ret != serial[i].ret) v.fail(fmt("call %zu returned %d concurrently, %d alone", i, par[i].ret, serial[i].ret));
        else if(par[i].v.size() != serial[i].v.size() || memcmp(par[i].v.data(), serial[i].v.data(), par[i].v.size() * 8))
            v.fail(fmt("call %zu of %d threads gives another result than alone", i, nt));
        guards_ok(par[i], v);
        for(double x : serial[i].v)
            if(x != 0) v.nontrivial = true;
    }
    for(int t = 0; t < nt && v.ok; t++)
        if(ss[t].size() != sp[t].size() || memcmp(ss[t].data(), sp[t].data(), ss[t].size() * 8)) v.fail(fmt("thread %d: pair creation, one-electron integrals or screening differ from the run alone", t));
    if(st) st->klass(fmt("%d threads", nt));
    return v;
}
static Reg r8("threads", gen_threads, chk_threads, "a non-zero integral was computed by at least two threads at once");

// ------------------------------------------------------------------ dispatch
// In a partial library every quartet without real code returns its own number.
static Case gen_dispatch(Rng & r, int n)
{
    Case c;
    const int L = SIMINT_OSTEI_MAXAM + 1, nq = L * L * L * L;
    const long k = (long)n * g_nshard + g_shard;
    const int q = k < 2L * nq ? (int)(k % nq) : r.below(nq);
    c.deriv = SIMINT_OSTEI_MAXDER > 0 ? (k < 2L * nq ? (int)(k / nq) : r.below(2)) : 0;
    c.iextra = {q / (L * L * L), q / (L * L) % L, q / L % L, q % L};
    const double tol = r.chance(0.3) ? 0 : r.logu(-15, 0);
    double a = r.logu(-16, 4), b = r.chance(0.5) ? r.logu(-16, 4) : tol * tol / a * r.logu(-1, 1);
    c.extra = {tol, a, b};
    return c;
}
static Verdict chk_dispatch(const Case & c, Stats * st)
{
    Verdict v;
    const auto & q = c.iextra;
    const std::string nm = fmt("%d:%d%d%d%d", c.deriv, q[0], q[1], q[2], q[3]);
    if(g_real.count(nm)) return v;
    simint_multi_shellpair P, Q;
    memset(&P, 0, sizeof P);
    memset(&Q, 0, sizeof Q);
    P.am1 = q[0]; P.am2 = q[1]; Q.am1 = q[2]; Q.am2 = q[3];
    P.nshell12 = P.nshell12_clip = Q.nshell12 = Q.nshell12_clip = 1;
    const double tol = c.extra[0];
    P.screen_max = c.extra[1];
    Q.screen_max = c.extra[2];
    const int want = 1000000 + c.deriv * 100000 + q[0] * 1000 + q[1] * 100 + q[2] * 10 + q[3];
    double dummy[64];
    const int got = call_eri(c.deriv, &P, &Q, tol, dummy, dummy);
    const bool may = tol > 0 && P.screen_max * Q.screen_max < tol * tol * (1 + 1e-12);
    if(got != want && !(may && got == -1))
        v.fail(fmt("quartet (%d %d|%d %d) derivative order %d, tolerance %g, largest screening values %g and %g: reached %d, expected %d%s", q[0], q[1], q[2], q[3], c.deriv, tol,
                   P.screen_max, Q.screen_max, got, want, got == -1 ? " (skipped although the bound does not allow it)" : ""));
    if(c.deriv == 0)
    {
        const int t = simint_compute_eri_deriv(0, &P, &Q, tol, dummy, dummy);
        if(t != want && !(may && t == -1)) v.fail(fmt("derivative order zero of (%d %d|%d %d) reached %d, expected %d", q[0], q[1], q[2], q[3], t, want));
    }
    v.nontrivial = true;
    if(st) st->klass(got == -1 ? "skipped by the largest screening values" : "dispatched");
    return v;
}
static Reg r9("dispatch", gen_dispatch, chk_dispatch, "a quartet whose function only reports its own number", false);
