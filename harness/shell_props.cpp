// Properties of shells and shell-pair objects: concatenation, object
// histories, normalization.
#include "eri_util.hpp"

// Storage indices of the primitives, without the padding between batches of shell pairs.
static std::vector<int> slots(const simint_multi_shellpair & P)
{
    std::vector<int> r;
    int n = 0;
    for(int i = 0; i < P.nshell12; i++)
    {
        for(int k = 0; k < P.nprim12[i]; k++) r.push_back(n++);
        if((i + 1) % SIMINT_NSHELL_SIMD == 0) n = SIMINT_SIMD_ROUND(n);
    }
    return r;
}
// Everything a pair set carries, as bytes, in storage order.
static std::string image(const simint_multi_shellpair & P, bool screened)
{
    std::string s;
    auto add = [&](const void * p, size_t n) { s.append((const char *)p, n); };
    add(&P.am1, sizeof P.am1); add(&P.am2, sizeof P.am2);
    add(&P.nprim, sizeof P.nprim);
    add(&P.nshell12, sizeof P.nshell12); add(&P.nshell12_clip, sizeof P.nshell12_clip);
    const std::vector<int> sl = slots(P);
    add(P.nprim12, sizeof(int) * P.nshell12);
    for(const double * a : {P.AB_x, P.AB_y, P.AB_z}) add(a, sizeof(double) * P.nshell12);
    auto prim = [&](const double * a) { for(int i : sl) add(a + i, sizeof(double)); };
    for(const double * a : {P.x, P.y, P.z, P.PA_x, P.PA_y, P.PA_z, P.PB_x, P.PB_y, P.PB_z, P.alpha, P.prefac}) prim(a);
#if SIMINT_OSTEI_MAXDER > 0
    prim(P.alpha2);
    prim(P.beta2);
#endif
    if(screened) prim(P.screen);
    return s;
}
static std::string diff(const simint_multi_shellpair & X, const simint_multi_shellpair & Y, bool screened)
{
    if(X.am1 != Y.am1 || X.am2 != Y.am2) return "angular momentum";
    if(X.nshell12 != Y.nshell12) return fmt("number of shell pairs %d instead of %d", X.nshell12, Y.nshell12);
    if(X.nshell12_clip != Y.nshell12_clip) return fmt("clip %d instead of %d", X.nshell12_clip, Y.nshell12_clip);
    if(X.nprim != Y.nprim) return fmt("number of primitives %d instead of %d", X.nprim, Y.nprim);
    if((X.screen != NULL) != screened) return X.screen ? "has screening data although none was asked for" : "has no screening data";
    for(int i = 0; i < X.nshell12; i++)
        if(X.nprim12[i] != Y.nprim12[i]) return fmt("pair %d has %d primitives instead of %d", i, X.nprim12[i], Y.nprim12[i]);
    const std::vector<int> sl = slots(X);
    const char * nm[] = {"AB_x", "AB_y", "AB_z", "x", "y", "z", "PA_x", "PA_y", "PA_z", "PB_x", "PB_y", "PB_z", "alpha", "prefac", "alpha2", "beta2", "screen"};
    const double * a[17] = {X.AB_x, X.AB_y, X.AB_z, X.x, X.y, X.z, X.PA_x, X.PA_y, X.PA_z, X.PB_x, X.PB_y, X.PB_z, X.alpha, X.prefac, 0, 0, X.screen};
    const double * b[17] = {Y.AB_x, Y.AB_y, Y.AB_z, Y.x, Y.y, Y.z, Y.PA_x, Y.PA_y, Y.PA_z, Y.PB_x, Y.PB_y, Y.PB_z, Y.alpha, Y.prefac, 0, 0, Y.screen};
#if SIMINT_OSTEI_MAXDER > 0
    a[14] = X.alpha2; a[15] = X.beta2;
    b[14] = Y.alpha2; b[15] = Y.beta2;
#endif
    for(int k = 0; k < 17; k++)
    {
        if(!a[k] || !b[k] || (k == 16 && !screened)) continue;
        const size_t m = k < 3 ? (size_t)X.nshell12 : sl.size();
        for(size_t j = 0; j < m; j++)
        {
            const int i = k < 3 ? (int)j : sl[j];
            if(memcmp(&a[k][i], &b[k][i], 8)) return fmt("%s[%d] is %.17g instead of %.17g", nm[k], i, a[k][i], b[k][i]);
        }
    }
    return "";
}
// padding slots hold no contribution: prefactor (and screening value) zero
static std::string padding_bad(const simint_multi_shellpair & P, bool screened)
{
    int n = 0;
    for(int i = 0; i < P.nshell12; i++)
    {
        n += P.nprim12[i];
        if((i + 1) % SIMINT_NSHELL_SIMD == 0 || i + 1 == P.nshell12)
            for(; n < SIMINT_SIMD_ROUND(n); n++)
            {
                if(P.prefac[n] != 0) return fmt("padding slot %d has prefactor %g", n, P.prefac[n]);
                if(screened && P.screen[n] != 0) return fmt("padding slot %d has screening value %g", n, P.screen[n]);
            }
    }
    if(screened)
    {
        n = 0;
        for(int i = 0; i < P.nshell12; i++)
        {
            for(int k = 0; k < P.nprim12[i]; k++)
                if(!(P.screen_max >= P.screen[n + k])) return fmt("screen_max %g below entry %g", P.screen_max, P.screen[n + k]);
            n += P.nprim12[i];
            if((i + 1) % SIMINT_NSHELL_SIMD == 0) n = SIMINT_SIMD_ROUND(n);
        }
    }
    return "";
}

// ------------------------------------------------------------------ concatenation
// bra: the shell pairs; ket: the other side for integrals
// iextra: [mode, screening of the inputs, screening of the output, earlier use of the output, group sizes...]
static Case gen_cat(Rng & r, int n)
{
    (void)n;
    Case c;
    const int W = SIMINT_NSHELL_SIMD, L = std::min(g_maxam, 2);
    c.deriv = (SIMINT_OSTEI_MAXDER > 0 && r.chance(0.3)) ? 1 : 0;
    int am[4];
    do
        for(int i = 0; i < 4; i++) am[i] = r.range(0, L);
    while(am[0] + am[1] + am[2] + am[3] > 4);
    const int style = gen_style(r);
    GenOpt g;
    g.maxprim = 4;
    g.longprim = 12;
    const int np = r.range(1, 4);
    std::vector<IPair> pb;
    for(int q = 0; q < np; q++)
    {
        int i = (int)c.pool.size();
        c.pool.push_back(gen_shell(r, am[0], style, g));
        if(am[0] == am[1] && r.chance(0.3)) pb.push_back({i, i});
        else
        {
            c.pool.push_back(am[0] == am[1] && r.chance(0.2) ? near_copy(r, HShell(c.pool[i])) : gen_shell(r, am[1], style, g));
            pb.push_back({i, i + 1});
        }
    }
    const int mode = r.below(2);
    const int ng = r.range(1, r.chance(0.5) ? 4 : 2 * W + 3);
    const int si = r.below(3), so = r.chance(0.8) ? si : 0;
    c.iextra = {mode, si, so, r.below(3)};
    for(int i = 0; i < ng; i++)
    {
        const int k = mode ? 1 : (r.chance(0.3) ? r.range(1, W + 2) : r.range(1, 3));
        if(c.bra.size() + k > 60) break;
        c.iextra.push_back(k);
        for(int q = 0; q < k; q++) c.bra.push_back(r.pick(pb));
    }
    int i = (int)c.pool.size();
    c.pool.push_back(gen_shell(r, am[2], style, g));
    c.pool.push_back(gen_shell(r, am[3], style, g));
    const int nk = r.range(1, 3);
    for(int q = 0; q < nk; q++) c.ket.push_back({i, i + 1});
    c.tol = r.chance(0.4) ? 0 : r.logu(-12, r.chance(0.3) ? 1 : -5);
    return c;
}
static Verdict chk_cat(const Case & c, Stats * st)
{
    Verdict v;
    if(c.iextra.size() < 5 || c.bra.empty() || c.ket.empty()) return v;
    const int mode = c.iextra[0], si = c.iextra[1], so = c.iextra[2], dirty = c.iextra[3];
    SShells s(c.pool);
    std::vector<std::unique_ptr<SPair>> in;
    std::vector<std::vector<IPair>> groups;
    size_t at = 0;
    for(size_t gi = 4; gi < c.iextra.size() && at < c.bra.size(); gi++)
    {
        const size_t k = std::min((size_t)std::max(1, c.iextra[gi]), c.bra.size() - at);
        if(mode && k != 1) return v;
        in.emplace_back(new SPair(s, std::vector<IPair>(c.bra.begin() + at, c.bra.begin() + at + k), si));
        // a set that is cut short in calls (clip) still consists of all its pairs
        if((c.bra.size() + 3 * c.ket.size()) % 5 == 0) in.back()->P.nshell12_clip = 1 + (int)(at % k);
        groups.emplace_back(c.bra.begin() + at, c.bra.begin() + at + k);
        at += k;
    }
    if(at < c.bra.size()) return v; // shrunk out of shape
    std::vector<const simint_multi_shellpair *> pin;
    std::vector<std::string> before;
    const bool exact = si && so && (c.bra.size() + c.ket.size()) % 2; // the callers lowered screen_max to the true maximum
    auto lower = [&](simint_multi_shellpair & P) {
        double m = 0;
        for(int k : slots(P)) m = std::max(m, P.screen[k]);
        P.screen_max = m;
    };
    if(exact)
        for(auto & p : in) lower(p->P);
    for(auto & p : in) { pin.push_back(&p->P); before.push_back(image(p->P, si)); }
    if(c.bra.size() % 3 == 0) // the same object may be joined more than once
        for(size_t i = 0; i < in.size(); i++)
            for(size_t j = 0; j < i; j++)
                if(groups[j] == groups[i]) { pin[i] = pin[j]; break; }
    SPair out;
    if(dirty == 1)
    {
        // the output object held something larger before
        std::vector<IPair> big(c.bra);
        big.insert(big.end(), c.bra.begin(), c.bra.end());
        std::vector<simint_shell> ab;
        for(auto p : big) { ab.push_back(s.v[p.first]); ab.push_back(s.v[p.second]); }
        simint_create_multi_shellpair2((int)big.size(), ab.data(), &out.P, 1);
        out.P.nshell12_clip = 1;
    }
    else if(dirty == 2)
    {
        std::vector<simint_shell> ab = {s.v[c.ket[0].first], s.v[c.ket[0].second]};
        simint_create_multi_shellpair2(1, ab.data(), &out.P, 0);
    }
    if(mode) simint_cat_shellpairs((int)pin.size(), pin.data(), &out.P, so);
    else simint_cat_multi_shellpair((int)pin.size(), pin.data(), &out.P, so);
    for(size_t i = 0; i < in.size(); i++)
        if(image(in[i]->P, si) != before[i]) v.fail(fmt("input %zu changed by concatenation", i));
    SPair want(s, c.bra, si);
    if(!so) want.P.screen = NULL;
    if(exact) lower(want.P);
    if(exact && v.ok && out.P.screen_max != want.P.screen_max) v.fail(fmt("screen_max of the concatenated set is %.17g, the largest of the inputs' is %.17g", out.P.screen_max, want.P.screen_max));
    const std::string d = diff(out.P, want.P, so != 0);
    if(!d.empty()) v.fail(std::string(mode ? "concatenated single pairs" : "concatenated pair sets") + " differ from the pair set made at once: " + d);
    if(v.ok)
    {
        const std::string pd = padding_bad(out.P, so != 0);
        if(!pd.empty()) v.fail(pd);
    }
    if(v.ok)
    {
        SPair Q(s, c.ket, so ? si : 0);
        if(exact) lower(Q.P);
        const double tol = so ? c.tol : 0;
        Run a = run_pairs(c, &out.P, &Q.P, tol), b = run_pairs(c, &want.P, &Q.P, tol);
        if(a.ret != b.ret || memcmp(a.v.data(), b.v.data(), a.v.size() * 8)) v.fail("integrals over the concatenated set differ (as bra)");
        Case cs = c;
        std::swap(cs.bra, cs.ket);
        Run e = run_pairs(cs, &Q.P, &out.P, tol), f = run_pairs(cs, &Q.P, &want.P, tol);
        if(e.ret != f.ret || memcmp(e.v.data(), f.v.data(), e.v.size() * 8)) v.fail("integrals over the concatenated set differ (as ket)");
    }
    v.nontrivial = in.size() > 1;
    if(st)
    {
        st->klass(mode ? "cat_shellpairs" : "cat_multi_shellpair");
        if(so) st->klass("with screening data");
        if(exact) st->klass("largest screening values known");
        if(dirty) st->klass("output object used before");
        if((int)c.bra.size() > SIMINT_NSHELL_SIMD) st->klass("beyond one shell batch");
    }
    return v;
}
static Reg r1("cat", gen_cat, chk_cat, "at least two inputs were concatenated");

// ------------------------------------------------------------------ histories
// iextra: records of four: operation, slot, slot, parameter
static const int NSH = 6, NPR = 4;
struct MShell { bool live = false, zero = false; std::vector<double> a, c; double x[3]; int am; };
struct MPair { bool live = false; std::string img; bool scr = false; };

static Case gen_life(Rng & r, int n)
{
    (void)n;
    Case c;
    GenOpt g;
    g.maxprim = 5;
    g.longprim = 12;
    const int L = std::min(g_maxam, 1);
    for(int i = 0; i < 6; i++) c.pool.push_back(gen_shell(r, r.range(0, L), gen_style(r), g));
    const int len = r.range(3, 40);
    for(int i = 0; i < len; i++)
    {
        static const int ops[] = {0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 4, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11};
        c.iextra.push_back(ops[r.below(22)]);
        c.iextra.push_back(r.below(24));
        c.iextra.push_back(r.below(24));
        c.iextra.push_back(r.below(1000000));
    }
    return c;
}
// A pair image made from scratch from the model's shells
static std::string fresh(const std::vector<MShell> & sh, const std::vector<IPair> & pr, int scr)
{
    std::vector<simint_shell> t(sh.size());
    for(size_t i = 0; i < sh.size(); i++)
    {
        simint_initialize_shell(&t[i]);
        if(sh[i].live) simint_create_shell((int)sh[i].a.size(), sh[i].am, sh[i].x[0], sh[i].x[1], sh[i].x[2], sh[i].a.data(), sh[i].c.data(), &t[i]);
    }
    std::vector<simint_shell> ab;
    for(auto p : pr) { ab.push_back(t[p.first]); ab.push_back(t[p.second]); }
    simint_multi_shellpair P;
    simint_initialize_multi_shellpair(&P);
    simint_create_multi_shellpair2((int)pr.size(), ab.data(), &P, scr);
    std::string s = image(P, scr);
    simint_free_multi_shellpair(&P);
    for(auto & x : t) simint_free_shell(&x);
    return s;
}
static Verdict chk_life(const Case & c, Stats * st)
{
    Verdict v;
    std::vector<simint_shell> sh(NSH);
    std::vector<simint_multi_shellpair> pr(NPR);
    memset(sh.data(), 0x5A, sizeof(simint_shell) * NSH);
    memset(pr.data(), 0x5A, sizeof(simint_multi_shellpair) * NPR);
    simint_initialize_shells(NSH, sh.data());
    simint_initialize_multi_shellpairs(NPR, pr.data());
    std::vector<MShell> ms(NSH);
    std::vector<MPair> mp(NPR);
    struct Def { std::vector<MShell> sh; std::vector<IPair> pr; };
    std::vector<Def> def(NPR);
    int did = 0, reuse = 0;
    auto where = [&](size_t i) { return fmt("step %zu (operation %d)", i / 4, c.iextra[i]); };
    for(size_t i = 0; i + 3 < c.iextra.size() && v.ok; i += 4)
    {
        const int op = c.iextra[i], a = c.iextra[i + 1], b = c.iextra[i + 2];
        Rng r(c.iextra[i + 3]);
        const int s = a % NSH, t = b % NSH, p = a % NPR, q = b % NPR;
        auto pick_pairs = [&](std::vector<IPair> & out) {
            std::vector<int> live;
            for(int k = 0; k < NSH; k++)
                if(ms[k].live && !ms[k].zero) live.push_back(k); // (a pair of two dummies is not a legal pair)
            if(live.empty()) return false;
            const int s1 = r.pick(live), s2 = r.pick(live);
            std::vector<int> c1, c2;
            for(int k : live)
            {
                if(ms[k].am == ms[s1].am) c1.push_back(k);
                if(ms[k].am == ms[s2].am) c2.push_back(k);
            }
            const int n = r.chance(0.3) ? r.range(1, 2 * SIMINT_NSHELL_SIMD + 1) : r.range(1, 4);
            for(int k = 0; k < n; k++) out.push_back({r.pick(c1), r.pick(c2)});
            return true;
        };
        switch(op)
        {
        case 0: // create a shell, possibly in a slot that holds another one
        {
            const HShell & h = c.pool[(size_t)b % c.pool.size()];
            if(ms[s].live) reuse++;
            ms[s].live = true;
            ms[s].zero = r.chance(0.1);
            if(ms[s].zero)
            {
                simint_create_zero_shell(&sh[s]);
                ms[s].am = 0; ms[s].a = {0.0}; ms[s].c = {1.0};
                ms[s].x[0] = ms[s].x[1] = ms[s].x[2] = 0;
            }
            else
            {
                simint_create_shell((int)h.a.size(), h.am, h.x[0], h.x[1], h.x[2], h.a.data(), h.c.data(), &sh[s]);
                ms[s].am = h.am; ms[s].a = h.a; ms[s].c = h.c;
                for(int d = 0; d < 3; d++) ms[s].x[d] = h.x[d];
            }
            did++;
            break;
        }
        case 1: simint_free_shell(&sh[s]); ms[s].live = false; did++; break;
        case 2: // copy
            if(ms[s].live && s != t)
            {
                if(ms[t].live) reuse++;
                simint_copy_shell(&sh[s], &sh[t]);
                ms[t] = ms[s];
                did++;
            }
            break;
        case 3: // normalize a run of live shells
        {
            int n = 0;
            while(s + n < NSH && ms[s + n].live && !ms[s + n].zero) n++;
            if(n)
            {
                n = r.range(1, n);
                simint_normalize_shells(n, &sh[s]);
                for(int k = 0; k < n; k++)
                {
                    // the model's coefficients: the same contraction normalized in long double
                    MShell & m = ms[s + k];
                    ref::Shell R;
                    R.am = m.am;
                    for(double e : m.a) R.a.push_back(e);
                    for(size_t j = 0; j < m.c.size(); j++) R.c.push_back((long double)m.c[j] * powl(m.a[j], (m.am + 1.5L) / 2));
                    ref::Out o;
                    ref::overlap(R, R, o);
                    const long double f = 1 / sqrtl(o.v[0]);
                    const long double cond = o.m[0] / o.v[0];
                    for(size_t j = 0; j < m.c.size(); j++)
                    {
                        const double want = (double)(R.c[j] * f), got = sh[s + k].coef[j];
                        if(!(std::fabs(want - got) <= 1e-13 * (1 + (double)cond) * std::fabs(want))) v.fail(where(i) + fmt(": coefficient %zu normalized to %.17g, not %.17g", j, got, want));
                        m.c[j] = got;
                    }
                }
                did++;
            }
            break;
        }
        case 4: case 9: // create a pair set, in one step or allocate then fill, in a slot used before or not
        {
            std::vector<IPair> l;
            if(!pick_pairs(l)) break;
            const int scr = r.below(3);
            if(mp[p].live) reuse++;
            int na = 0, nb = 0;
            std::vector<simint_shell> A, B, AB;
            if(r.chance(0.4))
            {
                // the product form
                na = r.range(1, 3); nb = r.range(1, 3);
                std::vector<IPair> l2;
                for(int x = 0; x < na; x++) A.push_back(sh[l[(size_t)x % l.size()].first]);
                for(int y = 0; y < nb; y++) B.push_back(sh[l[(size_t)y % l.size()].second]);
                for(int x = 0; x < na; x++)
                    for(int y = 0; y < nb; y++) l2.push_back({l[(size_t)x % l.size()].first, l[(size_t)y % l.size()].second});
                l = l2;
            }
            for(auto z : l) { AB.push_back(sh[z.first]); AB.push_back(sh[z.second]); }
            if(op == 4)
            {
                if(na) simint_create_multi_shellpair(na, A.data(), nb, B.data(), &pr[p], scr);
                else simint_create_multi_shellpair2((int)l.size(), AB.data(), &pr[p], scr);
            }
            else
            {
                if(na) { simint_allocate_multi_shellpair(na, A.data(), nb, B.data(), &pr[p], scr); simint_fill_multi_shellpair(na, A.data(), nb, B.data(), &pr[p], scr); }
                else { simint_allocate_multi_shellpair2((int)l.size(), AB.data(), &pr[p], scr); simint_fill_multi_shellpair2((int)l.size(), AB.data(), &pr[p], scr); }
            }
            mp[p].live = true; mp[p].scr = scr;
            def[p].sh = ms; def[p].pr = l;
            mp[p].img = fresh(ms, l, scr);
            did++;
            break;
        }
        case 5: simint_free_multi_shellpair(&pr[p]); mp[p].live = false; did++; break;
        case 6: // concatenate every compatible live set but the output into it
        {
            std::vector<const simint_multi_shellpair *> in;
            std::vector<int> idx;
            bool scr = true;
            for(int k = 0; k < NPR; k++)
                if(k != q && mp[k].live && (in.empty() || (pr[k].am1 == in[0]->am1 && pr[k].am2 == in[0]->am2)))
                {
                    in.push_back(&pr[k]);
                    idx.push_back(k);
                    scr = scr && mp[k].scr;
                }
            int total = 0;
            for(auto x : in) total += x->nshell12;
            if(in.empty() || total > 200) break;
            if(mp[q].live) reuse++;
            simint_cat_multi_shellpair((int)in.size(), in.data(), &pr[q], scr);
            // the model: the data of the inputs one after the other
            if(pr[q].nshell12 != total) v.fail(where(i) + fmt(": %d pairs instead of %d", pr[q].nshell12, total));
            int ab = 0, o = 0;
            for(auto x : in)
            {
                int ii = 0;
                for(int j = 0; j < x->nshell12 && v.ok; j++, ab++)
                {
                    if(pr[q].nprim12[ab] != x->nprim12[j]) { v.fail(where(i) + ": wrong number of primitives"); break; }
                    for(int k = 0; k < x->nprim12[j]; k++)
                        if(pr[q].prefac[o + k] != x->prefac[ii + k] || pr[q].alpha[o + k] != x->alpha[ii + k] || pr[q].x[o + k] != x->x[ii + k])
                            v.fail(where(i) + fmt(": primitive %d of pair %d of an input is not in its place", k, j));
                    o += x->nprim12[j];
                    ii += x->nprim12[j];
                    if((ab + 1) % SIMINT_NSHELL_SIMD == 0) o = SIMINT_SIMD_ROUND(o);
                    if((j + 1) % SIMINT_NSHELL_SIMD == 0) ii = SIMINT_SIMD_ROUND(ii);
                }
            }
            mp[q].live = true; mp[q].scr = scr;
            mp[q].img = image(pr[q], scr);
            did++;
            break;
        }
        case 7: // integrals: the same as over pair sets made from scratch
        {
            if(!mp[p].live || !mp[q].live) break;
            if((long)pr[p].nshell12 * pr[q].nshell12 > 2000) break;
            const int nn = ref::ncart(pr[p].am1) * ref::ncart(pr[p].am2) * ref::ncart(pr[q].am1) * ref::ncart(pr[q].am2);
            const size_t n = (size_t)pr[p].nshell12 * pr[q].nshell12 * nn;
            Guarded out(n), work(simint_eri_worksize(0, g_maxam));
            const int ret = simint_compute_eri(&pr[p], &pr[q], 0.0, work.p, out.p);
            if(ret != pr[p].nshell12 * pr[q].nshell12) v.fail(where(i) + fmt(": returned %d", ret));
            if(out.touched() || work.touched()) v.fail(where(i) + ": wrote outside a buffer");
            for(size_t k = 0; k < n; k++)
                if(out.p[k] != out.p[k]) { v.fail(where(i) + ": not a number"); break; }
            did++;
            break;
        }
        case 8: // change what a pair set was made from: the set keeps its own data
            if(ms[s].live)
                for(size_t k = 0; k < ms[s].c.size(); k++) { sh[s].coef[k] *= 2; ms[s].c[k] *= 2; }
            break;
        case 10: { const int n = std::min(NSH - s, 1 + t % 3); simint_free_shells(n, &sh[s]); for(int k = 0; k < n; k++) ms[s + k].live = false; break; }
        case 11: { const int n = std::min(NPR - p, 1 + q % 3); simint_free_multi_shellpairs(n, &pr[p]); for(int k = 0; k < n; k++) mp[p + k].live = false; break; }
        }
        // everything alive is what the model says
        for(int k = 0; k < NSH && v.ok; k++)
            if(ms[k].live)
            {
                const simint_shell & G = sh[k];
                bool same = G.am == ms[k].am && G.nprim == (int)ms[k].a.size() && G.x == ms[k].x[0] && G.y == ms[k].x[1] && G.z == ms[k].x[2];
                for(size_t j = 0; same && j < ms[k].a.size(); j++) same = G.alpha[j] == ms[k].a[j] && G.coef[j] == ms[k].c[j];
                if(!same) v.fail(where(i) + fmt(": shell %d is not what was put in it", k));
            }
            else if(sh[k].ptr != NULL || sh[k].memsize != 0) v.fail(where(i) + fmt(": freed shell %d not reset", k));
        for(int k = 0; k < NPR && v.ok; k++)
            if(mp[k].live)
            {
                if(image(pr[k], mp[k].scr) != mp[k].img) v.fail(where(i) + fmt(": pair set %d is not what was put in it", k));
            }
            else if(pr[k].ptr != NULL || pr[k].memsize != 0) v.fail(where(i) + fmt(": freed pair set %d not reset", k));
    }
    simint_free_shells(NSH, sh.data());
    simint_free_multi_shellpairs(NPR, pr.data());
    // freeing twice is harmless
    simint_free_shells(NSH, sh.data());
    simint_free_multi_shellpairs(NPR, pr.data());
    v.nontrivial = did >= 4 && reuse >= 1;
    if(st)
    {
        st->klass(fmt("%d-%d operations", did / 10 * 10, did / 10 * 10 + 9));
        if(reuse) st->klass("an object in use was reused");
    }
    return v;
}
static Reg r2("life", gen_life, chk_life, "at least four operations took effect and at least one object in use was reused for something else");

// ------------------------------------------------------------------ normalization
static Case gen_norm(Rng & r, int n)
{
    Case c;
    const int k = r.chance(0.01) ? r.range(5, 300) : r.range(1, 4);
    for(int i = 0; i < k; i++)
    {
        GenOpt g;
        g.maxprim = k > 4 ? 2 : 8;
        g.longprim = 16;
        g.loexp = -3; g.hiexp = r.chance(0.3) ? 7 : 3;
        c.pool.push_back(gen_shell(r, (n + i) % 21, gen_style(r), g));
    }
    c.extra = {r.logu(-6, 6) * (r.chance(0.5) ? -1 : 1)};
    return c;
}
static Verdict chk_norm(const Case & c, Stats * st)
{
    Verdict v;
    const int n = (int)c.pool.size();
    std::vector<HShell> scaled = c.pool;
    const double f = c.extra.empty() || c.extra[0] == 0 ? 1 : c.extra[0];
    for(auto & h : scaled)
        for(auto & x : h.c) x *= f;
    SShells s(c.pool), t(scaled);
    std::vector<simint_shell> before = s.v;
    simint_normalize_shells(n, s.v.data());
    simint_normalize_shells(n, t.v.data());
    for(int i = 0; i < n && v.ok; i++)
    {
        const simint_shell & G = s.v[i];
        const HShell & h = c.pool[i];
        if(memcmp(&G, &before[i], sizeof G)) v.fail("something besides the coefficients changed");
        for(size_t k = 0; k < h.a.size(); k++)
            if(G.alpha[k] != h.a[k]) v.fail("an exponent changed");
        // conditioning of the contraction: cancellation between primitives amplifies rounding
        ref::Shell raw;
        raw.am = h.am;
        for(size_t k = 0; k < h.a.size(); k++) { raw.a.push_back(h.a[k]); raw.c.push_back((long double)h.c[k] * powl(h.a[k], (h.am + 1.5L) / 2)); }
        auto self = [](const ref::Shell & S, long double & m) {
            // <x^l|x^l> = sum c c' (2l-1)!! / (2p)^l (pi/p)^1.5
            long double df = 1, sum = 0;
            m = 0;
            for(int k = 1; k <= S.am; k++) df *= 2 * k - 1;
            for(size_t x = 0; x < S.a.size(); x++)
                for(size_t y = 0; y < S.a.size(); y++)
                {
                    const long double p = S.a[x] + S.a[y];
                    const long double e = S.c[x] * S.c[y] * df / powl(2 * p, S.am) * powl(3.14159265358979323846264338327950288L / p, 1.5L);
                    sum += e;
                    m += fabsl(e);
                }
            return sum;
        };
        long double m0, m1;
        const long double s0 = self(raw, m0);
        if(!(s0 > 1e-9L * m0)) continue; // (near-)linearly dependent primitives
        const double cond = (double)(m0 / s0);
        ref::Shell N;
        N.am = h.am;
        for(size_t k = 0; k < h.a.size(); k++) { N.a.push_back(G.alpha[k]); N.c.push_back(G.coef[k]); }
        const long double one = self(N, m1);
        if(h.am <= 6)
        {
            ref::Out o;
            ref::overlap(N, N, o);
            if(!(fabsl(o.v[0] - one) <= 1e-14L * o.m[0])) { fprintf(stderr, "the two references disagree\n"); exit(3); }
        }
        if(!(std::fabs((double)(one - 1)) <= 2e-13 * cond)) v.fail(fmt("am %d: self overlap after normalization is 1%+.3g (conditioning %.2g)", h.am, (double)(one - 1), cond));
        if(st) st->err(std::fabs((double)(one - 1)) / (2e-13 * cond), fmt("am %d", h.am));
        // only an overall factor besides the primitive normalization a^(l/2+3/4)
        for(size_t k = 0; k < h.a.size(); k++)
        {
            const double want = (double)(raw.c[k] / sqrtl(s0));
            if(!(std::fabs(G.coef[k] - want) <= 2e-13 * cond * std::fabs(want))) v.fail(fmt("am %d coefficient %zu: %.17g, expected %.17g", h.am, k, G.coef[k], want));
            // independent of a common factor, up to its sign
            const double w2 = (f < 0 ? -1 : 1) * t.v[i].coef[k];
            if(!(std::fabs(G.coef[k] - w2) <= 2e-13 * cond * std::fabs(G.coef[k]))) v.fail(fmt("am %d coefficient %zu depends on a common factor %g: %.17g, %.17g", h.am, k, f, G.coef[k], w2));
        }
        v.nontrivial = true;
        if(st) st->klass(fmt("am %d", h.am));
    }
    return v;
}
static Reg r3("norm", gen_norm, chk_norm, "the contraction is not linearly dependent to nine digits, so its norm is well defined");
