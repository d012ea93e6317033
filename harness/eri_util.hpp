// Pieces shared by the checkers that call the ERI entry points.
#pragma once
#include "common.hpp"

static const double TINY = 1e-280;

inline std::string am4(const Case & c)
{
    return fmt("(%d %d|%d %d)", c.pool[c.bra[0].first].am, c.pool[c.bra[0].second].am, c.pool[c.ket[0].first].am, c.pool[c.ket[0].second].am);
}

// compare a block with the reference; stops at the first bad element
inline bool block_vs_ref(const double * got, const ref::Out & o, double tol, double slack, Verdict & v, Stats * st, const std::string & where, const double * extra = NULL)
{
    for(size_t k = 0; k < o.v.size(); k++)
    {
        const double m = (double)o.m[k], r = (double)o.v[k];
        const double err = std::fabs(got[k] - r), free = slack + (extra ? extra[k] : 0);
        if(!(err <= tol * m + free + TINY))
        {
            v.fail(fmt("%s element %zu: computed %.17g, exact %.17g, error %.3g = %.3g of the term magnitude %.3g (allowed %.1g, plus %.3g for screening)",
                       where.c_str(), k, got[k], r, err, err / m, m, tol, free));
            return false;
        }
        if(st && m > 1e-200 && free == 0) st->err(err / m / tol, where);
        if(std::fabs(r) > 1e-6 * m && m > 1e-100) v.nontrivial = true;
    }
    return true;
}

inline void ref_block(const Case & c, IPair ab, IPair cd, ref::Out & o)
{
    const ref::Shell A = c.pool[ab.first].toref(), B = c.pool[ab.second].toref(), C = c.pool[cd.first].toref(), D = c.pool[cd.second].toref();
    if(c.deriv) ref::eri_deriv1(A, B, C, D, o);
    else ref::eri(A, B, C, D, o);
}

// The reference for every distinct (pair, pair) of a batch, computed once.
struct RefCache
{
    const Case & c;
    std::map<std::pair<IPair, IPair>, ref::Out> m;
    explicit RefCache(const Case & c_) : c(c_) {}
    const ref::Out & get(int ab, int cd)
    {
        auto k = std::make_pair(c.bra[ab], c.ket[cd]);
        auto it = m.find(k);
        if(it != m.end()) return it->second;
        ref::Out o;
        ref_block(c, c.bra[ab], c.ket[cd], o);
        return m[k] = std::move(o);
    }
};

inline int per_of(const Case & c) { return ncart_of(c) * (c.deriv ? 12 : 1); }

struct Run
{
    int ret = -2;
    std::vector<double> v;
    long out_guard = 0, work_guard = 0;
};
inline Run run_pairs(const Case & c, const simint_multi_shellpair * P, const simint_multi_shellpair * Q, double tol,
                     uint64_t pat = 0x7ff8dead0000beefULL)
{
    const int per = per_of(c);
    const size_t n = (size_t)P->nshell12_clip * Q->nshell12_clip * per;
    Guarded out(n, pat), work(simint_eri_worksize(c.deriv, maxam_of(c)), pat);
    Run r;
    r.ret = call_eri(c.deriv, P, Q, tol, work.p, out.p);
    r.v.assign(out.p, out.p + n);
    r.out_guard = out.touched();
    r.work_guard = work.touched();
    return r;
}
inline void guards_ok(const Run & r, Verdict & v)
{
    if(r.out_guard) v.fail(fmt("wrote outside the result buffer: canary %ld", r.out_guard));
    if(r.work_guard) v.fail(fmt("wrote outside the advertised workspace: canary %ld", r.work_guard));
}
