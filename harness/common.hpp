// Shared machinery of the harness: seeded generators, cases and their text
// form (the replay file), guarded buffers, shrinking, and statistics.
#pragma once
#include "simint/simint.h"
#include "ref.hpp"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

struct Rng
{
    uint64_t s[2];
    static uint64_t splitmix(uint64_t & x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * u(); }
    double logu(double lo10, double hi10) { return std::pow(10.0, uni(lo10, hi10)); }
    bool chance(double p) { return u() < p; }
    template <class T> const T & pick(const std::vector<T> & v) { return v[below((int)v.size())]; }
};

inline double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct HShell
{
    int am = 0;
    double x[3] = {0, 0, 0};
    std::vector<double> a, c;
    bool zero = false; // the dummy shell of simint_create_zero_shell
    ref::Shell toref() const
    {
        ref::Shell r;
        r.am = am;
        for(int d = 0; d < 3; d++) r.x[d] = x[d];
        for(double v : a) r.a.push_back(v);
        for(double v : c) r.c.push_back(v);
        return r;
    }
};

typedef std::pair<int, int> IPair;

struct Case
{
    std::string kind;
    int deriv = 0;
    std::vector<HShell> pool;
    std::vector<IPair> bra, ket;
    int scrP = 0, scrQ = 0;
    double tol = 0;
    int clipP = -1, clipQ = -1;
    std::vector<double> extra; // meaning depends on the property
    std::vector<int> iextra;

    std::string text() const
    {
        char b[64];
        std::string s = "kind " + kind + "\n";
        auto D = [&](double v) { snprintf(b, sizeof b, " %a", v); return std::string(b); };
        s += "deriv " + std::to_string(deriv) + "\n";
        s += "screen " + std::to_string(scrP) + " " + std::to_string(scrQ) + D(tol) + "\n";
        s += "clip " + std::to_string(clipP) + " " + std::to_string(clipQ) + "\n";
        for(const auto & h : pool)
        {
            s += "shell " + std::to_string(h.am) + " " + std::to_string((int)h.zero) + " " + std::to_string(h.a.size());
            for(int d = 0; d < 3; d++) s += D(h.x[d]);
            for(double v : h.a) s += D(v);
            for(double v : h.c) s += D(v);
            s += "\n";
        }
        for(auto p : bra) s += "bra " + std::to_string(p.first) + " " + std::to_string(p.second) + "\n";
        for(auto p : ket) s += "ket " + std::to_string(p.first) + " " + std::to_string(p.second) + "\n";
        if(!extra.empty())
        {
            s += "extra";
            for(double v : extra) s += D(v);
            s += "\n";
        }
        if(!iextra.empty())
        {
            s += "iextra";
            for(int v : iextra) s += " " + std::to_string(v);
            s += "\n";
        }
        return s;
    }
    static double rd(std::istringstream & is)
    {
        std::string t;
        is >> t;
        return strtod(t.c_str(), nullptr);
    }
    bool parse(const std::string & txt)
    {
        std::istringstream f(txt);
        std::string line;
        bool any = false;
        while(std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if(k.empty() || k[0] == '#') continue;
            any = true;
            if(k == "kind") is >> kind;
            else if(k == "deriv") is >> deriv;
            else if(k == "screen") { is >> scrP >> scrQ; tol = rd(is); }
            else if(k == "clip") is >> clipP >> clipQ;
            else if(k == "shell")
            {
                HShell h;
                int z, n;
                is >> h.am >> z >> n;
                h.zero = z;
                for(int d = 0; d < 3; d++) h.x[d] = rd(is);
                for(int i = 0; i < n; i++) h.a.push_back(rd(is));
                for(int i = 0; i < n; i++) h.c.push_back(rd(is));
                pool.push_back(h);
            }
            else if(k == "bra") { IPair p; is >> p.first >> p.second; bra.push_back(p); }
            else if(k == "ket") { IPair p; is >> p.first >> p.second; ket.push_back(p); }
            else if(k == "extra") { std::string t; while(is >> t) extra.push_back(strtod(t.c_str(), nullptr)); }
            else if(k == "iextra") { int v; while(is >> v) iextra.push_back(v); }
        }
        return any;
    }
    std::string brief() const
    {
        char b[200];
        std::string s;
        if(!bra.empty() && !ket.empty())
        {
            snprintf(b, sizeof b, "(%d %d|%d %d) d%d bra=%zu ket=%zu clip=%d,%d scr=%d,%d tol=%.1e nprim=", pool[bra[0].first].am,
                     pool[bra[0].second].am, pool[ket[0].first].am, pool[ket[0].second].am, deriv, bra.size(), ket.size(), clipP, clipQ,
                     scrP, scrQ, tol);
            s = b;
            for(const auto & h : pool) s += std::to_string(h.a.size());
        }
        else
        {
            s = kind;
            for(const auto & h : pool)
            {
                snprintf(b, sizeof b, " [am %d, %zu prim]", h.am, h.a.size());
                s += b;
            }
            for(size_t i = 0; i < extra.size() && i < 6; i++) { snprintf(b, sizeof b, " %.6g", extra[i]); s += b; }
            for(size_t i = 0; i < iextra.size() && i < 12; i++) s += " " + std::to_string(iextra[i]);
        }
        return s;
    }
};

// ---------------------------------------------------------------- generators
struct GenOpt
{
    int maxprim = 4;
    double loexp = -1.3, hiexp = 3.0;
    bool allow_zero_coef = false;
    int longprim = 0;      // now and then a contraction of up to this many primitives
    double plong = 0.04;
};

inline void gen_center(Rng & r, int style, double * x)
{
    switch(style)
    {
    case 0: for(int d = 0; d < 3; d++) x[d] = 0; break;                         // one centre
    case 1: for(int d = 0; d < 3; d++) x[d] = r.uni(-1.5, 1.5); break;          // molecule-like
    case 2: for(int d = 0; d < 3; d++) x[d] = d == 2 ? r.uni(-3, 3) : 0; break; // collinear
    case 3: for(int d = 0; d < 3; d++) x[d] = r.uni(-6, 6); break;              // spread out
    case 4: for(int d = 0; d < 3; d++) x[d] = r.range(-1, 1); break;            // lattice (coincidences)
    case 5: for(int d = 0; d < 3; d++) x[d] = r.uni(-1e-5, 1e-5); break;        // nearly coincident
    case 7: for(int d = 0; d < 3; d++) x[d] = 15 * r.range(-1, 1); break;       // far apart, with coincidences
    default: for(int d = 0; d < 3; d++) x[d] = 20 + r.uni(-1, 1); break;        // far from the origin
    }
}

inline HShell gen_shell(Rng & r, int am, int style, const GenOpt & g)
{
    HShell h;
    h.am = am;
    gen_center(r, style, h.x);
    int n = 1;
    if(g.maxprim > 1 && !r.chance(0.35)) n = r.range(1, g.maxprim);
    if(g.longprim > g.maxprim && r.chance(g.plong)) n = r.range(g.maxprim + 1, g.longprim >= 12 && r.chance(0.06) ? 40 : g.longprim);
    double base = r.uni(g.loexp, g.hiexp);
    bool cluster = r.chance(0.5);
    const bool plain = r.chance(0.06);              // exponents and coefficients that coincide exactly
    const bool spread = n > 1 && r.chance(0.06);    // coefficients of very different size
    const double scale = r.chance(0.04) ? r.logu(-8, 4) : 1;
    for(int i = 0; i < n; i++)
    {
        double e = cluster ? std::min(g.hiexp, std::max(g.loexp, base + r.uni(-1, 1))) : r.uni(g.loexp, g.hiexp);
        h.a.push_back(plain ? std::ldexp(1.0, r.range(-2, 3)) : std::pow(10.0, e));
        double c = plain ? 1 : r.uni(0.1, 1.5) * (r.chance(0.3) ? -1 : 1);
        if(spread) c *= r.logu(-7, 2);
        if(g.allow_zero_coef && r.chance(0.05)) c = 0;
        h.c.push_back(c * scale);
    }
    return h;
}

// A shell that differs from another one in a single respect.
inline HShell near_copy(Rng & r, const HShell & o)
{
    HShell h = o;
    const size_t k = (size_t)r.below((int)h.a.size());
    switch(r.below(5))
    {
    case 0: h.a[k] *= 1 + r.uni(0.05, 0.6); break;
    case 1: h.c[k] = h.c[k] * r.uni(0.2, 0.8) + 0.05; break;
    case 2: h.c[k] = -h.c[k] - 0.01; break;
    default: h.x[r.below(3)] += r.uni(0.1, 1.2) * (r.chance(0.5) ? -1 : 1); break;
    }
    return h;
}

inline int gen_style(Rng & r) { static const int w[] = {0, 1, 1, 1, 1, 1, 2, 3, 3, 4, 4, 5, 6, 7}; return w[r.below(14)]; }

// ---------------------------------------------------------------- simint side
struct SShells
{
    std::vector<simint_shell> v;
    explicit SShells(const std::vector<HShell> & pool) : v(pool.size())
    {
        for(size_t i = 0; i < pool.size(); i++)
        {
            simint_initialize_shell(&v[i]);
            if(pool[i].zero) simint_create_zero_shell(&v[i]);
            else
                simint_create_shell((int)pool[i].a.size(), pool[i].am, pool[i].x[0], pool[i].x[1], pool[i].x[2], pool[i].a.data(),
                                    pool[i].c.data(), &v[i]);
        }
    }
    ~SShells()
    {
        for(auto & s : v) simint_free_shell(&s);
    }
    SShells(const SShells &) = delete;
    SShells & operator=(const SShells &) = delete;
};

struct SPair
{
    simint_multi_shellpair P;
    SPair() { memset(&P, 0xA5, sizeof P); simint_initialize_multi_shellpair(&P); }
    SPair(const SShells & s, const std::vector<IPair> & pr, int screen) : SPair()
    {
        std::vector<simint_shell> ab;
        for(auto p : pr)
        {
            ab.push_back(s.v[p.first]);
            ab.push_back(s.v[p.second]);
        }
        simint_create_multi_shellpair2((int)pr.size(), ab.data(), &P, screen);
    }
    ~SPair() { simint_free_multi_shellpair(&P); }
    SPair(const SPair &) = delete;
    SPair & operator=(const SPair &) = delete;
};

// A buffer with canaries on both sides, aligned for the widest vector.
struct Guarded
{
    static const size_t G = 512; // doubles on each side
    double * raw = nullptr;
    double * p = nullptr;
    size_t n;
    uint64_t pat;
    explicit Guarded(size_t n_, uint64_t pat_ = 0x7ff8dead0000beefULL) : n(n_), pat(pat_)
    {
        size_t bytes = (n + 2 * G) * sizeof(double);
        bytes = (bytes + 63) / 64 * 64;
        raw = (double *)aligned_alloc(64, bytes);
        for(size_t i = 0; i < n + 2 * G; i++) memcpy(raw + i, &pat, 8);
        p = raw + G;
    }
    // first touched canary (relative index) or 0 when intact
    long touched() const
    {
        for(size_t i = 0; i < G; i++)
        {
            if(memcmp(raw + i, &pat, 8)) return -(long)(G - i);
            if(memcmp(raw + G + n + i, &pat, 8)) return (long)i + 1;
        }
        return 0;
    }
    ~Guarded() { free(raw); }
    Guarded(const Guarded &) = delete;
    Guarded & operator=(const Guarded &) = delete;
};

inline int ncart_of(const Case & c)
{
    return ref::ncart(c.pool[c.bra[0].first].am) * ref::ncart(c.pool[c.bra[0].second].am) * ref::ncart(c.pool[c.ket[0].first].am) *
           ref::ncart(c.pool[c.ket[0].second].am);
}
inline int maxam_of(const Case & c)
{
    int m = 0;
    for(auto v : {&c.bra, &c.ket})
        for(auto p : *v) m = std::max(m, std::max(c.pool[p.first].am, c.pool[p.second].am));
    return m;
}

inline int call_eri(int deriv, const simint_multi_shellpair * P, const simint_multi_shellpair * Q, double tol, double * work, double * out)
{
    return deriv ? simint_compute_eri_deriv(deriv, P, Q, tol, work, out) : simint_compute_eri(P, Q, tol, work, out);
}

// ---------------------------------------------------------------- results
struct Stats
{
    long evals = 0, nontrivial = 0;
    std::set<std::string> distinct;
    std::vector<std::string> samples;
    std::map<std::string, long> classes;
    double worst = 0; // largest error in units of the tolerance
    std::string worst_at;
    void klass(const std::string & k) { classes[k]++; }
    void err(double e, const std::string & where)
    {
        if(e > worst) { worst = e; worst_at = where; }
    }
};

struct Verdict
{
    bool ok = true;
    std::string msg;
    bool nontrivial = false;
    void fail(const std::string & m)
    {
        if(ok) { ok = false; msg = m; }
    }
};

inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char * f, ...)
{
    char b[1000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

typedef std::function<Verdict(const Case &, Stats *)> Checker;
typedef std::function<Case(Rng &, int)> Generator;

// A case is still well formed after an edit?
inline bool wellformed(const Case & c)
{
    for(auto v : {&c.bra, &c.ket})
        for(auto p : *v)
            if(p.first >= (int)c.pool.size() || p.second >= (int)c.pool.size()) return false;
    for(const auto & h : c.pool)
        if(h.a.empty() || h.a.size() != h.c.size()) return false;
    return true;
}

// Greedy shrinking of a failing ERI-style case.
Case shrink(Case c, const Checker & chk, double seconds);

struct Property
{
    Generator gen;
    Checker chk;
    std::string rule;
    bool shrinkable = true;
};
std::map<std::string, Property> & registry();
struct Reg
{
    Reg(const char * n, Generator g, Checker c, const char * rule, bool shr = true)
    {
        Property p;
        p.gen = g; p.chk = c; p.rule = rule; p.shrinkable = shr;
        registry()[n] = p;
    }
};

extern int g_maxam, g_minam; // highest AM used; quartets all below g_minam are skipped
extern int g_thorough;
extern int g_shard, g_nshard;               // this process takes every g_nshard-th quartet of the walk
extern std::set<std::string> g_real;         // partial libraries: quartets with real code, "1:4321" for a derivative
extern std::vector<std::string> g_quartets; // when given, only these quartets exist ("4321")
extern double g_tol;      // error allowed, in units of the majorant
