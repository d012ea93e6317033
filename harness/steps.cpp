// The recursion steps of the library against the quantities they relate: for a fixed quadrature point the
// integrals are moments of Gaussians, so every term of a vertical step is known in closed form; the two sides of a
// horizontal step are products of powers. Everything is computed in quadruple precision and rounded.
#include "simint/simint.h"
#include "simint/ostei/ostei_general.h"
#include "simint/vectorization/vectorization.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef __float128 quad;
typedef SIMINT_DBLTYPE vec;
static const int NL = SIMINT_SIMD_LEN;

struct Rng
{
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double uni() { return (next() >> 11) * 0x1p-53; }
    int below(int n) { return (int)(next() % (uint64_t)n); }
};

static inline int nc(int l) { return l < 0 ? 0 : (l + 1) * (l + 2) / 2; }

struct Cart { int e[3]; };
static const std::vector<Cart> & carts(int l)
{
    static std::vector<Cart> t[24];
    if(t[l].empty())
        for(int a = 0; a <= l; a++)
            for(int b = 0; b <= a; b++)
                t[l].push_back({{l - a, a - b, b}});
    return t[l];
}

// a step: kind V or H, the centre that is incremented, the angular momenta of the target
struct Step { char kind, dir; int am[4]; bool general; };

enum { F_N1 = 1, F_OTHER1 = 2, F_SMALL = 4, F_UNIT = 8, F_SAME = 16 };

struct Buf
{
    static const int G = 32;
    std::vector<double> store;
    double * p;
    size_t n;
    double fill;
    Buf(size_t n_, double f) : store(n_ + 2 * G + 16, f), n(n_), fill(f)
    {
        p = store.data() + G;
        while(reinterpret_cast<uintptr_t>(p) % 64) p++;
    }
    bool intact() const
    {
        for(const double * q = store.data(); q < store.data() + store.size(); q++)
            if((q < p || q >= p + n) && memcmp(q, &fill, 8))
                return false;
        return true;
    }
};

struct Lane
{
    double X[4][3];                     // A B C D
    double PX[4][3];                    // P-A, P-B, Q-C, Q-D
    double one_over_2p, one_over_2q, one_over_2pq, a_over_p, a_over_q, aop[3], aoq[3];
    quad t2, v1, v2, cov, mu1[3], mu2[3];
    std::vector<quad> tab[3];           // 1D integrals
    int d[4];
    quad one(int dim, const int * e) const { return tab[dim][((e[0] * d[1] + e[1]) * d[2] + e[2]) * d[3] + e[3]]; }
};

struct Args
{
    Step s;
    int num_n, ncart;                   // orders; size of the other side of a horizontal step
    int other[2];
    std::vector<Lane> lane;
    std::vector<double> w;              // horizontal: one point and weight for each index of the other side
    std::vector<double> pt;
    double XY[3];
    std::map<std::vector<int>, std::unique_ptr<Buf>> in;
    std::unique_ptr<Buf> outb;
    std::vector<std::unique_ptr<Buf>> scal;

    quad value(int l, const int * am, const Cart * c, int n) const
    {
        quad v = 1;
        for(int k = 0; k < n; k++)
            v *= lane[l].t2;
        for(int d = 0; d < 3; d++)
        {
            int e[4] = {c[0].e[d], c[1].e[d], c[2].e[d], c[3].e[d]};
            v *= lane[l].one(d, e);
        }
        return v;
    }
    quad hvalue(int o, const Cart & a, const Cart & b) const
    {
        quad v = w[o];
        for(int d = 0; d < 3; d++)
        {
            const quad x = (quad)pt[3 * o + d] - lane[0].X[0][d], y = (quad)pt[3 * o + d] - lane[0].X[1][d];
            for(int k = 0; k < a.e[d]; k++) v *= x;
            for(int k = 0; k < b.e[d]; k++) v *= y;
        }
        return v;
    }
    // the values of one class of integrals, for orders 0..num_n
    vec * arr(int i, int j, int k, int l)
    {
        if(i < 0 || j < 0 || k < 0 || l < 0)
            return nullptr;
        auto & b = in[{i, j, k, l}];
        if(!b)
        {
            const int am[4] = {i, j, k, l};
            const size_t m = (size_t)nc(i) * nc(j) * nc(k) * nc(l);
            b.reset(new Buf(m * (num_n + 1) * NL, NAN));
            for(int n = 0; n <= num_n; n++)
            {
                size_t x = n * m;
                for(auto & a : carts(i)) for(auto & bb : carts(j)) for(auto & c : carts(k)) for(auto & d : carts(l))
                {
                    const Cart q[4] = {a, bb, c, d};
                    for(int ln = 0; ln < NL; ln++)
                        b->p[x * NL + ln] = (double)value(ln, am, q, n);
                    x++;
                }
            }
        }
        return (vec *)b->p;
    }
    // (a b| of a horizontal step, or |a b)
    double * harr(int a, int b)
    {
        if(a < 0 || b < 0)
            return nullptr;
        auto & f = in[{a, b}];
        if(!f)
        {
            const int na = nc(a), nb = nc(b);
            f.reset(new Buf((size_t)na * nb * ncart, NAN));
            const bool bra = s.dir == 'I' || s.dir == 'J';
            for(int x = 0; x < na; x++)
                for(int y = 0; y < nb; y++)
                    for(int o = 0; o < ncart; o++)
                        f->p[bra ? (x * nb + y) * ncart + o : (o * na + x) * nb + y] = (double)hvalue(o, carts(a)[x], carts(b)[y]);
        }
        return f->p;
    }
    vec * out() { return (vec *)outb->p; }
    double * hout() { return outb->p; }
    const vec * scalars(const std::function<double(const Lane &, int)> & f, int n)
    {
        scal.emplace_back(new Buf((size_t)n * NL, NAN));
        for(int k = 0; k < n; k++)
            for(int l = 0; l < NL; l++)
                scal.back()->p[k * NL + l] = f(lane[l], k);
        return (const vec *)scal.back()->p;
    }
    vec sc(double Lane::*m) { return *scalars([&](const Lane & x, int) { return x.*m; }, 1); }
    const vec * dist(int c) { return scalars([&](const Lane & x, int k) { return x.PX[c][k]; }, 3); }
    const vec * aop() { return scalars([&](const Lane & x, int k) { return x.aop[k]; }, 3); }
    const vec * aoq() { return scalars([&](const Lane & x, int k) { return x.aoq[k]; }, 3); }
};

typedef void (*Fn)(Args &);
struct Entry { Step s; Fn f; };
extern const Entry generated[];
extern const int ngenerated;

static void moments(Lane & L, const Step & s)
{
    for(int c = 0; c < 4; c++)
        L.d[c] = s.am[c] + 1;
    const int n1 = s.am[0] + s.am[1], n2 = s.am[2] + s.am[3];
    // central moments E[u^m v^n]
    std::vector<std::vector<quad>> M(n1 + 1, std::vector<quad>(n2 + 1, 0));
    for(int m = 0; m <= n1; m++)
        for(int n = 0; n <= n2; n++)
        {
            if(m == 0 && n == 0)
                M[m][n] = 1;
            else if(m > 0)
                M[m][n] = (m > 1 ? (m - 1) * L.v1 * M[m - 2][n] : (quad)0) + (n > 0 ? n * L.cov * M[m - 1][n - 1] : (quad)0);
            else
                M[m][n] = n > 1 ? (n - 1) * L.v2 * M[0][n - 2] : (quad)0;
        }
    auto poly = [](int a, int b, quad x, quad y)
    {
        std::vector<quad> p(1, 1);
        for(int k = 0; k < a + b; k++)
        {
            const quad z = k < a ? x : y;
            p.push_back(0);
            for(int i = (int)p.size() - 1; i > 0; i--)
                p[i] = p[i] * z + p[i - 1];
            p[0] *= z;
        }
        return p;
    };
    for(int dim = 0; dim < 3; dim++)
    {
        L.tab[dim].assign((size_t)L.d[0] * L.d[1] * L.d[2] * L.d[3], 0);
        size_t x = 0;
        for(int a = 0; a < L.d[0]; a++) for(int b = 0; b < L.d[1]; b++)
        {
            const auto p = poly(a, b, L.mu1[dim] - L.X[0][dim], L.mu1[dim] - L.X[1][dim]);
            std::vector<quad> row(n2 + 1, 0);
            for(int n = 0; n <= n2; n++)
                for(int m = 0; m < (int)p.size(); m++)
                    row[n] += p[m] * M[m][n];
            for(int c = 0; c < L.d[2]; c++) for(int d = 0; d < L.d[3]; d++)
            {
                const auto q = poly(c, d, L.mu2[dim] - L.X[2][dim], L.mu2[dim] - L.X[3][dim]);
                quad v = 0;
                for(int n = 0; n < (int)q.size(); n++)
                    v += q[n] * row[n];
                L.tab[dim][x++] = v;
            }
        }
    }
}

static void make(Args & A, const Step & s, uint64_t seed, int flags)
{
    Rng r{seed};
    A.s = s;
    A.num_n = 1 + r.below(s.am[0] + s.am[1] + s.am[2] + s.am[3] > 12 ? 2 : 5);
    if(flags & F_N1) A.num_n = 1;
    const int lim = s.am[0] + s.am[1] + s.am[2] + s.am[3] > 10 ? 4 : 7;
    for(int k = 0; k < 2; k++)
    {
        A.other[k] = r.below(3) == 0 ? r.below(lim) : r.below(3);
        if(flags & F_OTHER1) A.other[k] = 0;
    }
    if(s.kind == 'H' && s.am[0] + s.am[1] + s.am[2] + s.am[3] < 12 && r.below(8) == 0 && !(flags & F_OTHER1))
    {
        A.other[0] = 8 + r.below(9);
        A.other[1] = 0;
    }
    if(s.kind == 'H' && flags >> 8)             // one shell on the other side
    {
        A.other[0] = (flags >> 8) - 1;
        A.other[1] = 0;
    }
    A.ncart = nc(A.other[0]) * nc(A.other[1]);
    auto coord = [&](double w) { const double x = (2 * r.uni() - 1) * w; return flags & F_SMALL ? (double)(int)(x * 2) : x; };
    A.lane.resize(NL);
    for(int l = 0; l < NL; l++)
    {
        Lane & L = A.lane[l];
        if(l && (flags & F_SAME)) { L = A.lane[0]; continue; }
        double P[3], Q[3];
        const int style = r.below(6);
        for(int d = 0; d < 3; d++)
        {
            for(int c = 0; c < 4; c++)
                L.X[c][d] = coord(1.5);
            P[d] = coord(1.5);
            Q[d] = coord(1.5);
            if(style == 0) P[d] = L.X[0][d];
            if(style == 1) Q[d] = P[d];
            if(style == 2 && d == 1) P[d] = L.X[s.dir - 'I'][d];
        }
        double p = std::pow(10.0, 2 * r.uni() - 1), q = std::pow(10.0, 2 * r.uni() - 1), t = 0.05 + 0.9 * r.uni();
        if(flags & F_UNIT) { p = q = 1; t = 0.5; }
        const quad rho = (quad)p * q / ((quad)p + q);
        L.t2 = t;
        L.one_over_2p = (double)(1 / (2 * (quad)p));
        L.one_over_2q = (double)(1 / (2 * (quad)q));
        L.one_over_2pq = (double)(1 / (2 * ((quad)p + q)));
        L.a_over_p = (double)(-rho / p);
        L.a_over_q = (double)(-rho / q);
        L.v1 = (1 - rho / p * L.t2) / (2 * (quad)p);
        L.v2 = (1 - rho / q * L.t2) / (2 * (quad)q);
        L.cov = L.t2 / (2 * ((quad)p + q));
        for(int d = 0; d < 3; d++)
        {
            const quad PQ = (quad)P[d] - Q[d];
            L.aop[d] = (double)(-rho / p * PQ);
            L.aoq[d] = (double)(rho / q * PQ);
            L.mu1[d] = P[d] - rho / p * L.t2 * PQ;
            L.mu2[d] = Q[d] + rho / q * L.t2 * PQ;
            for(int c = 0; c < 4; c++)
                L.PX[c][d] = (double)((quad)(c < 2 ? P[d] : Q[d]) - L.X[c][d]);
        }
    }
    if(s.kind == 'V')
    {
        for(int l = 0; l < NL; l++)
            moments(A.lane[l], s);
        size_t m = NL;
        for(int c = 0; c < 4; c++) m *= nc(s.am[c]);
        A.outb.reset(new Buf(m * A.num_n, -7.25e77));
    }
    else
    {
        for(int o = 0; o < A.ncart; o++)
        {
            A.w.push_back(flags & F_UNIT ? 1 + o : std::pow(10.0, 4 * r.uni() - 2));
            for(int d = 0; d < 3; d++) A.pt.push_back(coord(2));
        }
        for(int d = 0; d < 3; d++) A.XY[d] = (double)((quad)A.lane[0].X[0][d] - A.lane[0].X[1][d]);
        const int * am = s.dir == 'I' || s.dir == 'J' ? s.am : s.am + 2;
        A.outb.reset(new Buf((size_t)nc(am[0]) * nc(am[1]) * A.ncart, -7.25e77));
    }
}

static void call_general(Args & A)
{
    const int * m = A.s.am;
    const int i = m[0], j = m[1], k = m[2], l = m[3];
    if(A.s.kind == 'H')
    {
        const int a = A.other[0], b = A.other[1];
        switch(A.s.dir)
        {
            case 'I': ostei_general_hrr_I(i, j, a, b, A.XY, A.harr(i - 1, j + 1), A.harr(i - 1, j), A.hout()); break;
            case 'J': ostei_general_hrr_J(i, j, a, b, A.XY, A.harr(i + 1, j - 1), A.harr(i, j - 1), A.hout()); break;
            case 'K': ostei_general_hrr_K(a, b, k, l, A.XY, A.harr(k - 1, l + 1), A.harr(k - 1, l), A.hout()); break;
            case 'L': ostei_general_hrr_L(a, b, k, l, A.XY, A.harr(k + 1, l - 1), A.harr(k, l - 1), A.hout()); break;
        }
        return;
    }
    const bool bra = A.s.dir == 'I' || A.s.dir == 'J';
    const vec o2 = A.sc(bra ? &Lane::one_over_2p : &Lane::one_over_2q), ao = A.sc(bra ? &Lane::a_over_p : &Lane::a_over_q), o2pq = A.sc(&Lane::one_over_2pq);
    const vec * apq = bra ? A.aop() : A.aoq(), * px = A.dist(A.s.dir - 'I');
    const int zeros = !i + !j + !k + !l;
    vec * out = A.out();
    switch(A.s.dir)
    {
        case 'I':
            if(zeros == 3) ostei_general_vrr1_I(i, A.num_n, o2, ao, apq, px, A.arr(i-1,j,k,l), A.arr(i-2,j,k,l), out);
            else ostei_general_vrr_I(i, j, k, l, A.num_n, o2, ao, o2pq, apq, px, A.arr(i-1,j,k,l), A.arr(i-2,j,k,l), A.arr(i-1,j-1,k,l), A.arr(i-1,j,k-1,l), A.arr(i-1,j,k,l-1), out);
            break;
        case 'J':
            if(zeros == 3) ostei_general_vrr1_J(j, A.num_n, o2, ao, apq, px, A.arr(i,j-1,k,l), A.arr(i,j-2,k,l), out);
            else ostei_general_vrr_J(i, j, k, l, A.num_n, o2, ao, o2pq, apq, px, A.arr(i,j-1,k,l), A.arr(i-1,j-1,k,l), A.arr(i,j-2,k,l), A.arr(i,j-1,k-1,l), A.arr(i,j-1,k,l-1), out);
            break;
        case 'K':
            if(zeros == 3) ostei_general_vrr1_K(k, A.num_n, o2, ao, apq, px, A.arr(i,j,k-1,l), A.arr(i,j,k-2,l), out);
            else ostei_general_vrr_K(i, j, k, l, A.num_n, o2, ao, o2pq, apq, px, A.arr(i,j,k-1,l), A.arr(i,j,k-2,l), A.arr(i,j,k-1,l-1), A.arr(i-1,j,k-1,l), A.arr(i,j-1,k-1,l), out);
            break;
        case 'L':
            if(zeros == 3) ostei_general_vrr1_L(l, A.num_n, o2, ao, apq, px, A.arr(i,j,k,l-1), A.arr(i,j,k,l-2), out);
            else ostei_general_vrr_L(i, j, k, l, A.num_n, o2, ao, o2pq, apq, px, A.arr(i,j,k,l-1), A.arr(i,j,k-1,l-1), A.arr(i,j,k,l-2), A.arr(i-1,j,k,l-1), A.arr(i,j-1,k,l-1), out);
            break;
    }
}

static double worst = 0;

// empty when the step is right
static std::string examine(Args & A)
{
    char msg[400];
    const Step & s = A.s;
    if(!A.outb->intact()) return "writes outside of its result";
    for(auto & x : A.in)
        if(!x.second->intact()) return "writes outside of its input";
    const int c0 = s.dir - 'I';
    if(s.kind == 'H')
    {
        const bool bra = c0 < 2;
        const int a = s.am[bra ? 0 : 2], b = s.am[bra ? 1 : 3], na = nc(a), nb = nc(b);
        const bool left = s.dir == 'I' || s.dir == 'K';
        for(int x = 0; x < na; x++)
            for(int y = 0; y < nb; y++)
                for(int o = 0; o < A.ncart; o++)
                {
                    const Cart & ca = carts(a)[x], & cb = carts(b)[y];
                    const double want = (double)A.hvalue(o, ca, cb);
                    const double got = A.outb->p[bra ? (x * nb + y) * A.ncart + o : (o * na + x) * nb + y];
                    double maj = 0;
                    for(int d = 0; d < 3; d++)
                    {
                        Cart u = ca, v = cb;
                        if((left ? u : v).e[d]-- == 0) continue;
                        const double t2 = (double)A.hvalue(o, u, v);
                        (left ? v : u).e[d]++;
                        maj = std::max(maj, std::fabs((double)A.hvalue(o, u, v)) + std::fabs(A.XY[d] * t2));
                    }
                    const double tol = 3e-15 * maj;
                    if(maj > 0) worst = std::max(worst, std::fabs(got - want) / tol);
                    if(!(std::fabs(got - want) <= tol))
                    {
                        snprintf(msg, sizeof(msg), "component %d %d (x%dy%dz%d x%dy%dz%d), index %d of the other side: %.17g instead of %.17g", x, y, ca.e[0], ca.e[1], ca.e[2], cb.e[0], cb.e[1], cb.e[2], o, got, want);
                        return msg;
                    }
                }
        return "";
    }
    const bool bra = c0 < 2;
    for(int n = 0; n < A.num_n; n++)
    {
        size_t x = (size_t)n * nc(s.am[0]) * nc(s.am[1]) * nc(s.am[2]) * nc(s.am[3]);
        for(auto & ca : carts(s.am[0])) for(auto & cb : carts(s.am[1])) for(auto & cc : carts(s.am[2])) for(auto & cd : carts(s.am[3]))
        {
            const Cart q[4] = {ca, cb, cc, cd};
            for(int l = 0; l < NL; l++)
            {
                const Lane & L = A.lane[l];
                const double want = (double)A.value(l, s.am, q, n), got = A.outb->p[x * NL + l], t2 = (double)L.t2;
                double maj = 0;
                for(int d = 0; d < 3; d++)
                {
                    if(q[c0].e[d] == 0) continue;
                    Cart r[4] = {ca, cb, cc, cd};
                    r[c0].e[d]--;
                    const double v = std::fabs((double)A.value(l, s.am, r, n));
                    double m = (std::fabs(L.PX[c0][d]) + std::fabs((bra ? L.aop : L.aoq)[d]) * t2) * v;
                    for(int c = 0; c < 4; c++)
                        if(r[c].e[d] > 0)
                        {
                            Cart z[4] = {r[0], r[1], r[2], r[3]};
                            const int e = z[c].e[d]--;
                            const double u = std::fabs((double)A.value(l, s.am, z, n));
                            if((c < 2) == bra)
                                m += e * (bra ? L.one_over_2p : L.one_over_2q) * (1 + std::fabs(bra ? L.a_over_p : L.a_over_q) * t2) * u;
                            else
                                m += e * L.one_over_2pq * t2 * u;
                        }
                    maj = std::max(maj, m);
                }
                const double tol = 1e-14 * maj;
                if(maj > 0) worst = std::max(worst, std::fabs(got - want) / tol);
                if(!(std::fabs(got - want) <= tol))
                {
                    snprintf(msg, sizeof(msg), "order %d, component %zu (x%dy%dz%d x%dy%dz%d | x%dy%dz%d x%dy%dz%d), lane %d: %.17g instead of %.17g", n, x % ((size_t)nc(s.am[0]) * nc(s.am[1]) * nc(s.am[2]) * nc(s.am[3])),
                             ca.e[0], ca.e[1], ca.e[2], cb.e[0], cb.e[1], cb.e[2], cc.e[0], cc.e[1], cc.e[2], cd.e[0], cd.e[1], cd.e[2], l, got, want);
                    return msg;
                }
            }
            x++;
        }
    }
    return "";
}

static std::string run(const Step & s, Fn f, uint64_t seed, int flags)
{
    Args A;
    make(A, s, seed, flags);
    if(f) f(A); else call_general(A);
    return examine(A);
}

static std::vector<Entry> general_steps()
{
    std::vector<Entry> v;
    auto add = [&](char k, char d, int a, int b, int c, int e) { v.push_back({{k, d, {a, b, c, e}, true}, nullptr}); };
    for(int a = 0; a <= 15; a++)
        for(int c = 0; a + c <= 17 && c <= 15; c++)
        {
            if(a) { add('V', 'I', a, 0, c, 0); add('V', 'I', a, 0, 0, c); add('V', 'J', 0, a, c, 0); add('V', 'J', 0, a, 0, c); }
            if(c) { add('V', 'K', a, 0, c, 0); add('V', 'K', 0, a, c, 0); add('V', 'L', a, 0, 0, c); add('V', 'L', 0, a, 0, c); }
        }
    for(int a = 0; a <= 15; a++)
        for(int b = 0; a + b <= 15; b++)
        {
            if(b && a <= 15 - b) { add('H', 'J', a, b, 0, 0); add('H', 'L', 0, 0, a, b); }
            if(a) { add('H', 'I', a, b, 0, 0); add('H', 'K', 0, 0, a, b); }
        }
    return v;
}

static void text(char * b, const Step & s)
{
    sprintf(b, "%c %c %d %d %d %d %d", s.kind, s.dir, s.am[0], s.am[1], s.am[2], s.am[3], (int)s.general);
}

int main(int argc, char ** argv)
{
    if(argc > 1 && !strcmp(argv[1], "one"))     // one K D a b c d general seed flags
    {
        Step s{argv[2][0], argv[3][0], {atoi(argv[4]), atoi(argv[5]), atoi(argv[6]), atoi(argv[7])}, atoi(argv[8]) != 0};
        Fn f = nullptr;
        if(!s.general)
        {
            for(int i = 0; i < ngenerated; i++)
                if(generated[i].s.kind == s.kind && generated[i].s.dir == s.dir && !memcmp(generated[i].s.am, s.am, sizeof(s.am)))
                    f = generated[i].f;
            if(!f) return 2;
        }
        const std::string m = run(s, f, strtoull(argv[9], nullptr, 0), atoi(argv[10]));
        printf("%s\n", m.empty() ? "OK" : m.c_str());
        return m.empty() ? 0 : 1;
    }
    // run SEED ROUNDS SHARD NSHARD
    const uint64_t seed = strtoull(argv[2], nullptr, 0);
    const int rounds = atoi(argv[3]), shard = atoi(argv[4]), nshard = atoi(argv[5]);
    std::vector<Entry> all = general_steps();
    for(int i = 0; i < ngenerated; i++)
        all.push_back(generated[i]);
    Rng g{seed};
    for(int k = 0; k < rounds * 40; k++)        // general steps on four centres
    {
        Entry e{{'V', (char)('I' + g.below(4)), {g.below(4), g.below(4), g.below(4), g.below(4)}, true}, nullptr};
        e.s.am[e.s.dir - 'I'] += !e.s.am[e.s.dir - 'I'];
        all.push_back(e);
    }
    long n[3] = {0, 0, 0};
    char b[100];
    std::vector<std::string> fails;             // told at the end: only the last lines are looked at
    for(int r = 0; r < rounds; r++)
        for(size_t i = 0; i < all.size(); i++)
        {
            if((i + r) % nshard != (size_t)shard) continue;
            Rng h{seed * 1000003 + r * 7919 + i};
            // generated horizontal steps have code of their own for each single shell on the other side
            const int sizes = r == 0 && !all[i].s.general && all[i].s.kind == 'H' ? 17 : 0;
            for(int k = 0; k <= sizes; k++)
            {
                const uint64_t cs = h.next();
                text(b, all[i].s);
                fprintf(stderr, "RUN %s %llu %d\n", b, (unsigned long long)cs, k << 8);
                const std::string m = run(all[i].s, all[i].f, cs, k << 8);
                n[all[i].s.general ? (all[i].s.kind == 'V' ? 0 : 1) : 2]++;
                if(!m.empty())
                {
                    char line[200];
                    sprintf(line, "FAIL %s %llu %d", b, (unsigned long long)cs, k << 8);
                    if(fails.size() < 20) fails.push_back(line);
                }
            }
        }
    for(auto & f : fails)
        printf("%s\n", f.c_str());
    printf("DONE %ld %ld %ld %g\n", n[0], n[1], n[2], worst);
    return 0;
}
