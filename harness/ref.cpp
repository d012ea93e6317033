#include "ref.hpp"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <map>

namespace ref {

static const R PI = 3.14159265358979323846264338327950288L;
static Ordering g_ord = PSI4;
static std::map<std::pair<int,int>, std::vector<std::array<int,3>>> g_cart;

void set_ordering(Ordering o) { g_ord = o; }

const std::vector<std::array<int, 3>> & cart(int l)
{
    auto key = std::make_pair((int)g_ord, l);
    auto it = g_cart.find(key);
    if(it != g_cart.end()) return it->second;
    std::vector<std::array<int, 3>> v;
    // canonical: x descending, then y descending
    for(int i = l; i >= 0; i--)
        for(int j = l - i; j >= 0; j--)
            v.push_back({{i, j, l - i - j}});
    if(g_ord == GAMESS && l <= 3)
    {
        // GAMESS, up to f: xx yy zz xy xz yz, and xxx yyy zzz xxy xxz yyx yyz zzx zzy xyz: by the multiset
        // of exponents (largest first), then by the letters in the order of their exponents.
        auto letters = [](const std::array<int,3> & p) {
            std::array<int,3> o = {0, 1, 2};
            std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return p[a] > p[b]; });
            return o;
        };
        std::stable_sort(v.begin(), v.end(), [&](const std::array<int,3> & p, const std::array<int,3> & q) {
            std::array<int,3> a = p, b = q;
            std::sort(a.rbegin(), a.rend());
            std::sort(b.rbegin(), b.rend());
            return a != b ? a > b : letters(p) < letters(q);
        });
    }
    return g_cart[key] = v;
}

void boys(int nmax, R x, R * F)
{
    if(x < 0) x = 0;
    const R ex = expl(-x);
    if(x > nmax + 40)
    {
        // upward recursion from the error function: stable in this range
        F[0] = sqrtl(PI / x) * 0.5L * erfl(sqrtl(x));
        for(int n = 0; n < nmax; n++)
            F[n + 1] = ((2 * n + 1) * F[n] - ex) / (2 * x);
        return;
    }
    // all-positive series for the top order, then stable downward recursion
    R term = 1.0L / (2 * nmax + 1), sum = term;
    for(int i = 1; i < 2000; i++)
    {
        term *= 2 * x / (2 * nmax + 2 * i + 1);
        sum += term;
        if(term < sum * 1e-22L) break;
    }
    F[nmax] = ex * sum;
    for(int n = nmax; n > 0; n--)
        F[n - 1] = (2 * x * F[n] + ex) / (2 * n - 1);
}

// Coordinates of products of Gaussians are sums of rounded products of the input
// coordinates: an absolute error of a few eps times the coordinates.  In the
// majorant, where the unit is the tolerance (1e-12), that is KAPPA times the
// coordinates with KAPPA = 5 eps / 1e-12.
static const R KAPPA = 1e-3L;

// E_t^{ij} for one dimension, without the exp prefactor.
// PA, PB signed (abs version passes magnitudes)
static void hermiteE(int imax, int jmax, R PA, R PB, R oo2p, std::vector<R> & E, int & n3)
{
    n3 = imax + jmax + 1;
    const int nj = jmax + 1;
    E.assign((imax + 1) * nj * n3, 0.0L);
    auto at = [&](int i, int j, int t) -> R & { return E[(i * nj + j) * n3 + t]; };
    at(0, 0, 0) = 1.0L;
    for(int i = 0; i <= imax; i++)
    {
        if(i > 0)
            for(int t = 0; t <= i; t++)
            {
                R v = PA * at(i - 1, 0, t);
                if(t > 0) v += oo2p * at(i - 1, 0, t - 1);
                if(t + 1 <= i - 1) v += (t + 1) * at(i - 1, 0, t + 1);
                at(i, 0, t) = v;
            }
        for(int j = 1; j <= jmax; j++)
            for(int t = 0; t <= i + j; t++)
            {
                R v = PB * at(i, j - 1, t);
                if(t > 0) v += oo2p * at(i, j - 1, t - 1);
                if(t + 1 <= i + j - 1) v += (t + 1) * at(i, j - 1, t + 1);
                at(i, j, t) = v;
            }
    }
}

static inline int tuvcount(int L) { return (L + 1) * (L + 2) * (L + 3) / 6; }
struct TuvIndex
{
    int L;
    std::vector<std::array<int,3>> list;
    std::vector<int> idx;
    explicit TuvIndex(int L_) : L(L_), idx((L_ + 1) * (L_ + 1) * (L_ + 1), -1)
    {
        for(int t = 0; t <= L; t++)
            for(int u = 0; t + u <= L; u++)
                for(int v = 0; t + u + v <= L; v++)
                {
                    idx[(t * (L + 1) + u) * (L + 1) + v] = (int)list.size();
                    list.push_back({{t, u, v}});
                }
    }
    int operator()(int t, int u, int v) const { return idx[(t * (L + 1) + u) * (L + 1) + v]; }
};
static const TuvIndex & tuv(int L)
{
    static thread_local std::map<int, TuvIndex> m;
    auto it = m.find(L);
    if(it == m.end()) it = m.emplace(L, TuvIndex(L)).first;
    return it->second;
}

// R_{tuv}(alpha, X) for t+u+v <= L ; Rabs uses |X| and +2alpha
// dX: rounding of X, from the rounding of the coordinates it is made of, in units
// of the tolerance (see KAPPA)
static void hermiteR(int L, R alpha, const R * X, const R * dX, std::vector<R> & out, std::vector<R> & outabs)
{
    const TuvIndex & T = tuv(L);
    const R x2 = X[0] * X[0] + X[1] * X[1] + X[2] * X[2];
    std::vector<R> F(L + 2), G(L + 1);
    boys(L + 1, alpha * x2, F.data());
    const R shift = 2 * alpha * (fabsl(X[0]) * dX[0] + fabsl(X[1]) * dX[1] + fabsl(X[2]) * dX[2]);
    for(int n = 0; n <= L; n++) G[n] = F[n] + shift * F[n + 1];
    for(int pass = 0; pass < 2; pass++)
    {
        const R s = pass ? 2 * alpha : -2 * alpha;
        R Y[3];
        for(int d = 0; d < 3; d++) Y[d] = pass ? fabsl(X[d]) + dX[d] : X[d];
        // cur[n] arrays by order
        std::vector<std::vector<R>> W(L + 1);
        R f = 1;
        for(int n = 0; n <= L; n++)
        {
            W[n].assign(T.list.size(), 0.0L);
            W[n][T(0, 0, 0)] = f * (pass ? G[n] : F[n]);
            f *= s;
        }
        for(int k = 1; k <= L; k++)
            for(int n = 0; n + k <= L; n++)
                for(int t = 0; t <= k; t++)
                    for(int u = 0; t + u <= k; u++)
                    {
                        const int v = k - t - u;
                        R r;
                        if(t > 0)
                        {
                            r = Y[0] * W[n + 1][T(t - 1, u, v)];
                            if(t > 1) r += (t - 1) * W[n + 1][T(t - 2, u, v)];
                        }
                        else if(u > 0)
                        {
                            r = Y[1] * W[n + 1][T(t, u - 1, v)];
                            if(u > 1) r += (u - 1) * W[n + 1][T(t, u - 2, v)];
                        }
                        else
                        {
                            r = Y[2] * W[n + 1][T(t, u, v - 1)];
                            if(v > 1) r += (v - 1) * W[n + 1][T(t, u, v - 2)];
                        }
                        W[n][T(t, u, v)] = r;
                    }
        (pass ? outabs : out) = W[0];
    }
}

// Hermite expansion matrix of one primitive pair: rows = components, cols = tuv(L)
// der: -1 none, 0..2 d/dA_dir, 3..5 d/dB_dir
struct Expansion
{
    int L = 0, nrow = 0;
    R p = 0, P[3] = {0, 0, 0}, dP[3] = {0, 0, 0}, K = 0, Kabs = 0;
    std::vector<R> H, Habs; // nrow x ntuv
};

static void expand(const Shell & A, int i, const Shell & B, int j, bool deriv, std::vector<Expansion> & out)
{
    const R a = A.a[i], b = B.a[j], p = a + b;
    R P[3], PA[3], PB[3], R2 = 0, AB[3];
    for(int d = 0; d < 3; d++)
    {
        P[d] = (a * A.x[d] + b * B.x[d]) / p;
        AB[d] = A.x[d] - B.x[d];
        PA[d] = -b / p * AB[d];
        PB[d] = a / p * AB[d];
        R2 += AB[d] * AB[d];
    }
    const R K = expl(-a * b / p * R2) * A.c[i] * B.c[j];
    // the exponent is itself rounded
    const R Kabs = fabsl(K) * (1 + KAPPA * a * b / p * R2);
    R dP[3];
    for(int d = 0; d < 3; d++) dP[d] = KAPPA * std::max(fabsl(A.x[d]), fabsl(B.x[d]));
    const int e = deriv ? 1 : 0;
    const int la = A.am, lb = B.am;
    std::vector<R> E[3], Ea[3];
    int n3 = 0;
    for(int d = 0; d < 3; d++)
    {
        const R m = fabsl(PA[d]) + fabsl(PB[d]) + dP[d];
        hermiteE(la + e, lb + e, PA[d], PB[d], 0.5L / p, E[d], n3);
        hermiteE(la + e, lb + e, m, m, 0.5L / p, Ea[d], n3);
    }
    const int nj = lb + e + 1;
    const auto & ca = cart(la);
    const auto & cb = cart(lb);
    const int nmat = deriv ? 7 : 1;
    out.resize(nmat);
    for(int q = 0; q < nmat; q++)
    {
        const int der = q - 1;
        Expansion & X = out[q];
        X.L = la + lb + e;
        X.nrow = (int)(ca.size() * cb.size());
        X.p = p;
        X.K = K;
        X.Kabs = Kabs;
        for(int d = 0; d < 3; d++) { X.P[d] = P[d]; X.dP[d] = dP[d]; }
        const TuvIndex & T = tuv(X.L);
        const int nt = (int)T.list.size();
        X.H.assign(X.nrow * nt, 0.0L);
        X.Habs.assign(X.nrow * nt, 0.0L);
        int row = 0;
        std::vector<R> f[3], fa[3];
        for(const auto & u : ca)
            for(const auto & w : cb)
            {
                for(int d = 0; d < 3; d++)
                {
                    f[d].assign(n3, 0.0L);
                    fa[d].assign(n3, 0.0L);
                    const int ii = u[d], jj = w[d];
                    auto get = [&](const std::vector<R> & V, int i1, int j1, int t) { return V[(i1 * nj + j1) * n3 + t]; };
                    for(int t = 0; t < n3; t++)
                    {
                        if(der == d)
                        {
                            f[d][t] = 2 * a * get(E[d], ii + 1, jj, t) - (ii > 0 ? ii * get(E[d], ii - 1, jj, t) : 0.0L);
                            fa[d][t] = 2 * a * get(Ea[d], ii + 1, jj, t) + (ii > 0 ? ii * get(Ea[d], ii - 1, jj, t) : 0.0L);
                        }
                        else if(der == d + 3)
                        {
                            f[d][t] = 2 * b * get(E[d], ii, jj + 1, t) - (jj > 0 ? jj * get(E[d], ii, jj - 1, t) : 0.0L);
                            fa[d][t] = 2 * b * get(Ea[d], ii, jj + 1, t) + (jj > 0 ? jj * get(Ea[d], ii, jj - 1, t) : 0.0L);
                        }
                        else
                        {
                            f[d][t] = get(E[d], ii, jj, t);
                            fa[d][t] = get(Ea[d], ii, jj, t);
                        }
                    }
                }
                for(int k = 0; k < nt; k++)
                {
                    const auto & l = T.list[k];
                    X.H[row * nt + k] = f[0][l[0]] * f[1][l[1]] * f[2][l[2]];
                    X.Habs[row * nt + k] = fa[0][l[0]] * fa[1][l[1]] * fa[2][l[2]];
                }
                row++;
            }
    }
}

static void eri_any(const Shell & A, const Shell & B, const Shell & C, const Shell & D, bool deriv, Out & o)
{
    const int nab = ncart(A.am) * ncart(B.am), ncd = ncart(C.am) * ncart(D.am);
    const int per = deriv ? 12 : 1;
    o.v.assign((size_t)nab * ncd * per, 0.0L);
    o.m.assign((size_t)nab * ncd * per, 0.0L);
    std::vector<std::vector<Expansion>> bra, ket;
    for(size_t i = 0; i < A.a.size(); i++)
        for(size_t j = 0; j < B.a.size(); j++)
        {
            bra.emplace_back();
            expand(A, (int)i, B, (int)j, deriv, bra.back());
        }
    for(size_t i = 0; i < C.a.size(); i++)
        for(size_t j = 0; j < D.a.size(); j++)
        {
            ket.emplace_back();
            expand(C, (int)i, D, (int)j, deriv, ket.back());
        }
    std::vector<R> Rt, Ra;
    for(const auto & bs : bra)
        for(const auto & ks : ket)
        {
            const R p = bs[0].p, q = ks[0].p, al = p * q / (p + q);
            const int Lb = bs[0].L, Lk = ks[0].L;
            R X[3], dX[3];
            for(int d = 0; d < 3; d++) { X[d] = bs[0].P[d] - ks[0].P[d]; dX[d] = bs[0].dP[d] + ks[0].dP[d]; }
            hermiteR(Lb + Lk, al, X, dX, Rt, Ra);
            const TuvIndex & T = tuv(Lb + Lk), & Tb = tuv(Lb), & Tk = tuv(Lk);
            const int nb = (int)Tb.list.size(), nk = (int)Tk.list.size();
            const R pre = 2 * powl(PI, 2.5L) / (p * q * sqrtl(p + q)) * bs[0].K * ks[0].K;
            const R preabs = 2 * powl(PI, 2.5L) / (p * q * sqrtl(p + q)) * bs[0].Kabs * ks[0].Kabs;
            std::vector<R> M(nb * nk), Ma(nb * nk);
            for(int i = 0; i < nb; i++)
                for(int k = 0; k < nk; k++)
                {
                    const auto & l = Tb.list[i];
                    const auto & r = Tk.list[k];
                    const int id = T(l[0] + r[0], l[1] + r[1], l[2] + r[2]);
                    const bool neg = (r[0] + r[1] + r[2]) & 1;
                    M[i * nk + k] = neg ? -Rt[id] : Rt[id];
                    Ma[i * nk + k] = Ra[id];
                }
            // centre/direction combos
            std::vector<R> t1((size_t)nab * nk);
            auto apply = [&](const Expansion & b, const Expansion & k, int slot, bool ab) {
                const std::vector<R> & Hb = ab ? b.Habs : b.H;
                const std::vector<R> & Hk = ab ? k.Habs : k.H;
                const std::vector<R> & MM = ab ? Ma : M;
                for(int r = 0; r < nab; r++)
                {
                    R * dst = &t1[(size_t)r * nk];
                    for(int c = 0; c < nk; c++) dst[c] = 0;
                    for(int i = 0; i < nb; i++)
                    {
                        const R h = Hb[r * nb + i];
                        if(h == 0) continue;
                        for(int c = 0; c < nk; c++) dst[c] += h * MM[i * nk + c];
                    }
                }
                const R s = ab ? preabs : pre;
                std::vector<R> & dstv = ab ? o.m : o.v;
                for(int r = 0; r < nab; r++)
                    for(int c = 0; c < ncd; c++)
                    {
                        R acc = 0;
                        for(int k2 = 0; k2 < nk; k2++) acc += t1[(size_t)r * nk + k2] * Hk[c * nk + k2];
                        dstv[((size_t)r * ncd + c) * per + slot] += s * acc;
                    }
            };
            if(!deriv)
            {
                apply(bs[0], ks[0], 0, false);
                apply(bs[0], ks[0], 0, true);
            }
            else
                for(int d = 0; d < 12; d++)
                    for(int ab = 0; ab < 2; ab++)
                        apply(d < 6 ? bs[1 + d] : bs[0], d >= 6 ? ks[1 + d - 6] : ks[0], d, ab);
        }
    if(deriv)
    {
        // one centre is obtained by translational invariance from the other three,
        // so every centre shares the scale of the sum
        for(size_t k = 0; k < o.m.size() / 12; k++)
            for(int d = 0; d < 3; d++)
            {
                R s = 0;
                for(int c = 0; c < 4; c++) s += o.m[k * 12 + c * 3 + d];
                for(int c = 0; c < 4; c++) o.m[k * 12 + c * 3 + d] = s;
            }
    }
}

void eri(const Shell & A, const Shell & B, const Shell & C, const Shell & D, Out & o) { eri_any(A, B, C, D, false, o); }
void eri_deriv1(const Shell & A, const Shell & B, const Shell & C, const Shell & D, Out & o) { eri_any(A, B, C, D, true, o); }

void overlap(const Shell & A, const Shell & B, Out & o)
{
    const auto & ca = cart(A.am);
    const auto & cb = cart(B.am);
    o.v.assign(ca.size() * cb.size(), 0.0L);
    o.m.assign(ca.size() * cb.size(), 0.0L);
    std::vector<Expansion> X;
    for(size_t i = 0; i < A.a.size(); i++)
        for(size_t j = 0; j < B.a.size(); j++)
        {
            expand(A, (int)i, B, (int)j, false, X);
            const int nt = tuvcount(X[0].L);
            const R s = powl(PI / X[0].p, 1.5L) * X[0].K;
            const int k0 = tuv(X[0].L)(0, 0, 0);
            for(int r = 0; r < X[0].nrow; r++)
            {
                o.v[r] += s * X[0].H[r * nt + k0];
                o.m[r] += powl(PI / X[0].p, 1.5L) * X[0].Kabs * X[0].Habs[r * nt + k0];
            }
        }
}

// 1D overlap moments by Gauss-free recursion from E_0
void kinetic(const Shell & A, const Shell & B, Out & o)
{
    const auto & ca = cart(A.am);
    const auto & cb = cart(B.am);
    o.v.assign(ca.size() * cb.size(), 0.0L);
    o.m.assign(ca.size() * cb.size(), 0.0L);
    for(size_t i = 0; i < A.a.size(); i++)
        for(size_t j = 0; j < B.a.size(); j++)
        {
            const R a = A.a[i], b = B.a[j], p = a + b;
            std::vector<R> E[3], Ea[3];
            int n3 = 0;
            R R2 = 0;
            const int nj = B.am + 3;
            for(int d = 0; d < 3; d++)
            {
                const R AB = A.x[d] - B.x[d];
                const R PA = -b / p * AB, PB = a / p * AB;
                R2 += AB * AB;
                hermiteE(A.am, B.am + 2, PA, PB, 0.5L / p, E[d], n3);
                const R m = fabsl(PA) + fabsl(PB) + KAPPA * std::max(fabsl(A.x[d]), fabsl(B.x[d]));
                hermiteE(A.am, B.am + 2, m, m, 0.5L / p, Ea[d], n3);
            }
            const R s = powl(PI / p, 1.5L) * expl(-a * b / p * R2) * A.c[i] * B.c[j];
            int row = 0;
            for(const auto & u : ca)
                for(const auto & w : cb)
                {
                    R tot = 0, tota = 0;
                    for(int d = 0; d < 3; d++)
                    {
                        const int l = w[d];
                        auto S = [&](int dd, int jj) { return E[dd][(u[dd] * nj + jj) * n3]; };
                        auto Sa = [&](int dd, int jj) { return Ea[dd][(u[dd] * nj + jj) * n3]; };
                        // -1/2 d2/dx2 on |b>
                        R k = -0.5L * (4 * b * b * S(d, l + 2) - 2 * b * (2 * l + 1) * S(d, l) + (l > 1 ? l * (l - 1) * S(d, l - 2) : 0.0L));
                        R ka = 0.5L * (4 * p * p * Sa(d, l + 2) + 2 * p * (2 * l + 1) * Sa(d, l) + (l > 1 ? l * (l - 1) * Sa(d, l - 2) : 0.0L));
                        for(int e = 0; e < 3; e++)
                            if(e != d)
                            {
                                k *= S(e, w[e]);
                                ka *= Sa(e, w[e]);
                            }
                        tot += k;
                        tota += ka;
                    }
                    o.v[row] += s * tot;
                    o.m[row] += fabsl(s) * (1 + KAPPA * a * b / p * R2) * tota;
                    row++;
                }
        }
}

void potential(int n, const double * Z, const double * x, const double * y, const double * z,
               const Shell & A, const Shell & B, Out & o)
{
    const auto & ca = cart(A.am);
    const auto & cb = cart(B.am);
    o.v.assign(ca.size() * cb.size(), 0.0L);
    o.m.assign(ca.size() * cb.size(), 0.0L);
    std::vector<Expansion> X;
    std::vector<R> Rt, Ra;
    for(size_t i = 0; i < A.a.size(); i++)
        for(size_t j = 0; j < B.a.size(); j++)
        {
            expand(A, (int)i, B, (int)j, false, X);
            const int nt = tuvcount(X[0].L);
            for(int q = 0; q < n; q++)
            {
                R Y[3] = {X[0].P[0] - x[q], X[0].P[1] - y[q], X[0].P[2] - z[q]};
                R dY[3];
                const double qc[3] = {x[q], y[q], z[q]};
                for(int d = 0; d < 3; d++) dY[d] = X[0].dP[d] + KAPPA * fabsl((R)qc[d]);
                hermiteR(X[0].L, X[0].p, Y, dY, Rt, Ra);
                const R s = -(R)Z[q] * 2 * PI / X[0].p * X[0].K;
                for(int r = 0; r < X[0].nrow; r++)
                    for(int k = 0; k < nt; k++)
                    {
                        o.v[r] += s * X[0].H[r * nt + k] * Rt[k];
                        o.m[r] += fabsl((R)Z[q]) * 2 * PI / X[0].p * X[0].Kabs * X[0].Habs[r * nt + k] * Ra[k];
                    }
            }
        }
}

}
