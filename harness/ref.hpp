// Independent reference integrals over contracted Cartesian Gaussians,
// McMurchie-Davidson scheme in long double.  Shares no code or table with simint.
#pragma once
#include <vector>
#include <array>

namespace ref {

typedef long double R;

struct Shell { int am = 0; R x[3] = {0, 0, 0}; std::vector<R> a, c; };

inline int ncart(int l) { return (l + 1) * (l + 2) / 2; }

// Cartesian exponents in the two orderings the generator offers.
enum Ordering { PSI4 = 0, GAMESS = 1 };
void set_ordering(Ordering o);
const std::vector<std::array<int, 3>> & cart(int l);

// F_0..F_nmax
void boys(int nmax, R x, R * F);

// Every routine writes the value and a majorant: the same sum with every
// term replaced by its magnitude.  The majorant is the natural unit of
// rounding error of any recursion evaluating the integral.
struct Out { std::vector<R> v, m; };

void eri(const Shell & A, const Shell & B, const Shell & C, const Shell & D, Out & o);
// 12 numbers per integral: centre*3+direction
void eri_deriv1(const Shell & A, const Shell & B, const Shell & C, const Shell & D, Out & o);
void overlap(const Shell & A, const Shell & B, Out & o);
void kinetic(const Shell & A, const Shell & B, Out & o);
void potential(int n, const double * Z, const double * x, const double * y, const double * z,
               const Shell & A, const Shell & B, Out & o);
// nuclear attraction of unit +1 point charge times -Z summed

}
