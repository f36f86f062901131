// Verification entry points: one angular family (-DFAM=..), public API only.
#include <array>
#include <vector>
#include <tuple>
#include <cmath>
#include <cassert>
#include <memory>
#define STR_(x) #x
#define STR(x) STR_(x)
#include STR(integratorxx/quadratures/s2/HDR.hpp)
using namespace IntegratorXX;
using Q = FAM<double>;
using tr = quadrature_traits<Q>;
extern "C" {
int64_t vf_np(int64_t o) { return tr::npts_by_algebraic_order(o); }
int64_t vf_or(int64_t o) { return tr::algebraic_order_by_npts(o); }
int64_t vf_nx(int64_t o) { return tr::next_algebraic_order(o); }
void vf_mk(std::size_t n, std::vector<std::array<double,3>>* p, std::vector<double>* w, std::size_t* m) { Q q(n); *p = q.points(); *w = q.weights(); *m = q.npts(); }
}
