// Verification entry points: the public constructors of the primitive rules.
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev1.hpp>
using namespace IntegratorXX;
using sz = std::size_t;
struct res { std::vector<double> p, w; };
#define ENTRY(tag, Q) extern "C" void vf_##tag(sz n, res* out) { Q<double,double> q(n); out->p = q.points(); out->w = q.weights(); }
ENTRY(gc1, GaussChebyshev1)
ENTRY(gc2, GaussChebyshev2)
ENTRY(gc2m, GaussChebyshev2Modified)
ENTRY(gc3, GaussChebyshev3)
ENTRY(gleg, GaussLegendre)
ENTRY(glob, GaussLobatto)
extern "C" void vf_trap01(sz n, res* out) { auto t = quadrature_traits<UniformTrapezoid<double,double>>::generate(n); out->p = std::get<0>(t); out->w = std::get<1>(t); }
extern "C" void vf_trap(sz n, double lo, double up, res* out) { UniformTrapezoid<double,double> q(n, lo, up); out->p = q.points(); out->w = q.weights(); }
struct pn3 { double p, dp, pm1; };
extern "C" void vf_pn(double x, sz n, pn3* out) { auto t = eval_Pn(x, n); out->p = std::get<0>(t); out->dp = std::get<1>(t); out->pm1 = std::get<2>(t); }
