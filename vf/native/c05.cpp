// Bounded check: radial quadrature = base rule pushed through the map.
#include <integratorxx/quadratures/radial.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;
static void base(bool gc, long n, long i, L& x, L& w) {
  if (gc) { L t = PI*(i+1)/(n+1); x = -cosl(t); w = PI/(n+1)*sinl(t); }
  else { x = (L)(i+1)/(n+1); w = 1.0L/(n+1); }
}
template <class Q, class F> void cmp(const Q& q, long n, bool gc, F f, bool inc, double sc = 0) {
  auto& p = q.points(); auto& w = q.weights();
  nat::expect((long)p.size() == n && (long)w.size() == n, nat::fmt("sizes %zu %zu", p.size(), w.size()));
  if ((long)p.size() != n || (long)w.size() != n) return;
  for (long i = 0; i < n; ++i) {
    L x, b, r, j; base(gc, n, i, x, b); f(x, r, j);
    // the conditioning near the end points grows with 1/(1-x^2)
    double kap = 1e-12 * (double)(1 / (1 - fabsl(x)) + 1 / (1 + x) + 1 / fmaxl(fabsl(x), 1e-9L)) + 1e-11;
    
    nat::near(p[i], (double)r, kap, "point", i, 1e-300 + sc);
    nat::near(w[i], (double)(j * b), kap * 4, "weight", i, 1e-300);
    nat::expect(std::isfinite(p[i]) && std::isfinite(w[i]), nat::fmt("entry %ld not finite: %g %g", i, p[i], w[i]));
    if (n <= 400) { nat::expect(p[i] > 0, nat::fmt("radius[%ld] = %.17g not positive", i, p[i]));
    if (i && inc) nat::expect(p[i] > p[i-1], nat::fmt("radii %ld,%ld not increasing", i-1, i)); }
  }
}
template <class Q, class T, class F, class... A> void scheme(const char* nm, long n, bool gc, F f, bool inc, double sc, A... a) {
  T t((size_t)n, a...);
  nat::kase(nat::fmt("%s n=%ld %s", nm, n, (nat::fmt("%.17g ", (double)a) + ...).c_str()));
  cmp(Q(t), n, gc, f, inc, sc);
  cmp(Q((size_t)n, a...), n, gc, f, inc, sc);
  const RadialTraits& b = t; cmp(Q(b), n, gc, f, inc, sc);
  auto c = t.clone(); cmp(Q(*c), n, gc, f, inc, sc);
}
int main() {
  std::vector<long> ex = {255,256,257,500,512,1000,1001,1024,2048,4096,5000};
  std::vector<double> rs = {1.0, 0.5, 2.0, 7.25}; for (auto h : nat::rhints()) if (h > 0 && h < 1e6 && rs.size() < 40) rs.push_back(h);
  for (long n : nat::sizes(1, nat::thorough() ? 400 : 130, 20000, ex)) for (double R : (n < 60 ? rs : std::vector<double>{rs[0], rs[n % rs.size()]})) {
    scheme<Becke<double,double>, BeckeRadialTraits>("Becke", n, true, [=](L X, L& r, L& j) { r = R*(1+X)/(1-X); j = 2*R/((1-X)*(1-X)); }, true, 0.0, R);
    scheme<MurrayHandyLaming<double,double>, MurrayHandyLamingRadialTraits<2>>("MurrayHandyLaming", n, false, [=](L X, L& r, L& j) { L Y = X/(1-X); r = R*Y*Y; j = 2*R*X/((1-X)*(1-X)*(1-X)); }, true, 0.0, R);
    scheme<MuraKnowles<double,double>, MuraKnowlesRadialTraits>("MuraKnowles", n, false, [=](L X, L& r, L& j) { r = -R*log1pl(-X*X*X); j = 3*R*X*X/(1-X*X*X); }, true, R * 1e-4, R);
    for (double al : {0.6, 0.0, 1.3}) scheme<TreutlerAhlrichs<double,double>, TreutlerAhlrichsRadialTraits>("TreutlerAhlrichs", n, true, [=](L X, L& r, L& j) { L p = powl(1+X, al), l = logl(2/(1-X)), l2 = logl(2.0L); r = R*p*l/l2; j = R*p/l2*(al*l/(1+X) + 1/(1-X)); }, true, 0.0, R, al);
  }
  return nat::done();
}
