// Bounded check of the Gauss-Chebyshev rules against the published formulas.
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev1.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;
template <class Q, class F> void rule(const char* name, long n, F f, bool sym, double dlo) {
  nat::kase(nat::fmt("%s n=%ld", name, n));
  Q q((size_t)n);
  auto& p = q.points(); auto& w = q.weights();
  nat::expect((long)p.size() == n && (long)w.size() == n && (long)q.npts() == n, nat::fmt("sizes %zu %zu", p.size(), w.size()));
  if ((long)p.size() != n || (long)w.size() != n) return;
  for (long i = 0; i < n; ++i) {
    L x, ww; f((L)n, (L)i, x, ww);
    nat::near(p[i], (double)x, 2e-11 / 1, "point", i);
    nat::near(w[i], (double)ww, 1e-9, "weight", i, n > 400 ? 0.01 / n : 1e-5 / n);
    if (n > 400) { nat::expect(p[i] >= dlo - 1e-15 && p[i] <= 1 + 1e-15 && w[i] >= 0 && (!i || p[i] >= p[i-1] - 1e-15), nat::fmt("order/domain/sign at %ld: %.17g %.17g", i, p[i], w[i])); }
    else {
    nat::expect(w[i] > 0, nat::fmt("weight[%ld] = %.17g is not positive", i, w[i]));
    if (i) nat::expect(p[i] > p[i-1], nat::fmt("points %ld,%ld not ascending: %.17g %.17g", i-1, i, p[i-1], p[i]));
    nat::expect(p[i] > dlo && p[i] < 1, nat::fmt("point[%ld] = %.17g outside the domain", i, p[i]));
    }
    if (sym) {
      nat::expect(p[i] == -p[n-1-i], nat::fmt("points %ld and its mirror differ: %.17g %.17g", i, p[i], p[n-1-i]));
      nat::expect(w[i] == w[n-1-i], nat::fmt("weights %ld and its mirror differ: %.17g %.17g", i, w[i], w[n-1-i]));
      if (2*i + 1 == n) nat::expect(p[i] == 0, nat::fmt("middle point %.17g", p[i]));
    }
  }
}
int main() {
  std::vector<long> ex = {255,256,257,499,500,501,511,512,513,999,1000,1001,1023,1024,1025,2000,2001,2048,4095,4096,4097,5000,10000,10001};
  for (long n : nat::sizes(1, nat::thorough() ? 700 : 320, 60000, ex)) {
    rule<GaussChebyshev1<double,double>>("GaussChebyshev1", n, [](L n, L i, L& x, L& w) { L t = PI*(2*i+1)/(2*n); x = -cosl(t); w = PI/n*sinl(t); }, true, -1);
    rule<GaussChebyshev2<double,double>>("GaussChebyshev2", n, [](L n, L i, L& x, L& w) { L t = PI*(i+1)/(n+1); x = -cosl(t); w = PI/(n+1)*sinl(t); }, true, -1);
    rule<GaussChebyshev2Modified<double,double>>("GaussChebyshev2Modified", n, [](L n, L i, L& x, L& w) {
      L k = n - i, t = k*PI/(n+1), s = sinl(t), c = cosl(t);
      x = 1 - 2*k/(n+1) + 2/PI*(1 + 2.0L/3*s*s)*c*s; w = 16.0L/(3*(n+1))*s*s*s*s; }, true, -1);
    rule<GaussChebyshev3<double,double>>("GaussChebyshev3", n, [](L n, L i, L& x, L& w) {
      L k = n - i, t = PI*(2*k-1)/(2*(2*n+1)), s = sinl(t), c = cosl(t); x = c*c; w = 2*PI/(2*n+1)*s*c; }, false, 0);
  }
  return nat::done();
}
