// Bounded check of the Legendre evaluator and the Gauss-Legendre / Gauss-Lobatto rules
// against an extended-precision reference (Tricomi start, bracketed Newton).
#include <integratorxx/quadratures/primitive.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;
static void leg(long n, L x, L& p, L& m) { p = 1; m = 0; for (long k = 1; k <= n; ++k) { L q = ((2*k-1)*x*p - (k-1)*m)/k; m = p; p = q; } }
// ascending nodes and weights
static void refleg(long n, std::vector<L>& x, std::vector<L>& w) {
  x.assign(n, 0); w.assign(n, 0);
  for (long i = 0; i < (n+1)/2; ++i) {
    L z = cosl(PI*(i + 0.75L)/(n + 0.5L)) * (1 - (n > 1 ? (1 - 1.0L/n)/(8.0L*n*n) : 0)), p, m, d;
    if (2*i + 1 == n) z = 0;
    for (int t = 0; t < 50; ++t) { leg(n, z, p, m); d = n*(z*p - m)/(z*z - 1); L dz = p/d; if (2*i + 1 == n) break; z -= dz; if (fabsl(dz) < 1e-18L) break; }
    leg(n, z, p, m); d = n*(z*p - m)/(z*z - 1);
    x[n-1-i] = z; x[i] = -z; w[i] = w[n-1-i] = 2/((1 - z*z)*d*d);
  }
}
static void reflob(long n, std::vector<L>& x, std::vector<L>& w) {
  x.assign(n, 0); w.assign(n, 0); L p, m;
  for (long i = 0; i < (n+1)/2; ++i) {
    L z = cosl(PI*i/(n - 1));
    if (i == 0) z = 1; else if (2*i + 1 == n) z = 0;
    else for (int t = 0; t < 60; ++t) { leg(n-1, z, p, m); L dz = (z*p - m)/(n*p); z -= dz; if (fabsl(dz) < 1e-18L) break; }
    leg(n-1, z, p, m); x[n-1-i] = z; x[i] = -z; w[i] = w[n-1-i] = 2/((L)n*(n-1)*p*p);
  }
}
template <class Q, class F> void rule(const char* nm, long n, F ref, bool lob) {
  nat::kase(nat::fmt("%s n=%ld", nm, n));
  Q q((size_t)n); auto& p = q.points(); auto& w = q.weights();
  nat::expect((long)p.size() == n && (long)w.size() == n && (long)q.npts() == n, nat::fmt("sizes %zu %zu", p.size(), w.size()));
  if ((long)p.size() != n || (long)w.size() != n) return;
  std::vector<L> x, u; ref(n, x, u); L s = 0;
  for (long i = 0; i < n; ++i) {
    nat::expect(std::abs((double)(p[i] - x[i])) <= 4e-15, nat::fmt("node[%ld] = %.17g, expected %.17g", i, p[i], (double)x[i]));
    nat::near(w[i], (double)u[i], 1e-10 * (1 + n * 2e-3), "weight", i, 0);
    nat::expect(w[i] > 0, nat::fmt("weight[%ld] = %.17g is not positive", i, w[i]));
    nat::expect(p[i] >= -1 && p[i] <= 1, nat::fmt("node[%ld] = %.17g outside [-1,1]", i, p[i]));
    if (i) nat::expect(p[i] > p[i-1], nat::fmt("nodes %ld,%ld not ascending: %.17g %.17g", i-1, i, p[i-1], p[i]));
    if (2*i + 1 != n || lob) nat::expect(p[i] == -p[n-1-i], nat::fmt("node %ld and its mirror differ: %.17g %.17g", i, p[i], p[n-1-i]));
    nat::expect(w[i] == w[n-1-i], nat::fmt("weight %ld and its mirror differ: %.17g %.17g", i, w[i], w[n-1-i]));
    s += w[i];
  }
  if (n) nat::expect(std::abs((double)(s - 2)) <= 2e-13 * (1 + n * 1e-3), nat::fmt("weights sum to %.17g", (double)s));
  if (lob) { nat::expect(p[0] == -1 && p[n-1] == 1, nat::fmt("end points %.17g %.17g", p[0], p[n-1])); nat::expect(w[0] == 2.0/((double)n*(n-1.0)) || nat::close(w[0], 2.0/((double)n*(n-1.0)), 1e-15, 0), nat::fmt("end weight %.17g", w[0])); if (n % 2) nat::expect(p[n/2] == 0, nat::fmt("middle node %.17g", p[n/2])); }
}
int main() {
  for (long n = 0; n <= (nat::thorough() ? 400 : 150); ++n) { nat::kase(nat::fmt("eval_Pn degree %ld", n));
    std::vector<double> xs{0, 0.5, -0.5, 0.9, -0.99, 1e-8, 0.999999, -0.999999, 1.25, -3, 1e-300}; for (int i = 0; i < 20; ++i) xs.push_back(nat::uni(-1, 1)); for (int i = 0; i < 4; ++i) xs.push_back(nat::uni(-4, 4));
    int c = 0; for (double h : nat::rhints()) if (h*h != 1 && std::abs(h) < 10 && c++ < 20) xs.push_back(h);
    for (double x : xs) { L p, m; leg(n, x, p, m); L d = n*(x*p - m)/((L)x*x - 1); auto [a, b, e] = eval_Pn(x, (size_t)n);
      nat::near(a, (double)p, 1e-11*(1+n), "P_n", -1, 1e-3); if (n) nat::near(e, (double)m, 1e-11*(1+n), "P_(n-1)", -1, 1e-3);
      nat::near(b, (double)d, 1e-9*(1+n), "P_n'", -1, std::max(1.0, n / std::abs(x*x - 1) * 1e-3)); } }
  std::vector<long> ex = {499, 500, 501, 750, 999, 1000, 1001, 1024, 1500, 1501, 2000, 2001};
  if (nat::thorough()) for (long e : {3000L, 4000L, 4001L, 6000L}) ex.push_back(e);
  for (long n : nat::sizes(1, nat::thorough() ? 900 : 380, 3000, ex)) rule<GaussLegendre<double,double>>("GaussLegendre", n, refleg, false);
  for (long n : nat::sizes(2, nat::thorough() ? 900 : 380, 3000, ex)) rule<GaussLobatto<double,double>>("GaussLobatto", n, reflob, true);
  { nat::kase("GaussLegendre n=0"); GaussLegendre<double,double> q(0); nat::expect(q.points().empty() && q.weights().empty(), "n=0 is not empty"); }
  return nat::done();
}
