#include <integratorxx/quadratures/primitive/uniform.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
static void chk(const std::vector<double>& p, const std::vector<double>& w, long n, double lo, double up) {
  nat::expect((long)p.size() == n && (long)w.size() == n, nat::fmt("sizes %zu %zu", p.size(), w.size()));
  if ((long)p.size() != n || (long)w.size() != n) return;
  double h = (up - lo) / (n - 1), sc = std::max(std::abs(lo), std::abs(up)); double s = 0, s1 = 0;
  for (long i = 0; i < n; ++i) {
    nat::near(p[i], (double)((long double)lo + (long double)i * ((long double)up - lo) / (n - 1)), 1e-12, "point", i, sc);
    nat::near(w[i], (i == 0 || i == n - 1) ? h / 2 : h, 1e-12, "weight", i, 1e-300);
    s += w[i]; s1 += w[i] * p[i];
  }
  nat::near(s, up - lo, 1e-11, "weight sum", -1, sc);
  nat::near(s1, (up * up - lo * lo) / 2, 1e-10, "integral of x", -1, sc * sc);
}
int main() {
  std::vector<long> ex = {255,256,257,500,512,999,1000,1001,1024,4096,10000};
  for (long n : nat::sizes(2, nat::thorough() ? 500 : 200, 60000, ex)) {
    std::vector<std::pair<double,double>> iv = {{0,1},{-1,1},{2,5},{-7.5,-3.25},{1,-1},{0,0},{1e-3,1e3}};
    for (int k = 0; k < 3; ++k) iv.push_back({nat::uni(-10,10), nat::uni(-10,10)});
    for (auto h : nat::rhints()) { iv.push_back({h, h + 1}); iv.push_back({h - 1, h}); if (iv.size() > 60) break; }
    for (auto [lo, up] : iv) {
      nat::kase(nat::fmt("UniformTrapezoid n=%ld lo=%.17g up=%.17g", n, lo, up));
      UniformTrapezoid<double,double> q((size_t)n, lo, up);
      chk(q.points(), q.weights(), n, lo, up);
    }
    nat::kase(nat::fmt("UniformTrapezoid::generate n=%ld", n));
    auto [p, w] = quadrature_traits<UniformTrapezoid<double,double>>::generate((size_t)n);
    chk(p, w, n, 0, 1);
  }
  return nat::done();
}
