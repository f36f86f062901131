// Bounded search: construction of the angular rules, compared entry by entry
// with the tabulated rules (tables.inc is generated from the headers).
#include <array>
#include <memory>
#include <stdexcept>
#include <cassert>
#include <map>
#include <limits>
#include "nat.hpp"
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
using namespace IntegratorXX::LebedevLaikovGrids;
struct tab { const std::array<double,3>* p; size_t np; const double* w; size_t nw; };
template <class S> void put(std::map<long, tab>& m, long n) { m[n] = {S::points.data(), S::points.size(), S::weights.data(), S::weights.size()}; }
static std::map<long, tab> T[4];
#include "c11_tables.inc"
template <class Q> void fam(int f, const char* nm, bool scaled) {
  using tr = quadrature_traits<Q>;
  std::set<long> ns; for (long n = 0; n <= 2600; ++n) ns.insert(n);
  for (long n = 0; n <= 70000; ++n) if (tr::algebraic_order_by_npts(n) >= 0) { ns.insert(n - 1); ns.insert(n); ns.insert(n + 1); }
  for (auto& [n, t] : T[f]) { ns.insert(n); ns.insert(2 * n); }
  for (long n : {4096L, 8192L, 10000L, 65536L, 65542L, 131072L}) ns.insert(n);
  int k = 0; for (long h : nat::hints()) if (h >= 0 && h < 200000 && k++ < 300) ns.insert(h);
  for (long n : ns) {
    if (n < 0) continue;
    bool sup = tr::algebraic_order_by_npts(n) >= 0;
    nat::kase(nat::fmt("%s(%ld)", nm, n)); ++nat::evals;
    bool thrown = false; std::vector<std::array<double,3>> P; std::vector<double> W; size_t m = 0;
    try { Q q(n); P = q.points(); W = q.weights(); m = q.npts(); } catch (const std::exception&) { thrown = true; }
    if (!sup) { nat::expect(thrown, "a grid is returned for a size the order lookup does not know"); continue; }
    if (thrown) { nat::fail("construction fails for a size with an order"); continue; }
    if ((long)m != n || (long)P.size() != n || (long)W.size() != n) { nat::fail(nat::fmt("npts %zu, %zu points, %zu weights", m, P.size(), W.size())); continue; }
    auto it = T[f].find(n); if (it == T[f].end()) continue;
    auto& t = it->second; if ((long)t.np != n || (long)t.nw != n) { nat::fail("the table does not have that many entries"); continue; }
    long bp = -1, bw = -1;
    for (long i = 0; i < n; ++i) { if (P[i] != t.p[i] && bp < 0) bp = i; double w = scaled ? t.w[i] * (4.0 * M_PI) : t.w[i]; if (!(std::abs(W[i] - w) <= 1e-15 * std::abs(w)) && bw < 0) bw = i; }
    nat::evals += 2 * n;
    if (bp >= 0) nat::fail(nat::fmt("point %ld is not the tabulated one", bp));
    if (bw >= 0) nat::fail(nat::fmt("weight %ld is %.17g, tabulated %.17g%s", bw, W[bw], t.w[bw], scaled ? " (times 4 pi)" : ""));
  }
}
int main() {
  fill();
  fam<LebedevLaikov<double>>(0, "LebedevLaikov", true); fam<Delley<double>>(1, "Delley", true); fam<AhrensBeylkin<double>>(2, "AhrensBeylkin", false); fam<Womersley<double>>(3, "Womersley", false);
  printf("STAT tables %zu\n", T[0].size() + T[1].size() + T[2].size() + T[3].size());
  return nat::done();
}
