// Bounded search: the order/size lookups of the four angular families.
#include <array>
#include <memory>
#include <stdexcept>
#include <cassert>
#include <map>
#include <limits>
#include "nat.hpp"
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
template <class Q> void fam(const char* nm) {
  using tr = quadrature_traits<Q>;
  const int64_t LO = -2000, HI = 70000, MN = std::numeric_limits<int64_t>::min(), MX = std::numeric_limits<int64_t>::max();
  std::map<int64_t, int64_t> o2n, n2o; std::set<int64_t> args;
  for (int64_t v = LO; v <= HI; ++v) args.insert(v);
  for (int k = 0; k < 63; ++k) for (int d = -2; d <= 2; ++d) { args.insert((int64_t(1) << k) + d); args.insert(-(int64_t(1) << k) + d); }
  for (int d = 0; d < 5; ++d) { args.insert(MN + d); args.insert(MX - d); }
  for (long h : nat::hints()) for (int64_t d : {-1L, 0L, 1L}) args.insert(h + d);
  for (int i = 0; i < 2000; ++i) args.insert((int64_t)nat::rng()());
  for (int64_t v : std::vector<int64_t>(args.begin(), args.end())) if (tr::npts_by_algebraic_order(v) > 0 || tr::algebraic_order_by_npts(v) >= 0) for (int64_t a : {int64_t(1) << 32, int64_t(1) << 31, int64_t(1) << 16, int64_t(1) << 8}) { args.insert(v + a); args.insert(v - a); args.insert(-v); }
  for (int64_t v : args) {
    int64_t n = tr::npts_by_algebraic_order(v), o = tr::algebraic_order_by_npts(v); nat::evals += 2;
    if (n != -1) o2n[v] = n;
    if (o != -1) n2o[v] = o;
  }
  nat::kase(nat::fmt("%s lookups: %zu orders, %zu sizes", nm, o2n.size(), n2o.size()));
  nat::expect(!o2n.empty(), "no order is supported");
  for (auto [o, n] : o2n) { nat::expect(o >= 0 && n > 0, nat::fmt("npts_by_algebraic_order(%ld) = %ld", (long)o, (long)n)); nat::expect(tr::algebraic_order_by_npts(n) == o, nat::fmt("npts_by_algebraic_order(%ld) = %ld but algebraic_order_by_npts(%ld) = %ld", (long)o, (long)n, (long)n, (long)tr::algebraic_order_by_npts(n))); }
  for (auto [n, o] : n2o) nat::expect(o >= 0 && tr::npts_by_algebraic_order(o) == n, nat::fmt("algebraic_order_by_npts(%ld) = %ld but npts_by_algebraic_order(%ld) = %ld", (long)n, (long)o, (long)o, (long)tr::npts_by_algebraic_order(o)));
  int64_t po = -1, pn = -1; for (auto [o, n] : o2n) { if (po >= 0) nat::expect(pn < n, nat::fmt("orders %ld < %ld have sizes %ld >= %ld", (long)po, (long)o, (long)pn, (long)n)); po = o; pn = n; }
  for (int64_t v : args) { auto it = o2n.lower_bound(v); if (it == o2n.end() && !o2n.empty()) --it; if (it == o2n.end()) continue; int64_t g = tr::next_algebraic_order(v); nat::expect(g == it->first, nat::fmt("next_algebraic_order(%ld) = %ld, expected %ld", (long)v, (long)g, (long)it->first)); }
}
int main() {
  fam<LebedevLaikov<double>>("LebedevLaikov"); fam<Delley<double>>("Delley"); fam<AhrensBeylkin<double>>("AhrensBeylkin"); fam<Womersley<double>>("Womersley");
  return nat::done();
}
