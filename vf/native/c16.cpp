#include <cassert>
#include <tuple>
#include <integratorxx/util/bound_transform.hpp>
#include "nat.hpp"
typedef long double L;
static const double INF = std::numeric_limits<double>::infinity();
static void one(double lo, double up, double x, double w) {
  if (!(lo < up)) return;
  nat::cur = nat::fmt("lo=%.17g up=%.17g x=%.17g w=%.17g", lo, up, x, w); ++nat::cases;
  auto [p, v] = IntegratorXX::transform_minus_one_to_one(lo, up, x, w);
  L X = x, P, J;
  if (lo > -INF && up < INF) { P = ((L)up - lo) * X / 2 + ((L)up + lo) / 2; J = ((L)up - lo) / 2; }
  else if (lo > -INF) { P = lo + (1 + X) / (1 - X); J = 2 / ((1 - X) * (1 - X)); }
  else if (up < INF) { P = up - (1 - X) / (1 + X); J = 2 / ((1 + X) * (1 + X)); }
  else { P = X / (1 - X * X); J = (1 + X * X) / ((1 - X * X) * (1 - X * X)); }
  double sc = std::max(lo > -INF ? std::abs(lo) : 0, up < INF ? std::abs(up) : 0);
  if (lo == -INF || up == INF) sc += 1;   // equally good ways of writing the map differ by rounding of this size
  double kap = 4e-15 / (1 - std::abs(x));   // forming 1 - x^2 loses this much near the end points
  nat::near(p, (double)P, 1e-11 + kap, "point", -1, sc + 1e-300);
  nat::near(v, (double)(J * w), 1e-10 + kap, "weight", -1, 1e-300);
}
int main() {
  std::vector<double> xs; for (int i = 1; i < 40; ++i) xs.push_back(-1 + i / 20.0);
  for (double d : {1e-3, 1e-6}) { xs.push_back(1 - d); xs.push_back(-1 + d); }
  std::vector<double> h = nat::rhints(); for (double a : h) for (double e : {0.0, 1e-9, -1e-9}) if (a + e > -1 && a + e < 1) xs.push_back(a + e);
  std::vector<double> bs = {-INF, -100, -7.5, -1, -1e-3, 0, 1e-3, 0.5, 1, 2, 42, INF};
  for (double a : h) if (bs.size() < 50) { bs.push_back(a); bs.push_back(a + 1); }
  for (int k = 0; k < 4000 * (nat::thorough() ? 20 : 1); ++k) xs.push_back(nat::uni(-1, 1));
  size_t i = 0;
  for (double x : xs) { ++i; for (double lo : bs) for (double up : bs) if (i < 200 || (i % 16) == 0 || !std::isfinite(lo) || !std::isfinite(up)) for (double w : {0.7, -1.5}) one(lo, up, x, w); }
  for (int k = 0; k < 20000; ++k) one(nat::uni(-50, 50), nat::uni(-50, 50), nat::uni(-1, 1), nat::uni(-2, 2));
  return nat::done();
}
