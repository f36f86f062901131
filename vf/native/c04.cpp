// Bounded check of the radial maps and Jacobians against the published formulas.
#include <integratorxx/quadratures/radial.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
typedef long double L;
template <class C> void one(const char* nm, const C& t, double x, L r, L j, bool jpos, double sc = 0, double scj = 0) {
  // sc, scj: magnitude of the rounding unavoidable in a logarithm of a number near 1, whatever the way the formula is written
  double gr = t.radial_transform(x), gj = t.radial_jacobian(x);
  nat::near(gr, (double)r, 1e-11, "map", -1, 1e-300 + sc);
  nat::near(gj, (double)j, 1e-10, "Jacobian", -1, 1e-300 + scj);
  if ((double)r > 1e-11 * sc) nat::expect(gr > 0, nat::fmt("map %.17g is not positive", gr));
  if (jpos) nat::expect(gj > 0, nat::fmt("Jacobian %.17g is not positive", gj));
}
template <size_t P> void mhl(const std::string& s, long n, double R, double x) { L X = x, Y = X/(1-X); nat::cur = nat::fmt("MurrayHandyLaming<%d> ", (int)P) + s;
  one("MHL", MurrayHandyLamingRadialTraits<P>(n, R), x, R*powl(Y, P), R*P*powl(Y, (int)P - 1)/((1-X)*(1-X)), x > 1e-3); }
static void all(long n, double R, double al, double x) {
  L X = x, RR = R;
  nat::cur = nat::fmt("n=%ld R=%.17g alpha=%.17g x=%.17g", n, R, al, x); ++nat::cases;
  { auto s = nat::cur; nat::cur = "Becke " + s; one("Becke", BeckeRadialTraits(n, R), x, RR*(1+X)/(1-X), 2*RR/((1-X)*(1-X)), true);
    nat::cur = "TreutlerAhlrichs " + s; L p = powl(1+X, al), l = logl(2/(1-X)), l2 = logl(2.0L);
    one("TA", TreutlerAhlrichsRadialTraits(n, R, al), x, RR*p*l/l2, RR*p/l2*(al*l/(1+X) + 1/(1-X)), al >= 0, (double)(RR*p*1e-3L), (double)(RR*p*1e-3L) * (1 + std::abs(al) / (1 + x)));
    if (x > 0) { L Y = X/(1-X); nat::cur = "MurrayHandyLaming " + s; one("MHL", MurrayHandyLamingRadialTraits<2>(n, R), x, RR*Y*Y, RR*2*X/((1-X)*(1-X)*(1-X)), true);
      mhl<1>(s, n, R, x); mhl<3>(s, n, R, x); mhl<4>(s, n, R, x); mhl<7>(s, n, R, x);
      nat::cur = "MuraKnowles " + s; one("MK", MuraKnowlesRadialTraits(n, R), x, -RR*log1pl(-X*X*X), 3*RR*X*X/(1-X*X*X), x > 1e-5, R * 1e-3, R * 1e-3 * x); }
  }
}
int main() {
  std::vector<double> xs, Rs = {1, 0.5, 2, 1e-3, 1e3, 0.529177, 7}, as = {0, 0.6, 1, 2, -0.5, 0.3, 1.7};
  for (int i = 1; i < 100; ++i) xs.push_back(-1 + i / 50.0);
  for (double e : {1e-3, 1e-4, 1e-6}) { xs.push_back(-1 + e); xs.push_back(1 - e); }
  for (int i = 0; i < (nat::thorough() ? 20000 : 1500); ++i) xs.push_back(nat::uni(-1, 1));
  for (double x : xs) if (std::abs(x) > 1e-3)
    for (int k = 0; k < 3; ++k) all(nat::irand(1, 2000), Rs[nat::irand(0, Rs.size()-1)], as[nat::irand(0, as.size()-1)], x);
  for (int k = 0; k < (nat::thorough() ? 200000 : 20000); ++k) { double x = nat::uni(-1, 1); if (std::abs(x) > 1e-3) all(nat::irand(1, 5000), std::exp(nat::uni(-8, 8)), nat::uni(-0.9, 4), x); }
  std::vector<double> h = nat::rhints();
  std::vector<long> ih = nat::sizes(1, 3, 1000000);
  for (double a : h) for (double d : {0.0, 1e-6, -1e-6, 0.25, -0.25}) {
    double v = a + d;
    for (int k = 0; k < 12; ++k) { double x = nat::uni(-1, 1), R = std::exp(nat::uni(-2, 2)), al = nat::uni(0, 3);
      if (v > -1 && v < 1 && std::abs(v) > 1e-6) all(10, R, al, v);
      if (std::abs(x) > 1e-3) { if (v > 0) all(10, v, al, x); if (v > -4 && v < 20) all(10, R, v, x); } }
  }
  for (long n : ih) for (int k = 0; k < 5; ++k) all(n, 1.3, 0.6, nat::uni(0.01, 0.99));
  // defaults
  for (int k = 0; k < 200; ++k) { double x = nat::uni(0.01, 0.99); L X = x;
    nat::kase(nat::fmt("default parameters x=%.17g", x));
    nat::near(BeckeRadialTraits(5).radial_transform(x), (double)((1+X)/(1-X)), 1e-12, "Becke map");
    nat::near(MurrayHandyLamingRadialTraits<2>(5).radial_transform(x), (double)(X/(1-X)*X/(1-X)), 1e-12, "MHL map", -1, 1e-300);
    nat::near(MuraKnowlesRadialTraits(5).radial_transform(x), (double)-log1pl(-X*X*X), 1e-10, "MK map", -1, 1e-4);
    nat::near(TreutlerAhlrichsRadialTraits(5).radial_transform(x), (double)(powl(1+X,0.6L)*logl(2/(1-X))/logl(2.0L)), 1e-12, "TA map"); }
  return nat::done();
}
