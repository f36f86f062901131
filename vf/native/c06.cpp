// Bounded check: spherical grid = product of the two rules.
#include "sphnat.hpp"
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
static void one(long nr, long na, pt c, bool scratchc) {
  nat::kase(nat::fmt("product grid nr=%ld na=%ld centre=%s", nr, na, cs(c).c_str()));
  vd rp = rvec(nr), rw = rvec(nr), aw = rvec(na); vp ap = pvec(na);
  RQ r(rp, rw); AQ a(ap, aw);
  SQ s(r, a, c);
  cmpg(s.points(), s.weights(), product(rp, rw, ap, aw, 0, nr, c), "grid", cmag(c));
  nat::expect(s.npts() == (size_t)(nr*na), "npts() is not nr*na");
  nat::expect(s.center() == c, "center() is not the given centre");
  const SB& b = s; nat::expect(b.npts() == s.npts() && b.points() == s.points() && b.weights() == s.weights(), "base class view differs");
  nat::expect(r.points() == rp && r.weights() == rw && a.points() == ap && a.weights() == aw, "an input rule was modified");
  if (scratchc) { SQ z(r, a); cmpg(z.points(), z.weights(), product(rp, rw, ap, aw, 0, nr, {0,0,0}), "grid without centre"); nat::expect(z.center() == pt{0,0,0}, "default centre is not the origin"); }
}
int main() {
  auto cen = centres();
  long N = nat::thorough() ? 14 : 7;
  for (long nr = 0; nr <= N; ++nr) for (long na = 0; na <= N; ++na) one(nr, na, cen[(nr*3 + na) % cen.size()], true);
  for (auto& c : cen) one(3, 4, c, false);
  for (long n : nat::sizes(0, 0, 4096, {16,17,31,32,33,64,65,100,128,129,255,256,257,500,512,1000,1024,2048})) { one(n, 3, cen[n % cen.size()], true); one(3, n, cen[(n+1) % cen.size()], true); one(1, n, cen[1], false); one(n, 1, cen[1], false);
    if (n <= 512) one(n, n <= 100 ? n : 100, cen[1], false); }
  for (long n : {1L, 2L, 7L, 30L, 75L, 101L}) for (long m : {6L, 14L, 50L, 110L, 302L}) {
    nat::kase(nat::fmt("MuraKnowles(%ld) x LebedevLaikov(%ld)", n, m));
    MuraKnowles<double,double> r(n, 2.0); LebedevLaikov<double> a(m); pt c = cen[(n + m) % cen.size()];
    SphericalQuadrature<MuraKnowles<double,double>, LebedevLaikov<double>> s(r, a, c);
    cmpg(s.points(), s.weights(), product(r.points(), r.weights(), a.points(), a.weights(), 0, n, c), "grid", cmag(c));
  }
  return nat::done();
}
