// Bounded check: recentring is a translation; copies are independent.
#include "sphnat.hpp"
static vp moved(const vp& p, pt a, pt b) { vp q = p; for (auto& x : q) for (int d = 0; d < 3; ++d) x[d] += b[d] - a[d]; return q; }
template <class Q> void drive(Q& s, const char* nm, const std::vector<pt>& cen, long len) {
  grid g{s.points(), s.weights()}; pt c0 = s.center(), cur = c0; double mag = cmag(c0);
  std::string seq = cs(c0);
  for (long k = 0; k < len; ++k) {
    pt c = cen[nat::irand(0, cen.size() - 1)];
    if (nat::irand(0, 3) == 0) { c = cur; c[nat::irand(0, 2)] += nat::uni(-2, 2); }
    if (nat::irand(0, 7) == 0) c = cur;
    if (nat::irand(0, 3) == 0) { c = cur; c[nat::irand(0, 2)] = 0; }
    seq += "->" + cs(c); nat::cur = nat::fmt("%s recentre sequence ", nm) + seq;
    if (nat::irand(0, 1)) s.recenter(c); else { SB& b = s; b.recenter(c); }
    cur = c; mag = std::max(mag, cmag(c));
    nat::expect(s.center() == c, "reported centre is not the new one");
    cmpg(s.points(), s.weights(), grid{moved(g.p, c0, c), g.w}, "after recentring", mag);
  }
}
template <class Q> void clones(const Q& s0, const char* nm, const std::vector<pt>& cen) {
  for (int how = 0; how < 4; ++how) {
    Q s(s0); grid g{s0.points(), s0.weights()}; pt c0 = s0.center();
    nat::cur = nat::fmt("%s copy/clone variant %d n=%zu", nm, how, g.p.size());
    std::shared_ptr<SB> k = how & 1 ? s.clone() : std::shared_ptr<SB>(std::make_shared<Q>(s));
    auto same = [&](const SB& x, const char* t) { nat::expect(x.points() == g.p && x.weights() == g.w && x.center() == c0 && x.npts() == g.p.size(), t); };
    same(s, "source changed by copying"); same(*k, "copy differs from the source");
    nat::expect(g.p.empty() || (k->points().data() != s.points().data() && k->weights().data() != s.weights().data()), "copy shares storage");
    pt c1 = cen[nat::irand(0, cen.size() - 1)]; c1[1] += 1;
    if (how & 2) { s.recenter(c1); for (auto& w : s.weights()) w += 1; same(*k, "copy changed when the source changed"); }
    else { k->recenter(c1); for (auto& w : k->weights()) w += 1; for (auto& p : k->points()) p[0] -= 1; same(s, "source changed when the copy changed"); }
    std::shared_ptr<SB> kk = k->clone(); nat::expect(kk->points() == k->points() && kk->weights() == k->weights() && kk->center() == k->center(), "clone of a copy differs");
    auto c2 = kk->center(); c2[2] += 1; kk->recenter(c2); nat::expect(kk->center() == c2, "centre");
  }
  Q m(s0); Q mm(std::move(m)); nat::expect(mm.points() == s0.points() && mm.weights() == s0.weights() && mm.center() == s0.center(), "moved-to grid differs");
}
int main() {
  auto cen = centres();
  std::vector<std::pair<long,long>> sz = {{0,0},{0,3},{3,0},{1,1},{2,1},{1,2},{3,4},{5,7},{8,8},{16,16},{33,4},{64,16},{100,11}};
  for (auto h : nat::hints()) for (long d : {-1L, 0L, 1L}) if (h + d > 0 && h + d <= 4096 && sz.size() < 60) { sz.push_back({h + d, 1}); sz.push_back({1, h + d}); if (h + d < 200) sz.push_back({h + d, 3}); }
  for (auto [nr, na] : sz) for (size_t ci = 0; ci < cen.size(); ci += 1 + (nr * na > 100) * 3) {
    pt c = cen[ci];
    nat::kase(nat::fmt("grids nr=%ld na=%ld centre=%s", nr, na, cs(c).c_str()));
    RQ r(rvec(nr), rvec(nr)); AQ a(pvec(na), rvec(na));
    { SQ s(r, a, c); clones(s, "product", cen); drive(s, "product", cen, nat::thorough() ? 60 : 12); }
    if (nr > 0) {
      RGP g(r, 0, a); PQ s(r, g, c); clones(s, "pruned(1)", cen); drive(s, "pruned(1)", cen, 8);
      if (nr > 1) { AQ b(pvec(na + 2), rvec(na + 2)); RGP g2(r, 0, a, nr / 2, b); PQ s2(r, g2, c); clones(s2, "pruned(2)", cen); drive(s2, "pruned(2)", cen, 8); }
    }
  }
  return nat::done();
}
