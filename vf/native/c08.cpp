// Bounded check: pruned grid = concatenation of region products.
#include "sphnat.hpp"
static void one(long nr, const std::vector<size_t>& b, pt c, long maxa) {
  std::string s; for (auto x : b) s += nat::fmt("%zu ", x);
  nat::kase(nat::fmt("pruned grid nr=%ld starts=%scentre=%s", nr, s.c_str(), cs(c).c_str()));
  vd rp = rvec(nr), rw = rvec(nr); RQ r(rp, rw); RGP g; grid want;
  std::vector<AQ> as;
  for (size_t k = 0; k < b.size(); ++k) {
    long na = nat::irand(0, 5) ? nat::irand(1, maxa) : 0; AQ a(pvec(na), rvec(na)); g.add_quad(r, b[k], a); as.push_back(a);
    auto q = product(rp, rw, a.points(), a.weights(), b[k], k + 1 < b.size() ? b[k+1] : nr, c);
    want.p.insert(want.p.end(), q.p.begin(), q.p.end()); want.w.insert(want.w.end(), q.w.begin(), q.w.end());
  }
  g.finalize(r);
  nat::expect(g.partition_idx().size() == b.size() + 1, "partition bounds");
  PQ p(r, g, c); cmpg(p.points(), p.weights(), want, "grid", cmag(c));
  nat::expect(p.npts() == want.p.size() && p.center() == c, "npts/center");
  size_t k = 0; for (auto it = g.begin(); it != g.end(); ++it, ++k) { auto v = *it; nat::expect(v.first.first == b[k] && v.first.second == (k + 1 < b.size() ? b[k+1] : (size_t)nr) && v.second.points() == as[k].points() && v.second.weights() == as[k].weights(), nat::fmt("iteration over regions: region %zu", k)); if (k >= b.size()) break; }
  RGP g2(g); PQ p2(r, g2, c); nat::expect(p2.points() == p.points() && p2.weights() == p.weights(), "grid from a copied partition differs");
  RGP g3(g); PQ p3(r, g3, c); nat::expect(p3.points() == p.points() && p3.weights() == p.weights(), "grid from a copied partition differs");
  RGP g4(std::move(g3)); RGP g5; g5 = std::move(g4); PQ p5(r, g5); grid w0 = want; for (auto& x : w0.p) for (int d = 0; d < 3; ++d) x[d] -= c[d];
  cmpg(p5.points(), p5.weights(), w0, "grid without centre", cmag(c));
  nat::expect(r.points() == rp && r.weights() == rw, "radial rule modified");
  if (b.size() == 1) { SQ u(r, as[0], c); nat::expect(u.points() == p.points() && u.weights() == p.weights(), "single-region grid differs from the product grid"); RGP h(r, 0, as[0]); PQ q(r, h, c); nat::expect(q.points() == u.points() && q.weights() == u.weights(), "single-region constructor"); }
  if (b.size() == 2) { RGP h(r, b[0], as[0], b[1], as[1]); PQ q(r, h, c); nat::expect(q.points() == p.points() && q.weights() == p.weights(), "two-region constructor differs"); }
  if (b.size() == 3) { RGP h(r, b[0], as[0], b[1], as[1], b[2], as[2]); PQ q(r, h, c); nat::expect(q.points() == p.points() && q.weights() == p.weights(), "three-region constructor differs"); }
}
int main() {
  auto cen = centres(); size_t ci = 0;
  long N = nat::thorough() ? 11 : 8;   // all partitions of up to N shells
  for (long nr = 1; nr <= N; ++nr) for (long m = 0; m < (1L << (nr - 1)); ++m) { std::vector<size_t> b = {0}; for (long k = 1; k < nr; ++k) if (m >> (k-1) & 1) b.push_back(k); one(nr, b, cen[ci++ % cen.size()], 4); }
  for (long n : nat::sizes(9, 9, 1200, {16,33,64,65,99,100,128,200,257,512,1000})) for (int t = 0; t < 6; ++t) {
    std::set<size_t> s = {0}; long R = t == 0 ? 0 : t == 1 ? n - 1 : nat::irand(1, std::min(n - 1, 40L)); for (long k = 0; k < R; ++k) s.insert(t == 1 ? k + 1 : nat::irand(1, n - 1)); if (t == 2) s.insert(n - 1);
    one(n, {s.begin(), s.end()}, cen[ci++ % cen.size()], n > 300 ? 6 : 20);
  }
  return nat::done();
}
