// Bounded check: the quadrature container.
#include "sphnat.hpp"
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/quadratures/primitive.hpp>
template <class Q> void chk(const Q& q, const typename Q::point_container& P, const typename Q::weight_container& W, bool full) {
  size_t n = P.size();
  nat::expect(q.npts() == n && q.points() == P && q.weights() == W, "contents differ from the rule");
  Q m(q); nat::expect(m.points_data() == m.points().data() && m.weights_data() == m.weights().data() && q.points_data() == q.points().data() && q.weights_data() == q.weights().data(), "raw pointers");
  for (size_t i = 0; i < n; ++i) { bool ok = false; try { ok = q.points(i) == P[i] && q.weights(i) == W[i]; } catch (...) {} nat::expect(ok, nat::fmt("indexed access %zu", i)); }
  std::vector<size_t> bad = {n, n + 1, n + 2, 2*n + 1, n + 1000, (size_t)-1, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 0, (size_t)1 << 61, (size_t)1 << 63, (size_t)-1 - n}; for (auto h : nat::hints()) if (h >= 0) bad.push_back(h); if (n) bad.push_back(((size_t)1 << 32) + n - 1);
  for (auto i : bad) if (i >= n) { int t = 0; try { (void)q.points(i); } catch (const std::out_of_range&) { t |= 1; } catch (...) {} try { (void)q.weights(i); } catch (const std::out_of_range&) { t |= 2; } catch (...) {}
    nat::expect(t == 3, nat::fmt("indexed access %zu of %zu does not throw", i, n)); }
  Q c(q); nat::expect(c.points() == P && c.weights() == W, "copy differs"); nat::expect(!n || (c.points_data() != q.points_data() && c.weights_data() != q.weights_data()), "copy shares storage");
  if (n) { c.weights()[n-1] += 1; c.points()[n/2] = P[0]; c.points().pop_back(); nat::expect(q.points() == P && q.weights() == W, "source changed with its copy"); }
  Q a(q), b(std::move(a)); nat::expect(b.points() == P && b.weights() == W && b.npts() == n, "moved-to object differs");
  Quadrature<Q> s(q); nat::expect(s.points() == P && s.weights() == W && s.npts() == n, "base-class copy differs"); nat::expect(!n || s.points_data() != q.points_data(), "base-class copy shares storage");
  Q d(q); Quadrature<Q> s2(std::move(d)); nat::expect(s2.points() == P && s2.weights() == W, "base-class move differs");
  Quadrature<Q> s3(s); nat::expect(s3.points() == P && s3.weights() == W, "copy of the base differs");
}
template <class Q> void subs(const Q& q, size_t b, size_t e) {
  nat::cur += nat::fmt(" range [%zu,%zu)", b, e);
  SubQuadrature<Q> s({b, e}, q); bool ok = s.npts() == e - b && s.points().size() == e - b && s.weights().size() == e - b;
  for (size_t i = 0; ok && i < e - b; ++i) ok = s.points()[i] == q.points()[b+i] && s.weights()[i] == q.weights()[b+i];
  nat::expect(ok, "sub-range differs");
}
int main() {
  long N = nat::thorough() ? 40 : 14;
  for (long n : nat::sizes(0, N, 4096, {16,17,31,32,33,63,64,65,100,127,128,129,256,257,1000,1024})) {
    nat::kase(nat::fmt("container of %ld entries", n));
    vd p = rvec(n), w = rvec(n); vp P = pvec(n);
    RQ r(p, w); chk(r, p, w, true); AQ a(P, w); chk(a, P, w, true);
    for (long b = 0; b <= n; ++b) for (long e = b + 1; e <= n; ++e) { if (n > N && nat::irand(0, n*n/200)) continue; auto s = nat::cur; subs(r, b, e); nat::cur = s; }
    if (n > 0) for (auto [b, e] : std::vector<std::pair<long,long>>{{0,n},{0,1},{n-1,n},{n/2,n},{0,(n+1)/2}}) { auto s = nat::cur; subs(r, b, e); nat::cur = s; }
  }
  for (long n : nat::sizes(2, 24, 600, {100,257})) { nat::kase(nat::fmt("primitive rules, %ld points", n));
    { UniformTrapezoid<double,double> q(n, 1.5, 4.0); auto g = quadrature_traits<UniformTrapezoid<double,double>>::generate(n, 1.5, 4.0); chk(q, std::get<0>(g), std::get<1>(g), true); }
    { GaussChebyshev2<double,double> q(n); auto g = quadrature_traits<GaussChebyshev2<double,double>>::generate(n); chk(q, std::get<0>(g), std::get<1>(g), true); subs(q, n/3, n - n/3); }
    { GaussLegendre<double,double> q(n); auto g = quadrature_traits<GaussLegendre<double,double>>::generate(n); chk(q, std::get<0>(g), std::get<1>(g), true); } }
  return nat::done();
}
