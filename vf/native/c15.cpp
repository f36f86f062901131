#include <csignal>
#include <unistd.h>
// Bounded check: micro-batches partition the grid into bounded, tight, non-empty batches.
#include "sphnat.hpp"
#include <map>
#include <limits>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
// a grid with arbitrary points and weights
struct GQ : SB {
  vp p; vd w;
  GQ(const vp& p_, const vd& w_) : SB(pt{0,0,0}), p(p_), w(w_) {}
  const vp& sph_points_adaptor() const override { return p; }
  vp& sph_points_adaptor() override { return p; }
  const vd& sph_weights_adaptor() const override { return w; }
  vd& sph_weights_adaptor() override { return w; }
  std::shared_ptr<SB> clone() const override { return std::make_shared<GQ>(*this); }
};
using B = SphericalMicroBatcher<vp,vd>;
using pw = std::pair<pt,double>;
static std::vector<pw> bag(const vp& p, const vd& w) {
  std::vector<pw> v; for (size_t i = 0; i < p.size() && i < w.size(); ++i) v.push_back({p[i], w[i]});
  std::sort(v.begin(), v.end()); return v;
}
template <class V> static void batch(const V& v, size_t mx, const char* how, size_t k, vp& ap, vd& aw) {
  const auto& [lo, up, p, w] = v;
  nat::expect(!p.empty(), nat::fmt("%s: batch %zu is empty", how, k));
  nat::expect(p.size() <= mx, nat::fmt("%s: batch %zu holds %zu points, more than %zu", how, k, p.size(), mx));
  nat::expect(p.size() == w.size(), nat::fmt("%s: batch %zu has %zu points and %zu weights", how, k, p.size(), w.size()));
  if (p.empty()) return;
  pt l = p[0], u = p[0];
  for (auto& x : p) for (int d = 0; d < 3; ++d) { l[d] = std::min(l[d], x[d]); u[d] = std::max(u[d], x[d]); }
  nat::expect(l == lo && u == up, nat::fmt("%s: the box of batch %zu (%zu points) is (%.17g %.17g %.17g)-(%.17g %.17g %.17g), the points span (%.17g %.17g %.17g)-(%.17g %.17g %.17g)", how, k, p.size(),
    lo[0], lo[1], lo[2], up[0], up[1], up[2], l[0], l[1], l[2], u[0], u[1], u[2]));
  ap.insert(ap.end(), p.begin(), p.end()); aw.insert(aw.end(), w.begin(), w.end());
}
template <class V> static bool same(const V& a, const V& b) { return a == b; }
template <class F> static void throws(F f, size_t i, const char* how) {
  bool t = false; try { (void)f(i); } catch (const std::exception&) { t = true; }
  nat::expect(t, nat::fmt("%s(%zu) is out of range and did not throw", how, i));
}
template <class I, class = void> struct cmp : std::false_type {};
template <class I> struct cmp<I, std::void_t<decltype(std::declval<I&>() == std::declval<I&>()), decltype(std::declval<I&>() != std::declval<I&>())>> : std::true_type {};
template <class X> static size_t ncount(const X& b, size_t mx) {
  size_t n = 0;
  if constexpr (cmp<decltype(b.cbegin())>::value) { for (auto it = b.cbegin(); it != b.cend() && n <= mx; ++it) ++n; return n; }
  else return ~size_t(0);
}
static void check(B& b, const vp& p, const vd& w, size_t mx, bool full) {
  auto want = bag(p, w);
  const B& cb = b;
  nat::expect(b.npts() == p.size(), nat::fmt("npts() is %zu, the grid has %zu points", b.npts(), p.size()));
  nat::expect(b.max_batch_size() == mx, "max_batch_size() is not the given size");
  nat::expect(bag(b.points(), b.weights()) == want, "points()/weights() are not a permutation of the grid's pairs");
  vp ap; vd aw; size_t k = 0; std::vector<decltype(*b.begin())> its;
  for (auto it = b.begin(); it != b.end(); ++it) { if (k > p.size()) break; its.push_back(*it); batch(its.back(), mx, "iteration", k++, ap, aw); }
  nat::expect(k == b.nbatches(), nat::fmt("iteration gives %zu batches, nbatches() is %zu", k, b.nbatches()));
  nat::expect(ap.size() == aw.size() && bag(ap, aw) == want, nat::fmt("the batches together (%zu points) do not contain every (point, weight) pair of the grid (%zu) exactly once", ap.size(), p.size()));
  size_t nb = std::min(k, b.nbatches());
  for (size_t i = 0; i < nb; i = full || i < 40 || i + 40 > nb ? i + 1 : i + 7) {
    nat::expect(same(b.at(i), its[i]), nat::fmt("at(%zu) differs from iteration", i));
    nat::expect(same(cb.at(i), its[i]), nat::fmt("const at(%zu) differs from iteration", i));
    nat::expect(same(*(b.begin() + (int)i), its[i]), nat::fmt("*(begin()+%zu) differs from iteration", i));
    nat::expect(same(*(b.cbegin() + (int)i), its[i]), nat::fmt("*(cbegin()+%zu) differs from iteration", i));
  }
  size_t j = 0; auto ci = b.cbegin(); for (auto it = b.begin(); j < nb; it++, ci++, ++j) { nat::expect(same(*it, its[j]), "it++ gives another batch"); nat::expect(same(*ci, its[j]), "const iteration gives another batch"); }
  size_t n = b.nbatches();
  nat::expect(ncount(cb, p.size()) == n, cmp<decltype(cb.cbegin())>::value ? "iteration from cbegin() to cend() does not visit nbatches() batches" : "const iterators of the batches cannot be compared: iteration from cbegin() to cend() is not possible");
  if (n && (full || n < 50)) {
    B k = b.clone(); auto bp = b.points(); auto bw = b.weights(); k.recenter(pt{1, 2, -3});
    nat::expect(b.points() == bp && b.weights() == bw, "recentring a clone of the batcher changed the original");
    nat::expect(k.nbatches() == n && k.weights() == bw, "recentring a batcher changed its batches");
    vp kp; vd kw; size_t kn = 0; for (auto it = k.begin(); it != k.end() && kn <= p.size(); ++it) batch(*it, mx, "iteration after recentring", kn++, kp, kw);
    nat::expect(kp == k.points() && kw == bw, "after recentring the batches together are not the grid");
  }
  for (size_t i : {n, n + 1, n + 2, 2 * n + 5, (size_t)1 << 31, ((size_t)1 << 31) + 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 62, ~(size_t)0 - 1, ~(size_t)0}) {
    throws([&](size_t x) { return b.at(x); }, i, "at"); throws([&](size_t x) { return cb.at(x); }, i, "const at");
  }
}
static size_t mult(const vp& p) { std::map<pt,size_t> m; size_t r = 0; for (auto& x : p) r = std::max(r, ++m[x]); return r; }
// (mult(p) <= mx: the refinement always ends)
static void hung(int) { std::printf("FAIL batching does not return (20 s): %s\n", nat::cur.c_str()); std::fflush(stdout); _exit(0); }
static void one(const char* kind, const vp& p, const vd& w, size_t mx, bool copy = false) {
  if (p.empty() || mult(p) > mx) return;      // batching cannot terminate on more coincident points
  nat::kase(nat::fmt("%s grid of %zu points, batches of at most %zu", kind, p.size(), mx));
  GQ g(p, w);
  alarm(20);
  B b(mx, static_cast<const GQ&>(g));
  alarm(0);
  check(b, p, w, mx, p.size() < 400);
  nat::expect(g.p == p && g.w == w, "batching a const grid modified the caller's grid");
  if (copy) {
    auto c = b.clone(); check(c, p, w, mx, false);
    B d(mx, GQ(p, w)); check(d, p, w, mx, false);
auto gr = product(vd{1,2}, vd{1,1}, p, w, 0, 2, {0,0,0});
    if (mult(gr.p) <= mx) { auto e = make_batcher(mx, SQ(RQ(vd{1,2}, vd{1,1}), AQ(p, w))); check(e, gr.p, gr.w, mx, false); }
  }
}
static vp shape(int k, long n) {
  vp v(n); auto u = [] { return nat::uni(-1, 1); };
  for (long i = 0; i < n; ++i) switch (k) {
    case 0: v[i] = {u(), u(), u()}; break;
    case 1: v[i] = {(double)nat::irand(-4, 4), (double)nat::irand(-4, 4), (double)nat::irand(-4, 4)}; break;    // lattice
    case 2: v[i] = {(double)i, 0, 0}; break;                                                                // line
    case 3: v[i] = {u(), 0.25, u()}; break;                                                                 // plane
    case 4: { double r = std::pow(10.0, nat::uni(-6, 2)); v[i] = {r*u(), r*u(), r*u()}; } break;             // clustered at the origin
    case 5: { double s = i % 3 == 0 ? 1e3 : -7; v[i] = {s + u(), s - u(), 2*s + u()}; } break;                // clusters far from the origin
    case 6: v[i] = {1 + (double)(i % 7), 2 + (double)((i / 7) % 7), 3 + (double)(i / 49)}; break;             // regular, away from the origin
    case 7: v[i] = {std::pow(0.5, i % 40), -(double)(i % 11), (double)(i / 40)}; break;
    case 8: v[i] = {-(double)i, -(double)i * i, 1.0}; break;
    default: v[i] = {(double)(i % 4), (double)((i / 4) % 4), (double)((i / 16) % 4) + (double)(i / 64) * 0.001}; break;   // points on cell boundaries
  }
  return v;
}
int main() {
  signal(SIGALRM, hung);
  const char* nm[] = {"random", "lattice", "collinear", "planar", "clustered", "two-cluster", "regular", "geometric", "parabolic", "boundary"};
  long N = nat::thorough() ? 40 : 14;
  auto wts = [](long n) {      // all different / all equal / zeros and signs / wide range
    vd w(n); for (long i = 0; i < n; ++i) switch (n % 4) {
      case 2: w[i] = 0.5; break;
      case 3: w[i] = i % 5 == 2 ? 0.0 : i % 7 == 3 ? -1.0 - i : 1e-3 * i; break;
      case 0: w[i] = std::ldexp(1.0 + 0.001 * i, int(i % 121) * 4 - 240); break;
      default: w[i] = 1 + 0.001 * i; }
    return w; };
  for (int k = 0; k < 10; ++k) for (long n = 1; n <= N; ++n) { vp p = shape(k, n); for (size_t m : {1, 2, 3, 5, 8, 13, 14}) one(nm[k], p, wts(n), m, n == 9); }
  int rep = nat::thorough() ? 6 : 1;
  for (int r = 0; r < rep; ++r) for (int k = 0; k < 10; ++k) for (long n : nat::sizes(0, 0, 3000, {27, 28, 54, 64, 65, 100, 125, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048})) if (n) {
    vp p = shape(k, n);
    std::set<size_t> ms = {1, 2, 3, 7, 8, 16, 27, 32, 64, 100, 128, 256, 500, 512, 1024, (size_t)n - 1, (size_t)n, (size_t)n + 1, (size_t)n / 2, mult(p), ~(size_t)0};
    for (auto h : nat::hints()) if (h > 0 && h < 4096 && ms.size() < 40) ms.insert(h);
    for (size_t m : ms) if (m > 0) { if (n > 600 && (m + n + k) % 3 && m > 1) continue; one(nm[k], p, wts(n), m); }
  }
  for (long n : {33000L, 66000L}) one("large random", shape(0, n), wts(n + 1), 1);
  for (long n : {1L, 5L, 20L, 33L}) for (long m : {6L, 26L, 110L, 302L}) {
    MuraKnowles<double,double> r(n, 2.0); LebedevLaikov<double> a(m);
    for (pt c : {pt{0,0,0}, pt{1,2,3}, pt{0,0,-1e4}}) {
      using Q = SphericalQuadrature<MuraKnowles<double,double>, LebedevLaikov<double>>; Q s(r, a, c);
      for (size_t mx : {1, 7, 64, 512, 4000}) {
        vp p = s.points(); vd w = s.weights();
        if (mult(p) > mx || (mx == 1 && p.size() > 2500)) continue;
        nat::kase(nat::fmt("MuraKnowles(%ld) x LebedevLaikov(%ld) at %s, batches of at most %zu", n, m, cs(c).c_str(), mx));
        auto b = make_batcher(mx, static_cast<const Q&>(s)); check(b, p, w, mx, false);
        nat::expect(s.points() == p && s.weights() == w, "make_batcher modified the caller's grid");
      }
    }
  }
  return nat::done();
}
