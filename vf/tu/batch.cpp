// Verification entry points: micro-batches of an arbitrary grid, public API only.
#include <new>
#include <array>
#include <memory>
#include <vector>
#include <cassert>
#include <tuple>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
using sz = std::size_t;
using pt = std::array<double,3>;
using vd = std::vector<double>;
using vp = std::vector<pt>;
using SB = SphericalQuadratureBase<vp,vd>;
using B = SphericalMicroBatcher<vp,vd>;
// a grid with arbitrary points and weights
struct GQ : SB {
  vp p; vd w;
  GQ(const vp& p_, const vd& w_) : SB(pt{0,0,0}), p(p_), w(w_) {}
  const vp& sph_points_adaptor() const override { return p; }
  vp& sph_points_adaptor() override { return p; }
  const vd& sph_weights_adaptor() const override { return w; }
  vd& sph_weights_adaptor() override { return w; }
  std::shared_ptr<SB> clone() const override { return std::make_shared<GQ>(*this); }
};
struct inp { vp p; vd w; };
struct res { pt lo, up; vp p; vd w; vp ap; vd aw; sz n; };
template <class T> static inline void put(const T& t, res* o) { o->lo = std::get<0>(t); o->up = std::get<1>(t); o->p = std::get<2>(t); o->w = std::get<3>(t); }
static inline void all(const B& b, res* o) { o->ap = b.points(); o->aw = b.weights(); o->n = b.nbatches(); }
// const iterators can be compared
template <class I, class = void> struct cmp : std::false_type {};
template <class I> struct cmp<I, std::void_t<decltype(std::declval<I&>() == std::declval<I&>()), decltype(std::declval<I&>() != std::declval<I&>())>> : std::true_type {};
template <class X> static inline sz ncount(const X& b) {
  using I = decltype(b.cbegin()); sz n = 0;
  if constexpr (cmp<I>::value) { for (auto it = b.cbegin(); !(it == b.cend()); ++it) ++n; return n; }
  else return ~sz(0);
}
extern "C" {
// batching an arbitrary grid: the grid seen through the batcher, sizes
void vf_make(const inp* in, sz mx, res* o, sz* nums) {
  GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); all(b, o);
  nums[0] = b.npts(); nums[1] = b.max_batch_size(); nums[2] = b.points().size(); nums[3] = b.weights().size();
  nums[4] = b.quadrature().points().size();
}
// the caller's grid is not modified
void vf_source(const inp* in, sz mx, inp* src) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); src->p = g.points(); src->w = g.weights(); }
// batch i by index, by iteration, by offset
void vf_at(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); put(b.at(i), o); all(b, o); }
void vf_cat(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; const B b(mx, c); put(b.at(i), o); all(b, o); }
void vf_iter(const inp* in, sz mx, sz k, res* o) {
  GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); auto it = b.begin(); for (sz j = 0; j < k; ++j) ++it; put(*it, o); all(b, o);
}
void vf_citer(const inp* in, sz mx, sz k, res* o) {
  GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); auto it = b.cbegin(); for (sz j = 0; j < k; ++j) it++; put(*it, o); all(b, o);
}
void vf_post(const inp* in, sz mx, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); auto it = b.begin(); put(*(it++), o); all(b, o); }
void vf_plus(const inp* in, sz mx, int k, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); put(*(b.begin() + k), o); all(b, o); }
void vf_cplus(const inp* in, sz mx, int k, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); put(*(b.cbegin() + k), o); all(b, o); }
sz vf_count(const inp* in, sz mx, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); sz n = 0; for (auto it = b.begin(); it != b.end(); ++it) ++n; all(b, o); return n; }
// other constructors
void vf_move(const inp* in, sz mx, sz i, res* o) { B b(mx, GQ(in->p, in->w)); put(b.at(i), o); all(b, o); }
void vf_shared(const inp* in, sz mx, sz i, res* o) { std::shared_ptr<SB> q = std::make_shared<GQ>(in->p, in->w); B b(mx, q); put(b.at(i), o); all(b, o); }
void vf_clone(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); B k = b.clone(); put(k.at(i), o); all(k, o); }
void vf_copy(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); B k(b); put(k.at(i), o); all(k, o); }
void vf_moved(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); B k(std::move(b)); put(k.at(i), o); all(k, o); }
void vf_mk(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b = make_batcher(mx, c); put(b.at(i), o); all(b, o); }
void vf_mkl(const inp* in, sz mx, sz i, res* o) { GQ g(in->p, in->w); B b = make_batcher(mx, g); put(b.at(i), o); all(b, o); }
void vf_mkmove(const inp* in, sz mx, sz i, res* o) { B b = make_batcher(mx, GQ(in->p, in->w)); put(b.at(i), o); all(b, o); }
sz vf_ccount(const inp* in, sz mx, res* o) { GQ g(in->p, in->w); const GQ& c = g; const B b(mx, c); sz n = ncount(b); all(b, o); return n; }
sz vf_range(const inp* in, sz mx, res* o) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); sz n = 0; for (auto it = b.begin(), e = b.end(); it != e; it++) ++n; all(b, o); return n; }
// a batcher whose grid is moved; a clone is not affected
void vf_recenter(const inp* in, sz mx, sz i, res* o, double x, double y, double z) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); b.recenter(pt{x,y,z}); put(b.at(i), o); all(b, o); }
void vf_recenter2(const inp* in, sz mx, sz i, res* o, double x, double y, double z) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); b.quadrature().recenter(pt{x,y,z}); put(b.at(i), o); all(b, o); }
void vf_sep(const inp* in, sz mx, sz i, res* o, double x, double y, double z) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); B k = b.clone(); b.recenter(pt{x,y,z}); put(k.at(i), o); all(k, o); }
void vf_sep2(const inp* in, sz mx, sz i, res* o, double x, double y, double z) { GQ g(in->p, in->w); const GQ& c = g; B b(mx, c); B k = b.clone(); k.recenter(pt{x,y,z}); put(b.at(i), o); all(b, o); }
}
