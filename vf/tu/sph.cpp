// Verification entry points: composite spherical quadratures over two abstract
// rules (arbitrary points and weights), through the public API only.
#include <new>
#include <array>
#include <memory>
#include <vector>
#include <cassert>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <memory>
using namespace IntegratorXX;
using sz = std::size_t;
using pt = std::array<double,3>;
using vd = std::vector<double>;
using vp = std::vector<pt>;
struct RQ; struct AQ;
namespace IntegratorXX {
template <> struct quadrature_traits<RQ> {
  using point_type = double; using weight_type = double; using point_container = vd; using weight_container = vd;
  static std::tuple<vd,vd> generate(const vd& p, const vd& w) { return std::make_tuple(p, w); }
};
template <> struct quadrature_traits<AQ> {
  using point_type = pt; using weight_type = double; using point_container = vp; using weight_container = vd;
  static std::tuple<vp,vd> generate(const vp& p, const vd& w) { return std::make_tuple(p, w); }
};
}
struct RQ : Quadrature<RQ> { RQ(const vd& p, const vd& w) : Quadrature<RQ>(p, w) {} };
struct AQ : Quadrature<AQ> { AQ(const vp& p, const vd& w) : Quadrature<AQ>(p, w) {} };
using SQ = SphericalQuadrature<RQ,AQ>;
using PQ = PrunedSphericalQuadrature<RQ,AQ>;
using SB = SphericalQuadratureBase<vp,vd>;
using RGP = RadialGridPartition<AQ>;
struct res { vp p; vd w; pt c; sz n; };
static inline void put(const SB& s, res* o) { o->p = s.points(); o->w = s.weights(); o->c = s.center(); o->n = s.npts(); }
template <class Q> static inline void putq(const Q& s, res* o) { o->p = s.points(); o->w = s.weights(); o->c = s.center(); o->n = s.npts(); }
struct inp { vd rp, rw; vp ap; vd aw; };
extern "C" {
// C06
void vf_sph(const inp* in, const pt* cen, res* out, inp* after) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *cen);
  putq(s, out); after->rp = r.points(); after->rw = r.weights(); after->ap = a.points(); after->aw = a.weights();
}
void vf_sph0(const inp* in, res* out) { RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a); putq(s, out); }
// C07
void vf_recenter(SB* s, const pt* c) { s->recenter(*c); }
void vf_mk(const inp* in, const pt* c0, void* mem) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); new (mem) SQ(r, a, *c0);
}
void vf_recg(SQ* s, const pt* c1, res* out) { SB& b = *s; b.recenter(*c1); put(b, out); }
void vf_rec1(const inp* in, const pt* c0, const pt* c1, res* out) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *c0); s.recenter(*c1); putq(s, out);
}
void vf_rec2(const inp* in, const pt* c0, const pt* c1, const pt* c2, res* out) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *c0); s.recenter(*c1); s.recenter(*c2); putq(s, out);
}
void vf_clone(const inp* in, const pt* c0, const pt* c1, res* orig, res* copy) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *c0);
  std::shared_ptr<SB> k = s.clone(); put(*k, copy); k->recenter(*c1); putq(s, orig);
}
void vf_clone2(const inp* in, const pt* c0, const pt* c1, res* orig, res* copy) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *c0);
  std::shared_ptr<SB> k = s.clone(); s.recenter(*c1); s.weights()[0] = 7.0; putq(s, orig); put(*k, copy);
}
void vf_copy(const inp* in, const pt* c0, const pt* c1, res* orig, res* copy) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); SQ s(r, a, *c0);
  SQ k(s); s.recenter(*c1); putq(s, orig); putq(k, copy);
}
// C08: the partition is built by add_quads; see spec_sph for the general loop
void vf_pruned1(const inp* in, const pt* cen, res* out) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); RGP g(r, 0, a); PQ s(r, g, *cen); putq(s, out);
}
void vf_pruned2(const inp* in, const vp* ap1, const vd* aw1, sz i1, const pt* cen, res* out) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw), b(*ap1, *aw1); RGP g(r, 0, a, i1, b); PQ s(r, g, *cen); putq(s, out);
}
void vf_pclone(const inp* in, const pt* c0, const pt* c1, res* orig, res* copy) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); RGP g(r, 0, a); PQ s(r, g, *c0);
  std::shared_ptr<SB> k = s.clone(); s.recenter(*c1); putq(s, orig); put(*k, copy);
}
void vf_prec(const inp* in, const pt* c0, const pt* c1, res* out) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw); RGP g(r, 0, a); PQ s(r, g, *c0); s.recenter(*c1); putq(s, out);
}
// any number of regions; region k starts at shell b[k] and uses the rule (ap[k], aw[k])
void vf_prunedn(const inp* in, const std::vector<sz>* b, const std::vector<vp>* ap, const std::vector<vd>* aw, const pt* cen, res* out) {
  RQ r(in->rp, in->rw); RGP g;
  for (sz k = 0; k < b->size(); ++k) { AQ a((*ap)[k], (*aw)[k]); g.add_quad(r, (*b)[k], a); }
  g.finalize(r);
  PQ s(r, g, *cen); putq(s, out);
}
// iteration over a partition of two regions: ranges and angular rules, for every pair of iterators
struct regs { sz n, lo[2], hi[2]; vp p[2]; vd w[2]; };
}
template <class It> static void walk(It b, It e, regs* o) {
  sz k = 0;
  for (; b != e; ++b) { auto v = *b; if (k < 2) { o->lo[k] = v.first.first; o->hi[k] = v.first.second; o->p[k] = v.second.points(); o->w[k] = v.second.weights(); } ++k; }
  o->n = k;
}
extern "C" {
void vf_parts(const inp* in, const vp* ap1, const vd* aw1, sz i1, sz how, regs* o) {
  RQ r(in->rp, in->rw); AQ a(in->ap, in->aw), b(*ap1, *aw1); RGP g(r, 0, a, i1, b); const RGP& c = g;
  if (how == 0) walk(g.begin(), g.end(), o); else if (how == 1) walk(c.begin(), c.end(), o); else walk(g.cbegin(), g.cend(), o);
}
// the same through copies, moves and assignments of the partition, and of the grid
void vf_prunedc(const inp* in, const std::vector<sz>* b, const std::vector<vp>* ap, const std::vector<vd>* aw, const pt* cen, res* out) {
  RQ r(in->rp, in->rw); RGP g;
  for (sz k = 0; k < b->size(); ++k) { AQ a((*ap)[k], (*aw)[k]); g.add_quad(r, (*b)[k], a); }
  g.finalize(r);
  RGP c(g); RGP m(std::move(c)); RGP e; e = std::move(m);
  PQ s(r, e, *cen); PQ t(s); putq(t, out);
}
}
// C17
struct q1 { vd p, w; sz n; };
extern "C" {
void vf_ctor(const vd* p, const vd* w, q1* out) { RQ r(*p, *w); out->p = r.points(); out->w = r.weights(); out->n = r.npts(); }
double vf_at_p(const vd* p, const vd* w, sz i) { RQ r(*p, *w); return r.points(i); }
double vf_at_w(const vd* p, const vd* w, sz i) { RQ r(*p, *w); return r.weights(i); }
double vf_at_ap(const vp* p, const vd* w, sz i) { AQ r(*p, *w); return r.points(i)[1]; }
void vf_qcopy(const vd* p, const vd* w, q1* o1, q1* o2) {
  RQ r(*p, *w); RQ c(r); c.points()[0] = 3.0; c.weights()[0] = 4.0;
  o1->p = r.points(); o1->w = r.weights(); o2->p = c.points(); o2->w = c.weights();
}
void vf_qbcopy(const vd* p, const vd* w, q1* o1, q1* o2) {
  RQ r(*p, *w); Quadrature<RQ> c(r); r.points()[0] = 3.0; r.weights()[0] = 4.0;
  o1->p = r.points(); o1->w = r.weights(); o2->p = c.points(); o2->w = c.weights();
}
void vf_qmove(const vd* p, const vd* w, q1* o) { RQ r(*p, *w); RQ c(std::move(r)); o->p = c.points(); o->w = c.weights(); o->n = c.npts(); }
void vf_data(const vd* p, const vd* w, sz i, double* o) { RQ r(*p, *w); const RQ& c = r; o[0] = r.points_data()[i]; o[1] = r.weights_data()[i]; o[2] = c.points_data()[i]; o[3] = c.weights_data()[i]; }
void vf_sub(const vd* p, const vd* w, sz b, sz e, q1* o) { RQ r(*p, *w); SubQuadrature<RQ> s({b, e}, r); o->p = s.points(); o->w = s.weights(); o->n = s.npts(); }
}
