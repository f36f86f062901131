// Verification entry points: radial parameters and grid specifications as values.
#include <new>
#include <memory>
#include <vector>
#include <array>
#include <cassert>
#include <tuple>
#include <string>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
using sz = std::size_t;
using PS = PrunedSphericalGridSpecification;
using US = UnprunedSphericalGridSpecification;
using vr = std::vector<PruningRegion>;
struct XT : RadialTraits {
  sz n; double tag;
  XT(sz n_, double t) : n(n_), tag(t) {}
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<XT>(*this); }
  sz npts() const override { return n; }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const XT*>(&o); return p && p->n == n && p->tag == tag; }
};
using Bk = BeckeRadialTraits;
using Mh = MurrayHandyLamingRadialTraits<2>;
using Mh3 = MurrayHandyLamingRadialTraits<3>;
using Mk = MuraKnowlesRadialTraits;
using Ta = TreutlerAhlrichsRadialTraits;
#define MKT(S, n, R, al) S##_make(n, R, al)
static inline Bk Bk_make(sz n, double R, double) { return Bk(n, R); }
static inline Mh Mh_make(sz n, double R, double) { return Mh(n, R); }
static inline Mh3 Mh3_make(sz n, double R, double) { return Mh3(n, R); }
static inline Mk Mk_make(sz n, double R, double) { return Mk(n, R); }
static inline Ta Ta_make(sz n, double R, double al) { return Ta(n, R, al); }
#define CMP(S, U) int vf_cmp_##S##_##U(sz n, double R, double al, sz m, double Q, double be) { auto a = S##_make(n, R, al); auto b = U##_make(m, Q, be); const RadialTraits& x = a; const RadialTraits& y = b; return x.compare(y) ? 1 : 0; }
#define ROW(S) CMP(S, Bk) CMP(S, Mh) CMP(S, Mh3) CMP(S, Mk) CMP(S, Ta) \
  int vf_eq_##S(sz n, double R, double al, sz m, double Q, double be) { auto a = S##_make(n, R, al); auto b = S##_make(m, Q, be); return a == b ? 1 : 0; } \
  sz vf_np_##S(sz n, double R, double al) { auto a = S##_make(n, R, al); const RadialTraits& x = a; return x.npts(); } \
  int vf_clone_##S(sz n, double R, double al, double x, sz* on, double* o) { auto a = S##_make(n, R, al); const RadialTraits& b = a; std::unique_ptr<RadialTraits> c = b.clone(); \
    if (!c) return 10; if (c.get() == &b) return 11; auto* d = dynamic_cast<S*>(c.get()); if (!d) return 12; *on = c->npts(); \
    o[0] = d->radial_transform(x); o[1] = a.radial_transform(x); o[2] = d->radial_jacobian(x); o[3] = a.radial_jacobian(x); \
    return (c->compare(b) ? 1 : 0) + (b.compare(*c) ? 2 : 0); }
#define DEFA(S) int vf_def_##S(sz n) { S a(n), b(n, 1.0); return a.compare(b) ? 1 : 0; }
extern "C" {
ROW(Bk) ROW(Mh) ROW(Mh3) ROW(Mk) ROW(Ta)
// specifications; has == 0: no radial parameters
void vf_mkps(unsigned rq, int has, sz n, double tag, const vr* regs, PS* out) {
  if (has) new (out) PS((RadialQuad)rq, std::make_unique<XT>(n, tag), *regs); else new (out) PS((RadialQuad)rq, radial_traits_ptr{}, *regs);
}
void vf_mkps2(unsigned rq, sz n, double tag, const vr* regs, PS* out) { new (out) PS((RadialQuad)rq, XT(n, tag), *regs); }
int vf_pseq(const PS* a, const PS* b) { return *a == *b ? 1 : 0; }
void vf_pscopy(const PS* a, PS* out) { new (out) PS(*a); }
void vf_psassign(PS* a, const PS* b) { *a = *b; }
void vf_psself(PS* a) { PS& b = *a; *a = b; }
unsigned vf_rq(const PS* s) { return (unsigned)s->radial_quad; }
int vf_traits(const PS* s, sz* n, double* tag) { if (!s->radial_traits) return 0; auto* p = dynamic_cast<const XT*>(s->radial_traits.get()); if (!p) return 2; *n = p->n; *tag = p->tag; return 1; }
void vf_regs(const PS* s, vr* out) { *out = s->pruning_regions; }
int vf_shared(const PS* a, const PS* b) { return a->radial_traits && a->radial_traits.get() == b->radial_traits.get() ? 1 : 0; }
void vf_poke(PS* a, sz k) { a->pruning_regions[k] = PruningRegion{7, 9, AngularQuad::Delley, 14}; a->pruning_regions.push_back({0, 1, AngularQuad::Delley, 26}); auto* p = dynamic_cast<XT*>(a->radial_traits.get()); if (p) { p->n = 5; p->tag = 2.5; } a->radial_quad = RadialQuad::Becke; }
int vf_reqe(const PruningRegion* a, const PruningRegion* b) { return *a == *b ? 1 : 0; }
void vf_rput(PruningRegion* r, sz a, sz b, unsigned q, sz z) { r->idx_st = a; r->idx_en = b; r->angular_quad = (AngularQuad)q; r->angular_size = z; }
// unpruned
void vf_mkus(unsigned rq, sz n, double tag, unsigned aq, sz z, US* out) { new (out) US((RadialQuad)rq, XT(n, tag), (AngularQuad)aq, z); }
void vf_uscopy(const US* a, US* out) { new (out) US(*a); }
int vf_usget(const US* s, sz* o, double* tag) { o[0] = (sz)s->radial_quad; o[1] = (sz)s->angular_quad; o[2] = s->angular_size; if (!s->radial_traits) return 0; auto* p = dynamic_cast<const XT*>(s->radial_traits.get()); if (!p) return 2; o[3] = p->n; *tag = p->tag; return 1; }
int vf_usshared(const US* a, const US* b) { return a->radial_traits.get() == b->radial_traits.get() ? 1 : 0; }
void vf_uspoke(US* a) { auto* p = dynamic_cast<XT*>(a->radial_traits.get()); if (p) { p->n = 5; p->tag = 2.5; } a->angular_size = 3; a->radial_quad = RadialQuad::Becke; a->angular_quad = AngularQuad::Delley; }
}
