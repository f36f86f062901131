// Verification entry points: grid specifications and runtime factories, public API.
#include <new>
#include <memory>
#include <vector>
#include <array>
#include <cassert>
#include <tuple>
#include <string>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/generators/impl/impl.hpp>
using namespace IntegratorXX;
using sz = std::size_t;
using PS = PrunedSphericalGridSpecification;
using US = UnprunedSphericalGridSpecification;
using vr = std::vector<PruningRegion>;
// an arbitrary user-defined scheme: npts() and a payload
struct XT : RadialTraits {
  sz n; double tag;
  XT(sz n_, double t) : n(n_), tag(t) {}
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<XT>(*this); }
  sz npts() const override { return n; }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const XT*>(&o); return p && p->n == n && p->tag == tag; }
};
extern "C" {
// ---- reading a specification
sz vf_nreg(const PS* s) { return s->pruning_regions.size(); }
void vf_region(const PS* s, sz k, sz* o) { const auto& r = s->pruning_regions[k]; o[0] = r.idx_st; o[1] = r.idx_en; o[2] = (sz)r.angular_quad; o[3] = r.angular_size; }
unsigned vf_rq(const PS* s) { return (unsigned)s->radial_quad; }
int vf_traits(const PS* s, sz* n, double* tag) { if (!s->radial_traits) return 0; auto* p = dynamic_cast<const XT*>(s->radial_traits.get()); if (!p) return 2; *n = p->n; *tag = p->tag; return 1; }
// ---- C09
void vf_robust(unsigned rq, sz n, double tag, unsigned aq, sz asz, PS* out) { US u((RadialQuad)rq, XT(n, tag), (AngularQuad)aq, asz); new (out) PS(robust_psi4_pruning_scheme(u)); }
void vf_treutler(unsigned rq, sz n, double tag, unsigned aq, sz asz, PS* out) { US u((RadialQuad)rq, XT(n, tag), (AngularQuad)aq, asz); new (out) PS(treutler_pruning_scheme(u)); }
void vf_create(int scheme, unsigned rq, sz n, double tag, unsigned aq, sz asz, PS* out) { US u((RadialQuad)rq, XT(n, tag), (AngularQuad)aq, asz); new (out) PS(create_pruned_spec((PruningScheme)scheme, u)); }
}
#define FAMFN(T, S) \
  int64_t vf_np_##S(int64_t o) { return quadrature_traits<T<double>>::npts_by_algebraic_order(o); } \
  int64_t vf_or_##S(int64_t n) { return quadrature_traits<T<double>>::algebraic_order_by_npts(n); }
extern "C" {
FAMFN(AhrensBeylkin, ah) FAMFN(Delley, de) FAMFN(LebedevLaikov, ll) FAMFN(Womersley, wo)
unsigned vf_kind_ah() { return (unsigned)AngularQuad::AhrensBeylkin; }
unsigned vf_kind_de() { return (unsigned)AngularQuad::Delley; }
unsigned vf_kind_ll() { return (unsigned)AngularQuad::LebedevLaikov; }
unsigned vf_kind_wo() { return (unsigned)AngularQuad::Womersley; }
}
