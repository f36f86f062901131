// Verification entry points: run-time factories, public API only.
#include <new>
#include <memory>
#include <vector>
#include <array>
#include <cassert>
#include <tuple>
#include <string>
#include <algorithm>
#include <stdexcept>
#include <integratorxx/generators/impl/impl.hpp>
using namespace IntegratorXX;
using sz = std::size_t;
using pt = std::array<double,3>;
using vd = std::vector<double>;
using vp = std::vector<pt>;
using vr = std::vector<PruningRegion>;
using PS = PrunedSphericalGridSpecification;
using US = UnprunedSphericalGridSpecification;
using Bk = BeckeRadialTraits;
using Mh = MurrayHandyLamingRadialTraits<2>;
using Mk = MuraKnowlesRadialTraits;
using Ta = TreutlerAhlrichsRadialTraits;
using bkq = Becke<double,double>;
using mhq = MurrayHandyLaming<double,double>;
using mkq = MuraKnowles<double,double>;
using taq = TreutlerAhlrichs<double,double>;
using ahq = AhrensBeylkin<double>;
using deq = Delley<double>;
using llq = LebedevLaikov<double>;
using woq = Womersley<double>;
struct rr { vd p, w; sz n; };
struct ss { vp p; vd w; sz n; };
struct res { vp p; vd w; pt c; sz n; };
static inline Bk mt_Bk(sz n, double R, double) { return Bk(n, R); }
static inline Mh mt_Mh(sz n, double R, double) { return Mh(n, R); }
static inline Mk mt_Mk(sz n, double R, double) { return Mk(n, R); }
static inline Ta mt_Ta(sz n, double R, double al) { return Ta(n, R, al); }
using SB = SphericalQuadratureBase<vp,vd>;
template <class Q, class O> static inline void put(const Q& s, O* o) { o->p = s.points(); o->w = s.weights(); o->n = s.npts(); }
template <class Q> static inline void putc(const Q& s, res* o) { put(s, o); o->c = s.center(); }
extern "C" {
unsigned vf_rk_Bk() { return (unsigned)RadialQuad::Becke; }
unsigned vf_rk_Mh() { return (unsigned)RadialQuad::MurrayHandyLaming; }
unsigned vf_rk_Mk() { return (unsigned)RadialQuad::MuraKnowles; }
unsigned vf_rk_Ta() { return (unsigned)RadialQuad::TreutlerAhlrichs; }
unsigned vf_ak_ah() { return (unsigned)AngularQuad::AhrensBeylkin; }
unsigned vf_ak_de() { return (unsigned)AngularQuad::Delley; }
unsigned vf_ak_ll() { return (unsigned)AngularQuad::LebedevLaikov; }
unsigned vf_ak_wo() { return (unsigned)AngularQuad::Womersley; }
unsigned vf_rname(const std::string* s) { return (unsigned)radial_from_string(*s); }
unsigned vf_aname(const std::string* s) { return (unsigned)angular_from_string(*s); }
unsigned vf_rt_Bk() { return (unsigned)radial_from_type<bkq>(); }
unsigned vf_rt_Mh() { return (unsigned)radial_from_type<mhq>(); }
unsigned vf_rt_Mk() { return (unsigned)radial_from_type<mkq>(); }
unsigned vf_rt_Ta() { return (unsigned)radial_from_type<taq>(); }
unsigned vf_at_ah() { return (unsigned)angular_from_type<ahq>(); }
unsigned vf_at_de() { return (unsigned)angular_from_type<deq>(); }
unsigned vf_at_ll() { return (unsigned)angular_from_type<llq>(); }
unsigned vf_at_wo() { return (unsigned)angular_from_type<woq>(); }
void vf_s2(unsigned aq, sz n, ss* o) { auto g = S2Factory::generate((AngularQuad)aq, n); put(*g, o); }
#define ANG(F) void vf_s2d_##F(sz n, ss* o) { F##q g(n); put(g, o); }
ANG(ah) ANG(de) ANG(ll) ANG(wo)
#define RAD(S, Q) \
  void vf_rad_##S(unsigned rq, sz n, double R, double al, rr* o) { auto t = mt_##S(n, R, al); auto g = RadialFactory::generate((RadialQuad)rq, t); put(*g, o); } \
  void vf_radd_##S(sz n, double R, double al, rr* o) { Q g(mt_##S(n, R, al)); put(g, o); } \
  int vf_mrt1_##S(unsigned rq, sz n) { auto p = make_radial_traits((RadialQuad)rq, n); auto* q = dynamic_cast<S*>(p.get()); if (!q) return 0; return (*q == S(n)) ? 1 : 2; } \
  int vf_mrt2_##S(unsigned rq, sz n, double R) { auto p = make_radial_traits((RadialQuad)rq, n, R); auto* q = dynamic_cast<S*>(p.get()); if (!q) return 0; return (*q == S(n, R)) ? 1 : 2; } \
  int vf_mrt3_##S(unsigned rq, sz n, double R, double al) { auto p = make_radial_traits((RadialQuad)rq, n, R, al); auto* q = dynamic_cast<S*>(p.get()); if (!q) return 0; return (*q == mt_##S(n, R, al)) ? 1 : 2; } \
  void vf_unp_##S(unsigned rq, sz n, double R, double al, unsigned aq, sz na, res* o) { auto t = mt_##S(n, R, al); auto g = SphericalGridFactory::generate_unpruned_grid((RadialQuad)rq, t, (AngularQuad)aq, na); putc(*g, o); } \
  void vf_unps_##S(unsigned rq, sz n, double R, double al, unsigned aq, sz na, res* o) { US s((RadialQuad)rq, mt_##S(n, R, al), (AngularQuad)aq, na); auto g = SphericalGridFactory::generate_grid(s); putc(*g, o); } \
  void vf_prn_##S(unsigned rq, sz n, double R, double al, const vr* regs, res* o) { auto t = mt_##S(n, R, al); auto g = SphericalGridFactory::generate_pruned_grid((RadialQuad)rq, t, *regs); putc(*g, o); } \
  void vf_prns_##S(unsigned rq, sz n, double R, double al, const vr* regs, res* o) { PS s((RadialQuad)rq, mt_##S(n, R, al), *regs); auto g = SphericalGridFactory::generate_grid(s); putc(*g, o); }
RAD(Bk, bkq) RAD(Mh, mhq) RAD(Mk, mkq) RAD(Ta, taq)
#define DIR(S, Q, F) void vf_unpd_##S##_##F(sz n, double R, double al, sz na, res* o) { Q r(mt_##S(n, R, al)); F##q a(na); SphericalQuadrature<Q, F##q> g(r, a); putc(g, o); }
#define DIRS(S, Q) DIR(S, Q, ah) DIR(S, Q, de) DIR(S, Q, ll) DIR(S, Q, wo)
DIRS(Bk, bkq) DIRS(Mh, mhq) DIRS(Mk, mkq) DIRS(Ta, taq)
void vf_rput(PruningRegion* r, sz a, sz b, unsigned q, sz z) { r->idx_st = a; r->idx_en = b; r->angular_quad = (AngularQuad)q; r->angular_size = z; }
// specifications without radial parameters
void vf_nullp(unsigned rq, const vr* regs, res* o) { PS s((RadialQuad)rq, radial_traits_ptr{}, *regs); auto g = SphericalGridFactory::generate_grid(s); putc(*g, o); }
void vf_nullu(unsigned rq, sz n, double R, unsigned aq, sz na, res* o) { US s((RadialQuad)rq, Bk(n, R), (AngularQuad)aq, na); s.radial_traits.reset(); auto g = SphericalGridFactory::generate_grid(s); putc(*g, o); }
void vf_nullc(int scheme, unsigned rq, sz n, double R, unsigned aq, sz na, PS* o) { US s((RadialQuad)rq, Bk(n, R), (AngularQuad)aq, na); s.radial_traits.reset(); new (o) PS(create_pruned_spec((PruningScheme)scheme, s)); }
}
