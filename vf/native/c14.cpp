// Bounded search: radial parameters and grid specifications as values.
#include <array>
#include <memory>
#include <tuple>
#include <stdexcept>
#include <cassert>
#include <limits>
#include "nat.hpp"
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
using sz = size_t;
using PS = PrunedSphericalGridSpecification;
using US = UnprunedSphericalGridSpecification;
using Bk = BeckeRadialTraits; using Mh = MurrayHandyLamingRadialTraits<2>; using Mh3 = MurrayHandyLamingRadialTraits<3>; using Mh4 = MurrayHandyLamingRadialTraits<4>; using Mk = MuraKnowlesRadialTraits; using Ta = TreutlerAhlrichsRadialTraits;
struct P { int s; sz n; double R, al; std::string str() const { const char* N[] = {"Becke", "MHL2", "MHL3", "MuraKnowles", "TreutlerAhlrichs", "MHL4"}; return s == 4 ? nat::fmt("%s(%zu,%.17g,%.17g)", N[s], n, R, al) : nat::fmt("%s(%zu,%.17g)", N[s], n, R); }
  bool operator==(const P& o) const { return s == o.s && n == o.n && R == o.R && (s != 4 || al == o.al); } };
static std::unique_ptr<RadialTraits> mk(const P& p) { switch (p.s) { case 0: return std::make_unique<Bk>(p.n, p.R); case 1: return std::make_unique<Mh>(p.n, p.R); case 2: return std::make_unique<Mh3>(p.n, p.R); case 3: return std::make_unique<Mk>(p.n, p.R); case 5: return std::make_unique<Mh4>(p.n, p.R); default: return std::make_unique<Ta>(p.n, p.R, p.al); } }
template <class T> bool same_map(const RadialTraits& a, const RadialTraits& b) { auto x = dynamic_cast<const T*>(&a); auto y = dynamic_cast<const T*>(&b); if (!x || !y) return false; for (double t : {0.125, 0.5, 0.75}) if (x->radial_transform(t) != y->radial_transform(t) || x->radial_jacobian(t) != y->radial_jacobian(t)) return false; return true; }
static bool same_map(int s, const RadialTraits& a, const RadialTraits& b) { switch (s) { case 0: return same_map<Bk>(a, b); case 1: return same_map<Mh>(a, b); case 2: return same_map<Mh3>(a, b); case 3: return same_map<Mk>(a, b); case 5: return same_map<Mh4>(a, b); default: return same_map<Ta>(a, b); } }
static bool op_eq(int s, const RadialTraits& a, const RadialTraits& b) { switch (s) { case 0: return (const Bk&)a == (const Bk&)b; case 1: return (const Mh&)a == (const Mh&)b; case 2: return (const Mh3&)a == (const Mh3&)b; case 3: return (const Mk&)a == (const Mk&)b; case 5: return (const Mh4&)a == (const Mh4&)b; default: return (const Ta&)a == (const Ta&)b; } }
static std::vector<P> params() {
  std::vector<P> v; std::set<sz> ns{0, 1, 2, 10, 11, 75, 100, 4294967306ull, (1ull << 63) + 10}; int k = 0; for (long h : nat::hints()) if (k++ < 6 && h >= 0) ns.insert(h);
  std::set<double> rs{0.5, 1.0, std::nextafter(1.0, 2.0), 1.0 + 1e-9, 2.0, 1e-300, -1.0}; k = 0; for (double h : nat::rhints()) if (k++ < 6) rs.insert(h);
  for (int s = 0; s < 6; ++s) for (sz n : ns) for (double R : rs) for (double al : {0.6, 0.0, 0.6000000001}) { if (s != 4 && al != 0.6) continue; if (s == 5 && n > 11) continue; v.push_back({s, n, R, al}); }
  return v;
}
struct D { unsigned rq; int has; P t; std::vector<PruningRegion> r; };
static bool eqd(const D& a, const D& b) { if (a.rq != b.rq || a.has != b.has || a.r.size() != b.r.size()) return false; if (a.has && !(a.t == b.t)) return false; for (sz i = 0; i < a.r.size(); ++i) if (a.r[i].idx_st != b.r[i].idx_st || a.r[i].idx_en != b.r[i].idx_en || a.r[i].angular_quad != b.r[i].angular_quad || a.r[i].angular_size != b.r[i].angular_size) return false; return true; }
static PS mks(const D& d) { return d.has ? PS((RadialQuad)d.rq, mk(d.t), d.r) : PS((RadialQuad)d.rq, radial_traits_ptr{}, d.r); }
static bool reads(const PS& s, const D& d) { if ((unsigned)s.radial_quad != d.rq || !!s.radial_traits != !!d.has) return false; if (d.has) { auto t = mk(d.t); if (!t->compare(*s.radial_traits) || s.radial_traits->npts() != d.t.n || !same_map(d.t.s, *t, *s.radial_traits)) return false; } D e = d; e.r = s.pruning_regions; return eqd(e, d); }
static std::string str(const D& d) { std::string o = nat::fmt("spec(kind 0x%x, %s, regions", d.rq, d.has ? d.t.str().c_str() : "no parameters"); for (auto& r : d.r) o += nat::fmt(" [%zu,%zu) 0x%x/%zu", r.idx_st, r.idx_en, (unsigned)r.angular_quad, r.angular_size); return o + ")"; }
int main() {
  auto ps = params();
  nat::kase(nat::fmt("%zu radial parameter sets, all pairs", ps.size()));
  std::vector<std::unique_ptr<RadialTraits>> ts; for (auto& p : ps) ts.push_back(mk(p));
  for (sz i = 0; i < ps.size(); ++i) for (sz j = 0; j < ps.size(); ++j) {
    bool w = ps[i] == ps[j]; ++nat::evals;
    if (ts[i]->compare(*ts[j]) != w) nat::fail(ps[i].str() + " compare " + ps[j].str() + nat::fmt(" = %d", !w));
    if (ps[i].s == ps[j].s && op_eq(ps[i].s, *ts[i], *ts[j]) != w) nat::fail(ps[i].str() + " == " + ps[j].str() + nat::fmt(" = %d", !w));
  }
  for (sz i = 0; i < ps.size(); ++i) {
    nat::cur = ps[i].str(); auto c = ts[i]->clone(); nat::expect(c && c.get() != ts[i].get(), "the clone is not a new object"); if (!c) continue;
    nat::expect(ts[i]->npts() == ps[i].n, nat::fmt("npts() = %zu", ts[i]->npts())); nat::expect(c->npts() == ps[i].n, nat::fmt("npts() of the clone = %zu", c->npts()));
    nat::expect(c->compare(*ts[i]) && ts[i]->compare(*c), "the clone is not equal to the original");
    nat::expect(!(ps[i].R > 1e-200) || same_map(ps[i].s, *c, *ts[i]), "the clone has another map");
  }
  std::vector<D> ds; auto R = [](sz a, sz b, AngularQuad q, sz z) { return PruningRegion{a, b, q, z}; }; auto LL = AngularQuad::LebedevLaikov, DE = AngularQuad::Delley;
  std::vector<std::vector<PruningRegion>> rs{{}, {R(0,10,LL,50)}, {R(0,10,LL,74)}, {R(0,10,DE,50)}, {R(0,11,LL,50)}, {R(1,10,LL,50)}, {R(0,5,LL,26), R(5,10,LL,50)}, {R(0,5,LL,26), R(5,10,LL,74)}, {R(0,5,LL,26), R(5,10,DE,50)}, {R(0,5,LL,26), R(5,11,LL,50)}, {R(0,5,LL,26), R(6,10,LL,50)}, {R(0,5,LL,26), R(5,10,LL,50), R(10,12,LL,6)},
    {R(0,10 + (1ull << 63),LL,50)}, {R(1ull << 63,10,LL,50)}, {R(0,10,LL,50 + (1ull << 63))}, {R(0,10 + (1ull << 32),LL,50)}, {R(0,10,LL,50 + (1ull << 32))}, {R(1ull << 32,10,LL,50)},
    {R(0,2,LL,26), R(2,4,LL,26), R(4,6,LL,26), R(6,10,LL,50)}, {R(0,2,LL,26), R(2,4,LL,26), R(4,6,LL,26), R(6,10,LL,74)}, {R(0,2,LL,26), R(2,4,LL,26), R(4,6,LL,38), R(6,10,LL,50)}, {R(0,2,LL,14), R(2,4,LL,26), R(4,6,LL,26), R(6,10,LL,50)}};
  for (auto& r : rs) for (unsigned rq : {0x10u, 0x30u}) { ds.push_back({rq, 0, {}, r}); for (P t : {P{0, 10, 1.0, 0.6}, P{0, 11, 1.0, 0.6}, P{3, 10, 1.0, 0.6}, P{4, 10, 1.0, 0.6}, P{4, 10, 1.0, 0.0}}) ds.push_back({rq, 1, t, r}); }
  nat::kase(nat::fmt("%zu pruned specifications, all pairs", ds.size()));
  std::vector<PS> ss; ss.reserve(ds.size()); for (auto& d : ds) ss.push_back(mks(d));
  for (sz i = 0; i < ds.size(); ++i) for (sz j = 0; j < ds.size(); ++j) { ++nat::evals; if ((ss[i] == ss[j]) != eqd(ds[i], ds[j])) nat::fail(str(ds[i]) + " == " + str(ds[j]) + nat::fmt(" is %d", !eqd(ds[i], ds[j]))); }
  for (sz i = 0; i < ds.size(); ++i) {
    nat::kase(str(ds[i])); nat::expect(reads(ss[i], ds[i]), "the constructed specification differs");
    PS c(ss[i]); nat::expect(reads(c, ds[i]) && c == ss[i], "the copy differs"); nat::expect(!c.radial_traits || c.radial_traits.get() != ss[i].radial_traits.get(), "the copy shares its radial parameters");
    c.pruning_regions.push_back(R(1,2,DE,14)); c.pruning_regions[0].angular_size = 1; c.radial_quad = RadialQuad::TreutlerAhlrichs; c.radial_traits = nullptr; nat::expect(reads(ss[i], ds[i]), "changing the copy changed the source");
    { PS src = mks(ds[i]); PS d(src); src.pruning_regions.clear(); src.radial_traits = nullptr; src.radial_quad = RadialQuad::TreutlerAhlrichs; nat::expect(reads(d, ds[i]), "changing the source changed the copy"); }
    for (sz j : {sz(0), sz(1), (i * 7 + 3) % ds.size(), ds.size() - 1}) { PS a = mks(ds[j]); a = ss[i]; nat::expect(reads(a, ds[i]) && a == ss[i], "assignment over " + str(ds[j]) + " differs"); nat::expect(!a.radial_traits || a.radial_traits.get() != ss[i].radial_traits.get(), "the assigned copy shares its radial parameters"); a.pruning_regions.push_back(R(1,2,DE,14)); a.radial_traits = nullptr; nat::expect(reads(ss[i], ds[i]), "changing the assigned copy changed the source"); }
    { PS a = mks(ds[i]); PS& b = a; a = b; nat::expect(reads(a, ds[i]), "self-assignment changed the value"); }
    { PS a = mks(ds[i]); PS m(std::move(a)); nat::expect(reads(m, ds[i]), "the moved-to specification differs"); PS z = mks(ds[0]); z = std::move(m); nat::expect(reads(z, ds[i]), "the move-assigned specification differs"); }
    if (ds[i].has) { PS a((RadialQuad)ds[i].rq, *mk(ds[i].t), ds[i].r); nat::expect(reads(a, ds[i]), "construction from a parameter reference differs");
      auto t = mk(ds[i].t); US u((RadialQuad)ds[i].rq, *t, DE, 26); for (int k = 0; k < 2; ++k) { US v(u); bool ok = v.radial_quad == u.radial_quad && v.angular_quad == DE && v.angular_size == 26 && v.radial_traits && v.radial_traits.get() != u.radial_traits.get() && v.radial_traits->compare(*t); nat::expect(ok, "the copy of the unpruned specification differs or shares its radial parameters"); v.radial_traits = nullptr; nat::expect(u.radial_traits && u.radial_traits->compare(*t), "source changed"); } nat::expect(u.radial_traits.get() != t.get(), "the unpruned specification shares the parameters it was given"); }
  }
  return nat::done();
}
