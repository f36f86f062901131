// Bounded search: pruning schemes.
#include <array>
#include <memory>
#include <tuple>
#include <stdexcept>
#include <cassert>
#include <map>
#include "nat.hpp"
#include <integratorxx/generators/impl/impl.hpp>
using namespace IntegratorXX;
using sz = size_t;
struct XT : RadialTraits {
  sz n; double tag; XT(sz n_, double t) : n(n_), tag(t) {}
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<XT>(*this); }
  sz npts() const override { return n; }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const XT*>(&o); return p && p->n == n && p->tag == tag; }
};
struct reg { sz a, b, z; };
static std::map<int64_t, int64_t> np_[4], or_[4];
static const AngularQuad AQ[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
static const char* NM[4] = {"AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley"};
template <class T> void fill(int f) { using tr = quadrature_traits<T>; for (int64_t o = 0; o < 400; ++o) { auto n = tr::npts_by_algebraic_order(o); if (n > 0) { np_[f][o] = n; or_[f][n] = o; } } }
static int64_t least(int f, int64_t o) { auto it = np_[f].lower_bound(o); if (it == np_[f].end()) --it; return it->second; }
static std::vector<reg> want(int scheme, int f, sz n, sz z) {
  std::vector<reg> w; if (scheme == 0) return {{0, n, z}};
  int64_t b = scheme == 1 ? or_[f].at(z) : 0;
  sz low = least(f, 7), med = scheme == 1 ? least(f, b > 6 ? b - 6 : b) : least(f, 11);
  sz s2 = std::min(n / 2 + 1, n - 1), sk = std::min(n / (scheme == 1 ? 4 : 3) + 1, s2);
  for (reg r : {reg{0, sk, low}, reg{sk, s2, med}, reg{s2, n, z}}) if (r.a < r.b) w.push_back(r);
  return w;
}
static PrunedSphericalGridSpecification gen(int scheme, bool direct, const UnprunedSphericalGridSpecification& u) {
  if (direct && scheme == 1) return robust_psi4_pruning_scheme(u);
  if (direct && scheme == 2) return treutler_pruning_scheme(u);
  return create_pruned_spec(scheme == 0 ? PruningScheme::Unpruned : scheme == 1 ? PruningScheme::Robust : PruningScheme::Treutler, u);
}
static void one(int scheme, int f, sz n, sz z, RadialQuad rq, double tag, bool direct) {
  UnprunedSphericalGridSpecification u(rq, XT(n, tag), AQ[f], z); ++nat::evals;
  auto s = gen(scheme, direct, u); auto w = want(scheme, f, n, z);
  bool ok = s.pruning_regions.size() == w.size();
  for (sz k = 0; ok && k < w.size(); ++k) { auto& r = s.pruning_regions[k]; ok = r.idx_st == w[k].a && r.idx_en == w[k].b && r.angular_size == w[k].z && r.angular_quad == AQ[f]; }
  if (!ok) { std::string t; for (auto& r : s.pruning_regions) t += nat::fmt(" [%zu,%zu)x%zu%s", r.idx_st, r.idx_en, r.angular_size, r.angular_quad == AQ[f] ? "" : " (other family)"); t += ", expected"; for (auto& r : w) t += nat::fmt(" [%zu,%zu)x%zu", r.a, r.b, r.z); nat::fail("regions" + t); }
  if (s.radial_quad != rq) nat::fail("radial kind changed");
  auto p = dynamic_cast<const XT*>(s.radial_traits.get()); if (!p || p->n != n || p->tag != tag) nat::fail("radial parameters changed");
}
int main() {
  fill<AhrensBeylkin<double>>(0); fill<Delley<double>>(1); fill<LebedevLaikov<double>>(2); fill<Womersley<double>>(3);
  const RadialQuad RQ[4] = {RadialQuad::Becke, RadialQuad::MurrayHandyLaming, RadialQuad::MuraKnowles, RadialQuad::TreutlerAhlrichs};
  auto ns = nat::sizes(1, nat::thorough() ? 600 : 140, 3000000, {150, 175, 199, 200, 201, 250, 255, 256, 257, 300, 400, 500, 511, 512, 513, 590, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 100000, 1000003});
  int k = 0;
  for (int f = 0; f < 4; ++f) for (auto [z, o] : or_[f]) for (sz n : ns) for (int scheme = 0; scheme < 3; ++scheme) {
    ++k; if (n == 1) { nat::kase(nat::fmt("scheme %d %s(%ld), 1 and more radial shells", scheme, NM[f], (long)z)); } nat::cur = nat::fmt("scheme %d (0 unpruned, 1 robust, 2 Treutler) n=%zu %s(%ld)", scheme, n, NM[f], (long)z);
    try { one(scheme, f, n, z, RQ[k % 4], k * 0.25, k & 1); } catch (const std::exception& e) { nat::fail(std::string("throws ") + e.what()); }
  }
  for (int f = 0; f < 4; ++f) for (long z : nat::sizes(0, 700, 1000000, {1000, 1203, 5811, 65542, 131078})) if (!or_[f].count(z)) {
    nat::cur = nat::fmt("robust scheme with unsupported size %s(%ld)", NM[f], z); bool t = false;
    try { UnprunedSphericalGridSpecification u(RQ[0], XT(50, 1.0), AQ[f], z); robust_psi4_pruning_scheme(u); } catch (const std::exception&) { t = true; }
    nat::expect(t, "no exception");
  }
  // a grid can be built from the specification
  using tr = BeckeRadialTraits;
  for (sz n = 1; n <= 30; ++n) for (int scheme = 0; scheme < 3; ++scheme) for (int f = 0; f < 4; ++f) {
    sz z = least(f, 15); nat::kase(nat::fmt("grid from scheme %d n=%zu %s(%zu)", scheme, n, NM[f], z));
    try { auto s = gen(scheme, false, UnprunedSphericalGridSpecification(RadialQuad::Becke, tr(n, 1.0), AQ[f], z)); auto g = SphericalGridFactory::generate_grid(s); sz t = 0; for (auto& r : want(scheme, f, n, z)) t += (r.b - r.a) * r.z; nat::expect(g->npts() == t, nat::fmt("the grid has %zu points, expected %zu", g->npts(), t)); }
    catch (const std::exception& e) { nat::fail(std::string("throws ") + e.what()); }
  }
  return nat::done();
}
