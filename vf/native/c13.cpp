// Bounded search: run-time factories against direct construction; names.
#include <array>
#include <memory>
#include <tuple>
#include <stdexcept>
#include <cassert>
#include <cctype>
#include "nat.hpp"
#include <integratorxx/generators/impl/impl.hpp>
#include "c13_strings.inc"
using namespace IntegratorXX;
using sz = size_t; using vr = std::vector<PruningRegion>;
using Bk = BeckeRadialTraits; using Mh = MurrayHandyLamingRadialTraits<2>; using Mk = MuraKnowlesRadialTraits; using Ta = TreutlerAhlrichsRadialTraits;
using bkq = Becke<double,double>; using mhq = MurrayHandyLaming<double,double>; using mkq = MuraKnowles<double,double>; using taq = TreutlerAhlrichs<double,double>;
static const RadialQuad RK[] = {RadialQuad::Becke, RadialQuad::MurrayHandyLaming, RadialQuad::MuraKnowles, RadialQuad::TreutlerAhlrichs};
static const AngularQuad AK[] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
static const char* RN[] = {"Becke", "MurrayHandyLaming", "MuraKnowles", "TreutlerAhlrichs"};
static const char* AN[] = {"AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley"};
template <class F> static int ret(F f) { try { f(); return 1; } catch (const std::exception&) { return 0; } catch (...) { return 0; } }
template <class A, class B> static void same(const A& a, const B& b, const char* what) {
  nat::expect(a.points() == b.points(), std::string(what) + ": points differ from direct construction");
  nat::expect(a.weights() == b.weights(), std::string(what) + ": weights differ from direct construction");
  nat::expect(a.npts() == b.npts(), std::string(what) + ": npts() differs from direct construction");
}
static std::unique_ptr<RadialTraits> mkt(int s, sz n, double R, double al) { switch (s) { case 0: return std::make_unique<Bk>(n, R); case 1: return std::make_unique<Mh>(n, R); case 2: return std::make_unique<Mk>(n, R); default: return std::make_unique<Ta>(n, R, al); } }
template <class F> static void withrad(int s, const RadialTraits& t, F f) { switch (s) { case 0: f(bkq((const Bk&)t)); break; case 1: f(mhq((const Mh&)t)); break; case 2: f(mkq((const Mk&)t)); break; default: f(taq((const Ta&)t)); } }
struct I { template <class Q> struct of { using type = Q; }; };
template <class F> static void withang(int a, F f) { switch (a) { case 0: f(I::of<AhrensBeylkin<double>>{}); break; case 1: f(I::of<Delley<double>>{}); break; case 2: f(I::of<LebedevLaikov<double>>{}); break; default: f(I::of<Womersley<double>>{}); } }
static bool sup(int a, sz n) { bool r = true; withang(a, [&](auto q) { using Q = typename decltype(q)::type; try { Q x(n); r = x.points().size() == n; } catch (...) { r = false; } }); return r; }
static const std::vector<sz> SZ[] = {{72, 132, 192, 312}, {14, 26, 50, 110, 194, 302}, {6, 14, 26, 38, 50, 74, 86, 110, 146, 194, 302}, {6, 14, 18, 32, 50, 72}};
static std::string up(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static int rwant(const std::string& s) { auto u = up(s); if (u == "BECKE") return 0; if (u == "MURRAYHANDYLAMING" || u == "MHL") return 1; if (u == "MURAKNOWLES" || u == "MK") return 2; if (u == "TREUTLERAHLRICHS" || u == "TA") return 3; return -1; }
static int awant(const std::string& s) { auto u = up(s); if (u == "AHRENSBEYLKIN" || u == "AB") return 0; if (u == "DELLEY") return 1; if (u == "LEBEDEVLAIKOV" || u == "LEBEDEV" || u == "LL") return 2; if (u == "WOMERSLEY") return 3; return -1; }
static void name(const std::string& s) {
  int r = -1, a = -1; nat::evals += 2;
  try { auto k = radial_from_string(s); r = -2; for (int i = 0; i < 4; ++i) if (k == RK[i]) r = i; } catch (const std::exception&) {}
  try { auto k = angular_from_string(s); a = -2; for (int i = 0; i < 4; ++i) if (k == AK[i]) a = i; } catch (const std::exception&) {}
  if (r != rwant(s)) nat::fail("radial_from_string(\"" + s + "\") gives " + (r >= 0 ? RN[r] : r == -1 ? "an exception" : "an unknown kind") + ", expected " + (rwant(s) >= 0 ? RN[rwant(s)] : "an exception"));
  if (a != awant(s)) nat::fail("angular_from_string(\"" + s + "\") gives " + (a >= 0 ? AN[a] : a == -1 ? "an exception" : "an unknown kind") + ", expected " + (awant(s) >= 0 ? AN[awant(s)] : "an exception"));
}
int main() {
  nat::kase("kinds by name");
  std::vector<std::string> base = {"BECKE", "MURRAYHANDYLAMING", "MHL", "MURAKNOWLES", "MK", "TREUTLERAHLRICHS", "TA", "AHRENSBEYLKIN", "AB", "DELLEY", "LEBEDEVLAIKOV", "LEBEDEV", "LL", "WOMERSLEY", "", "M", "L", "X", "W", "D", "B", "T", "A", "AHRENS", "MURRAY", "MURA", "TREUTLER", "LAIKOV", "GL", "WOM", "DE", "LE", "BK", "0"};
  for (auto s : vf_literals) base.push_back(s);
  std::set<std::string> all;
  for (auto& b : base) {
    std::string lo = b, alt = b, cap = b; for (sz i = 0; i < b.size(); ++i) { lo[i] = tolower((unsigned char)b[i]); alt[i] = i % 2 ? toupper((unsigned char)b[i]) : lo[i]; cap[i] = i ? lo[i] : b[i]; }
    for (auto& v : {b, lo, alt, cap, up(b), b + " ", " " + b, b + "S", b + std::string(1, '\0'), lo + "2"}) all.insert(v);
    for (sz i = 0; i < b.size(); ++i) { std::string d = b; d.erase(i, 1); all.insert(d); std::string e = b; e[i] = e[i] ^ 0x20; all.insert(e); e[i] = b[i] + 1; all.insert(e); e[i] = (char)0xe9; all.insert(e); e[i] = b[i] ^ 0x80; all.insert(e); if (i + 1 < b.size()) { std::string f = b; std::swap(f[i], f[i + 1]); all.insert(f); } all.insert(b.substr(0, i)); all.insert(b.substr(i)); }
  }
  for (auto& s : all) name(s);
  nat::kase("kinds of types");
  nat::expect(radial_from_type<bkq>() == RadialQuad::Becke && radial_from_type<mhq>() == RadialQuad::MurrayHandyLaming && radial_from_type<mkq>() == RadialQuad::MuraKnowles && radial_from_type<taq>() == RadialQuad::TreutlerAhlrichs, "radial_from_type");
  nat::expect(angular_from_type<AhrensBeylkin<double>>() == AngularQuad::AhrensBeylkin && angular_from_type<Delley<double>>() == AngularQuad::Delley && angular_from_type<LebedevLaikov<double>>() == AngularQuad::LebedevLaikov && angular_from_type<Womersley<double>>() == AngularQuad::Womersley, "angular_from_type");
  std::vector<unsigned> kinds{0, 1, 0x0f, 0x11, 0x50, 0x100, 0x500, 0xffffffffu, 0x01000010u, 0x80000040u}; for (auto k : RK) kinds.push_back((unsigned)k); for (auto k : AK) kinds.push_back((unsigned)k); { int c = 0; for (long h : nat::hints()) if (h >= 0 && c++ < 20) kinds.push_back((unsigned)h); }
  std::vector<sz> ns{1, 2, 3, 7, 20, 75}; { int c = 0; for (long h : nat::hints()) if (h >= 1 && h <= 300 && c++ < 8) ns.push_back(h); }
  for (int s = 0; s < 4; ++s) for (sz n : ns) for (double R : {1.0, 0.7, 3.25}) {
    auto t = mkt(s, n, R, 0.31); nat::kase(nat::fmt("%s(%zu,%g)", RN[s], n, R));
    for (unsigned k : kinds) {
      RadialFactory::radial_grid_ptr g; int ok = ret([&] { g = RadialFactory::generate((RadialQuad)k, *t); });
      nat::expect(ok == (k == (unsigned)RK[s]), nat::fmt("RadialFactory::generate(kind 0x%x) %s", k, ok ? "accepted" : "threw")); if (ok && g) withrad(s, *t, [&](auto q) { same(*g, q, "RadialFactory"); });
      std::unique_ptr<RadialTraits> p1, p2, p3; int o1 = ret([&] { p1 = make_radial_traits((RadialQuad)k, n); }), o2 = ret([&] { p2 = make_radial_traits((RadialQuad)k, n, R); }), o3 = ret([&] { p3 = make_radial_traits((RadialQuad)k, n, R, 0.31); });
      int w = -1; for (int i = 0; i < 4; ++i) if (k == (unsigned)RK[i]) w = i;
      nat::expect(o1 == (w >= 0) && o2 == (w >= 0) && o3 == (w == 3), nat::fmt("make_radial_traits(kind 0x%x): accepted %d %d %d", k, o1, o2, o3));
      if (w >= 0 && o1 && o2) { std::unique_ptr<RadialTraits> d = w == 0 ? std::unique_ptr<RadialTraits>(new Bk(n)) : w == 1 ? std::unique_ptr<RadialTraits>(new Mh(n)) : w == 2 ? std::unique_ptr<RadialTraits>(new Mk(n)) : std::unique_ptr<RadialTraits>(new Ta(n)); nat::expect(p1->compare(*d) && d->compare(*p1), nat::fmt("make_radial_traits(kind 0x%x, n) differs", k)); auto e = mkt(w, n, R, 0.6); nat::expect(p2->compare(*e) && e->compare(*p2), nat::fmt("make_radial_traits(kind 0x%x, n, R) differs", k)); }
      if (w == 3 && o3) nat::expect(p3->compare(*mkt(3, n, R, 0.31)), "make_radial_traits(TreutlerAhlrichs, n, R, alpha) differs");
    }
  }
  for (int a = 0; a < 4; ++a) {
    std::set<sz> zs{0, 1, 2, 3, 5, 7, 13, 25, 51, 1000, 5811, (sz)1 << 40, (sz)0xffffffff00000006ull}; for (auto z : SZ[a]) zs.insert(z); for (int b = 0; b < 4; ++b) for (auto z : SZ[b]) zs.insert(z); { int c = 0; for (long h : nat::hints()) if (h >= 0 && h < 6000 && c++ < 30) zs.insert(h); }
    for (sz z : zs) { nat::kase(nat::fmt("S2Factory, %s(%zu)", AN[a], z)); S2Factory::s2_grid_ptr g; int ok = ret([&] { g = S2Factory::generate(AK[a], z); }); bool w = sup(a, z); nat::expect(ok == w, nat::fmt("%s", ok ? "accepted an unsupported size" : "threw for a supported size")); if (ok && w) withang(a, [&](auto q) { using Q = typename decltype(q)::type; same(*g, Q(z), "S2Factory"); }); }
  }
  nat::kase("unknown angular kinds"); for (unsigned k : kinds) { bool w = k == 0x100 || k == 0x200 || k == 0x300 || k == 0x400; int ok = ret([&] { S2Factory::generate((AngularQuad)k, k == 0x100 ? 72 : k == 0x200 ? 14 : 6); }); nat::expect(ok == w, nat::fmt("S2Factory::generate(kind 0x%x) %s", k, ok ? "accepted" : "threw")); }
  for (int s = 0; s < 4; ++s) for (int a = 0; a < 4; ++a) {
    for (sz n : {sz(1), sz(4), sz(9)}) {
      auto t = mkt(s, n, 1.25, 0.31); for (sz z : {SZ[a][0], SZ[a][2], sz(7)}) {
        nat::kase(nat::fmt("unpruned %s(%zu) x %s(%zu)", RN[s], n, AN[a], z)); bool w = sup(a, z);
        SphericalGridFactory::spherical_grid_ptr g, h; int ok = ret([&] { g = SphericalGridFactory::generate_unpruned_grid(RK[s], *t, AK[a], z); }), ok2 = ret([&] { UnprunedSphericalGridSpecification u(RK[s], *t, AK[a], z); h = SphericalGridFactory::generate_grid(u); });
        nat::expect(ok == w && ok2 == w, nat::fmt("accepted %d %d, size supported %d", ok, ok2, w));
        if (w && ok && ok2) withrad(s, *t, [&](auto r) { withang(a, [&](auto q) { using Q = typename decltype(q)::type; using RQ = decltype(r); SphericalQuadrature<RQ,Q> d(r, Q(z)); same(*g, d, "generate_unpruned_grid"); same(*h, d, "generate_grid"); nat::expect(g->center() == d.center() && h->center() == d.center(), "centre differs"); }); });
        for (int s2 = 0; s2 < 4; ++s2) if (s2 != s) nat::expect(!ret([&] { SphericalGridFactory::generate_unpruned_grid(RK[s2], *t, AK[a], z); }), nat::fmt("%s parameters accepted for %s", RN[s], RN[s2]));
        for (unsigned k : {0u, 0x50u, 0x110u}) nat::expect(!ret([&] { SphericalGridFactory::generate_unpruned_grid((RadialQuad)k, *t, AK[a], z); }) && !ret([&] { SphericalGridFactory::generate_unpruned_grid(RK[s], *t, (AngularQuad)(k + 1), z); }), "an unknown kind is accepted");
      }
    }
    sz n = 12; auto t = mkt(s, n, 0.9, 0.31); auto Z = [&](int k) { return SZ[a][k % SZ[a].size()]; };
    std::vector<std::vector<std::pair<sz,sz>>> cuts{{{0, Z(0)}}, {{0, Z(1)}}, {{0, Z(0)}, {1, Z(1)}}, {{0, Z(1)}, {11, Z(0)}}, {{0, Z(1)}, {4, Z(1)}}, {{0, Z(0)}, {3, Z(2)}, {7, Z(1)}}, {{0, Z(2)}, {2, Z(1)}, {5, Z(3)}, {10, Z(0)}}, {{0, Z(0)}, {3, Z(1)}, {5, 7}}, {{0, 7}, {3, Z(1)}}, {{0, Z(0)}, {1, Z(0)}, {2, Z(0)}, {3, Z(0)}, {4, Z(1)}, {5, Z(0)}, {6, Z(2)}}};
    for (auto& c : cuts) {
      vr regs; bool w = true; std::string d; for (sz k = 0; k < c.size(); ++k) { regs.push_back({c[k].first, k + 1 < c.size() ? c[k + 1].first : n, AK[a], c[k].second}); w = w && sup(a, c[k].second); d += nat::fmt(" [%zu..)x%zu", c[k].first, c[k].second); }
      nat::kase(nat::fmt("pruned %s(%zu) x %s:", RN[s], n, AN[a]) + d);
      SphericalGridFactory::spherical_grid_ptr g, h; int ok = ret([&] { g = SphericalGridFactory::generate_pruned_grid(RK[s], *t, regs); }), ok2 = ret([&] { PrunedSphericalGridSpecification p(RK[s], *t, regs); h = SphericalGridFactory::generate_grid(p); });
      nat::expect(ok == w && ok2 == w, nat::fmt("accepted %d %d, expected %d", ok, ok2, w));
      if (w && ok && ok2) withrad(s, *t, [&](auto r) { withang(a, [&](auto q) { using Q = typename decltype(q)::type; using RQ = decltype(r); RadialGridPartition<Q> gp; for (auto& x : regs) gp.add_quad(r, x.idx_st, Q(x.angular_size)); gp.finalize(r); PrunedSphericalQuadrature<RQ,Q> p(r, gp); same(*g, p, "generate_pruned_grid"); same(*h, p, "generate_grid"); nat::expect(g->center() == p.center() && h->center() == p.center(), "centre differs"); }); });
      for (sz k = 0; k < regs.size(); ++k) if (regs.size() > 1) for (int b = 0; b < 4; ++b) if (b != a) { auto m = regs; m[k].angular_quad = AK[b]; m[k].angular_size = SZ[b][0]; nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid(RK[s], *t, m); }), nat::fmt("mixed angular kinds accepted (region %zu)", k)); m[k].angular_size = regs[k].angular_size; nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid(RK[s], *t, m); }), nat::fmt("mixed angular kinds accepted (region %zu)", k)); }
      { auto m = regs; for (auto& x : m) x.angular_quad = (AngularQuad)0x350; nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid(RK[s], *t, m); }), "an unknown angular kind is accepted"); }
      for (int s2 = 0; s2 < 4; ++s2) if (s2 != s) nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid(RK[s2], *t, regs); }), nat::fmt("%s parameters accepted for %s", RN[s], RN[s2]));
      nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid((RadialQuad)0x50, *t, regs); }), "an unknown radial kind is accepted");
    }
    nat::kase("rejected requests"); vr none; nat::expect(!ret([&] { SphericalGridFactory::generate_pruned_grid(RK[s], *t, none); }), "an empty region list is accepted"); nat::expect(!ret([&] { PrunedSphericalGridSpecification p(RK[s], *t, none); SphericalGridFactory::generate_grid(p); }), "an empty specification is accepted");
    { vr one{{0, n, AK[a], SZ[a][0]}}; nat::expect(!ret([&] { PrunedSphericalGridSpecification p(RK[s], radial_traits_ptr{}, one); SphericalGridFactory::generate_grid(p); }), "a pruned specification without radial parameters is accepted"); UnprunedSphericalGridSpecification u(RK[s], *t, AK[a], SZ[a][0]); u.radial_traits.reset(); nat::expect(!ret([&] { SphericalGridFactory::generate_grid(u); }), "an unpruned specification without radial parameters is accepted");
      for (auto ps : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) nat::expect(!ret([&] { create_pruned_spec(ps, u); }), "create_pruned_spec accepts a specification without radial parameters"); }
  }
  return nat::done();
}
