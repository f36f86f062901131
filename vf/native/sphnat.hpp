// abstract rules with arbitrary contents
#pragma once
#include <array>
#include <memory>
#include <vector>
#include <cassert>
#include <tuple>
#include <stdexcept>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include "nat.hpp"
using namespace IntegratorXX;
using pt = std::array<double,3>;
using vd = std::vector<double>;
using vp = std::vector<pt>;
struct RQ; struct AQ;
namespace IntegratorXX {
template <> struct quadrature_traits<RQ> {
  using point_type = double; using weight_type = double; using point_container = vd; using weight_container = vd;
  static std::tuple<vd,vd> generate(const vd& p, const vd& w) { return std::make_tuple(p, w); }
};
template <> struct quadrature_traits<AQ> {
  using point_type = pt; using weight_type = double; using point_container = vp; using weight_container = vd;
  static std::tuple<vp,vd> generate(const vp& p, const vd& w) { return std::make_tuple(p, w); }
};
}
struct RQ : Quadrature<RQ> { RQ(const vd& p, const vd& w) : Quadrature<RQ>(p, w) {} };
struct AQ : Quadrature<AQ> { AQ(const vp& p, const vd& w) : Quadrature<AQ>(p, w) {} };
using SQ = SphericalQuadrature<RQ,AQ>;
using PQ = PrunedSphericalQuadrature<RQ,AQ>;
using SB = SphericalQuadratureBase<vp,vd>;
using RGP = RadialGridPartition<AQ>;
inline double rnd() { long k = nat::irand(0, 11); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : nat::uni(-3, 3); }
inline vd rvec(long n) { vd v(n); for (auto& x : v) x = rnd(); return v; }
inline vp pvec(long n) { vp v(n); for (auto& x : v) x = {rnd(), rnd(), rnd()}; return v; }
inline std::vector<pt> centres() {
  std::vector<pt> c = {{0,0,0}, {1,2,3}, {1,0,0}, {0,-1,0}, {0,0,0.5}, {1,2,4}, {-1e3,1e-3,7}, {1,1,1}, {1e10,-1e10,0}, {1e-9,0,0}, {0,0,-1e-13}};
  for (auto h : nat::rhints()) if (std::abs(h) < 1e12 && c.size() < 24) { c.push_back({h,0,0}); c.push_back({0,h,1}); c.push_back({0,1,h}); }
  return c;
}
struct grid { vp p; vd w; };
inline grid product(const vd& rp, const vd& rw, const vp& ap, const vd& aw, size_t b, size_t e, pt c) {
  grid g;
  for (size_t j = 0; j < ap.size(); ++j) for (size_t i = b; i < e; ++i) {
    g.p.push_back({rp[i]*ap[j][0] + c[0], rp[i]*ap[j][1] + c[1], rp[i]*ap[j][2] + c[2]});
    g.w.push_back(rw[i]*aw[j]*(rp[i]*rp[i]));
  }
  return g;
}
inline void cmpg(const vp& p, const vd& w, const grid& g, const char* nm, double sc = 1) {
  nat::expect(p.size() == g.p.size() && w.size() == g.w.size(), nat::fmt("%s: sizes %zu %zu, expected %zu", nm, p.size(), w.size(), g.p.size()));
  if (p.size() != g.p.size() || w.size() != g.w.size()) return;
  for (size_t k = 0; k < p.size(); ++k) {
    for (int d = 0; d < 3; ++d) nat::near(p[k][d], g.p[k][d], 1e-13, nat::fmt("%s: coordinate %d of point", nm, d).c_str(), k, sc);
    nat::near(w[k], g.w[k], 1e-13, nat::fmt("%s: weight", nm).c_str(), k);
  }
}
inline std::string cs(pt c) { return nat::fmt("(%g,%g,%g)", c[0], c[1], c[2]); }
inline double cmag(pt c) { return std::max({1.0, std::abs(c[0]), std::abs(c[1]), std::abs(c[2])}); }
