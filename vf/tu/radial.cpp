// Verification entry points: radial maps, Jacobians and radial quadratures.
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/primitive/uniform.hpp>
#include <new>
using namespace IntegratorXX;
using sz = std::size_t;
using B = BeckeRadialTraits; using M = MurrayHandyLamingRadialTraits<2>; using K = MuraKnowlesRadialTraits; using T = TreutlerAhlrichsRadialTraits;
extern "C" {
#define MAPS(tag, C) \
  double vf_##tag##_r(sz n, double R, double x) { C t(n, R); return t.radial_transform(x); } \
  double vf_##tag##_j(sz n, double R, double x) { C t(n, R); return t.radial_jacobian(x); }
MAPS(becke, B) MAPS(mhl, M) MAPS(mk, K)
MAPS(mhl1, MurrayHandyLamingRadialTraits<1>) MAPS(mhl3, MurrayHandyLamingRadialTraits<3>) MAPS(mhl4, MurrayHandyLamingRadialTraits<4>) MAPS(mhl5, MurrayHandyLamingRadialTraits<5>) MAPS(mhl8, MurrayHandyLamingRadialTraits<8>)
double vf_ta_r(sz n, double R, double a, double x) { T t(n, R, a); return t.radial_transform(x); }
double vf_ta_j(sz n, double R, double a, double x) { T t(n, R, a); return t.radial_jacobian(x); }
// default parameters
double vf_becke_r0(sz n, double x) { B t(n); return t.radial_transform(x); }
double vf_mhl_r0(sz n, double x) { M t(n); return t.radial_transform(x); }
double vf_mk_r0(sz n, double x) { K t(n); return t.radial_transform(x); }
double vf_ta_r0(sz n, double x) { T t(n); return t.radial_transform(x); }
double vf_ta_r1(sz n, double R, double x) { T t(n, R); return t.radial_transform(x); }
#define QUAD(tag, Q, C) \
  void vf_##tag##_q(sz n, double R, Q<double,double>* out) { C t(n, R); new (out) Q<double,double>(t); } \
  void vf_##tag##_qa(sz n, double R, Q<double,double>* out) { new (out) Q<double,double>(n, R); } \
  void vf_##tag##_qb(const RadialTraits& t, Q<double,double>* out) { new (out) Q<double,double>(t); } \
  void vf_##tag##_qc(sz n, double R, Q<double,double>* out) { C t(n, R); vf_##tag##_qb(t, out); }
QUAD(becke, Becke, B) QUAD(mhl, MurrayHandyLaming, M) QUAD(mk, MuraKnowles, K)
void vf_ta_q(sz n, double R, double a, TreutlerAhlrichs<double,double>* out) { T t(n, R, a); new (out) TreutlerAhlrichs<double,double>(t); }
void vf_ta_qa(sz n, double R, double a, TreutlerAhlrichs<double,double>* out) { new (out) TreutlerAhlrichs<double,double>(n, R, a); }
void vf_ta_qb(const RadialTraits& t, TreutlerAhlrichs<double,double>* out) { new (out) TreutlerAhlrichs<double,double>(t); }
void vf_ta_qc(sz n, double R, double a, TreutlerAhlrichs<double,double>* out) { T t(n, R, a); vf_ta_qb(t, out); }
// a parameter object of the wrong scheme
void vf_wrong_bt(sz n, double R, Becke<double,double>* out) { T t(n, R); vf_becke_qb(t, out); }
void vf_wrong_tb(sz n, double R, TreutlerAhlrichs<double,double>* out) { B t(n, R); vf_ta_qb(t, out); }
void vf_wrong_mk(sz n, double R, MurrayHandyLaming<double,double>* out) { K t(n, R); vf_mhl_qb(t, out); }
void vf_wrong_km(sz n, double R, MuraKnowles<double,double>* out) { M t(n, R); vf_mk_qb(t, out); }
}
