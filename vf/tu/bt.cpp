#include <cassert>
#include <tuple>
#include <integratorxx/util/bound_transform.hpp>
struct pw { double p, w; };
extern "C" void vf_bt(double lo, double up, double x, double w, pw* out) {
  auto t = IntegratorXX::transform_minus_one_to_one(lo, up, x, w);
  out->p = std::get<0>(t); out->w = std::get<1>(t);
}
