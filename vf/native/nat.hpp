// Common parts of the bounded native harnesses.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <algorithm>
namespace nat {
inline long evals = 0, cases = 0;
inline int nfail = 0;
inline bool thorough() { auto s = getenv("VF_TIER"); return s && !strcmp(s, "thorough"); }
inline std::mt19937_64& rng() { static std::mt19937_64 r(getenv("VF_SEED") ? atoll(getenv("VF_SEED")) : 1); return r; }
inline double uni(double a, double b) { return a + (b - a) * (rng()() >> 11) * (1.0 / 9007199254740992.0); }
inline long irand(long a, long b) { return a + (long)(rng()() % (unsigned long)(b - a + 1)); }
inline std::vector<long> hints() { std::vector<long> v; if (auto s = getenv("VF_HINTS")) { std::istringstream i(s); long x; while (i >> x) v.push_back(x); } return v; }
inline std::vector<double> rhints() { std::vector<double> v; if (auto s = getenv("VF_RHINTS")) { std::istringstream i(s); double x; while (i >> x) v.push_back(x); } return v; }
template <class... A> std::string fmt(const char* f, A... a) { char b[1024]; snprintf(b, sizeof b, f, a...); return b; }
inline std::string cur;
inline void kase(const std::string& s) { cur = s; ++cases; printf("CASE %s\n", s.c_str()); fflush(stdout); if (cases <= 3) printf("SAMPLE %s\n", s.c_str()); }
inline void fail(const std::string& s) { if (nfail++ < 25) { printf("FAIL %s: %s\n", cur.c_str(), s.c_str()); fflush(stdout); } }
inline bool close(double a, double b, double tol, double scale = 1.0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) ? true : false;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol * std::max({std::abs(a), std::abs(b), scale});
}
inline void expect(bool c, const std::string& s) { ++evals; if (!c) fail(s); }
inline void near(double got, double want, double tol, const char* what, long i = -1, double scale = 1.0) {
  ++evals;
  if (!close(got, want, tol, scale)) fail(i >= 0 ? fmt("%s[%ld] = %.17g, expected %.17g", what, i, got, want) : fmt("%s = %.17g, expected %.17g", what, got, want));
}
// sizes 0..N plus hints (bounded by cap)
inline std::vector<long> sizes(long lo, long N, long cap, std::vector<long> extra = {}) {
  std::set<long> s;
  for (long i = lo; i <= N; ++i) s.insert(i);
  for (auto h : extra) if (h >= lo && h <= cap) s.insert(h);
  int k = 0;
  for (auto h : hints()) for (long d : {0L, 1L, -1L}) { long v = h + d; if (v >= lo && v <= cap && k < 400) { if (s.insert(v).second) ++k; } }
  // ascending, then again some of them in arbitrary order: results may not depend on earlier calls
  std::vector<long> v(s.begin(), s.end()), w;
  for (long x : v) if (x <= 300) w.push_back(x);
  for (int i = 0; i < 40 && !w.empty(); ++i) v.push_back(w[rng()() % w.size()]);
  return v;
}
inline int done() { printf("STAT evaluations %ld\nSTAT cases %ld\nSTAT failures %d\n", evals, cases, nfail); return 0; }
}  // namespace nat
