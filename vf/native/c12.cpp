// Ground evaluation: every supported angular rule against all spherical
// harmonics up to its advertised order, on the grid the constructor returns.
#include <array>
#include <memory>
#include <stdexcept>
#include <cassert>
#include <atomic>
#include <mutex>
#include <thread>
#include "nat.hpp"
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
typedef long double L;
static const L PI4 = 4 * 3.14159265358979323846264338327950288L;
struct job { int fam; long n, ord; std::string msg[4]; double err = 0, werr = 0, nerr = 0; int lmax = 0; double cost() const { return (double)n * (ord + 1) * (ord + 1); } };
static const char* FN[] = {"LebedevLaikov", "Delley", "AhrensBeylkin", "Womersley"};
template <class F> auto disp(int f, F g) {
  switch (f) { case 0: return g((LebedevLaikov<double>*)0); case 1: return g((Delley<double>*)0); case 2: return g((AhrensBeylkin<double>*)0); default: return g((Womersley<double>*)0); }
}
static int64_t ordof(int f, int64_t n) { return disp(f, [&](auto* q) { return quadrature_traits<std::decay_t<decltype(*q)>>::algebraic_order_by_npts(n); }); }
static void eval(job& J) {
  std::vector<std::array<double,3>> P; std::vector<double> W;
  try { disp(J.fam, [&](auto* q) { std::decay_t<decltype(*q)> g(J.n); P = g.points(); W = g.weights(); return 0; }); }
  catch (const std::exception& e) { J.msg[0] = std::string("construction failed: ") + e.what(); return; }
  if ((long)P.size() != J.n || (long)W.size() != J.n) { J.msg[0] = nat::fmt("has %zu points and %zu weights", P.size(), W.size()); return; }
  const long N = J.n, LM = J.ord;
  L sum = 0, comp = 0; long bad = -1;
  for (long i = 0; i < N; ++i) {
    L r = (L)P[i][0]*P[i][0] + (L)P[i][1]*P[i][1] + (L)P[i][2]*P[i][2] - 1;
    if (!(fabsl(r) <= fabsl((L)J.nerr))) { J.nerr = (double)r; bad = i; if (!(fabsl(r) < 1e9)) break; }
    L y = W[i] - comp, t = sum + y; comp = (t - sum) - y; sum = t;
  }
  J.werr = (double)(sum - PI4);
  if (!(std::abs(J.nerr) <= 1e-14)) J.msg[1] = nat::fmt("point %ld is off the unit sphere: |x|^2-1 = %.3e", bad, J.nerr);
  if (!(std::abs(J.werr) <= 8e-15)) J.msg[2] = nat::fmt("weights sum to 4 pi %+.5e", J.werr);
  // l >= 1, blocked over points; Y_lm = N_lm Q_lm(z) Re/Im (x+iy)^m by the normalised recurrence
  std::vector<L> cr(N, 1), ci(N, 0), a(N), b(N); L mm = 1; L worst = 0; int wl = 0, wm = 0;
  for (long m = 0; m <= LM; ++m) {
    if (m) { mm *= sqrtl((2*m + 1) / (L)(2*m)); for (long i = 0; i < N; ++i) { L x = P[i][0], y = P[i][1], r = cr[i]*x - ci[i]*y; ci[i] = cr[i]*y + ci[i]*x; cr[i] = r; } }
    for (long i = 0; i < N; ++i) { a[i] = mm; b[i] = 0; }   // Q_mm, Q_{m-1,m}
    for (long l = m; l <= LM; ++l) {
      if (l > m) { L A = sqrtl((4.0L*l*l - 1) / ((L)l*l - (L)m*m)), B = l - 1 > m ? sqrtl((((L)l-1)*(l-1) - (L)m*m) / (4.0L*(l-1)*(l-1) - 1)) : 0;
        for (long i = 0; i < N; ++i) { L q = A * (P[i][2]*a[i] - B*b[i]); b[i] = a[i]; a[i] = q; } }
      if (l == 0) continue;
      L s = 0, t = 0; for (long i = 0; i < N; ++i) { L q = W[i]*a[i]; s += q*cr[i]; t += q*ci[i]; }
      L e = fmaxl(fabsl(s), fabsl(t)) / sqrtl(PI4); if (!(e <= worst)) { worst = e; wl = l; wm = m; if (e != e) goto out; }
    }
  }
out:
  J.err = (double)worst; J.lmax = wl;
  // the Ahrens-Beylkin tables carry fewer digits; their error grows with the size
  if (!(worst <= (J.fam == 2 ? (J.n <= 4000 ? 1e-12L : 4e-12L) : 4e-14L))) J.msg[3] = nat::fmt("spherical harmonic l=%d m=%d is integrated with error %.4e", wl, wm, (double)worst);
}
int main(int argc, char** argv) {
  std::vector<job> js; std::set<std::pair<int,long>> seen;
  auto add = [&](int f, long n) { int64_t o = ordof(f, n); if (o >= 0 && n > 0 && n < 200000 && o < 2000 && seen.insert({f, n}).second) { job j; j.fam = f; j.n = n; j.ord = o; js.push_back(j); } };
  if (auto s = getenv("VF_LIST")) { std::istringstream in(s); int f; long n; while (in >> f >> n) add(f, n); }
  for (int f = 0; f < 4; ++f) for (long n = 0; n <= 70000; ++n) add(f, n);
  std::sort(js.begin(), js.end(), [](auto& x, auto& y) { return x.cost() > y.cost(); });
  std::atomic<size_t> k{0}; std::vector<std::thread> th;
  for (int t = 0; t < 8; ++t) th.emplace_back([&] { size_t i; while ((i = k++) < js.size()) eval(js[i]); });
  for (auto& t : th) t.join();
  double w = 0; long lev = 0;
  for (auto& j : js) {
    nat::kase(nat::fmt("%s n=%ld order %ld", FN[j.fam], j.n, j.ord)); nat::evals += (j.ord + 1) * (j.ord + 1);
    for (auto& m : j.msg) if (!m.empty()) nat::fail(m);
    if (argc > 1) printf("INFO %s n=%ld order %ld err %.3e (l=%d) sum %.3e norm %.3e\n", FN[j.fam], j.n, j.ord, j.err, j.lmax, j.werr, j.nerr);
    bool ok = true; for (auto& m : j.msg) ok &= m.empty(); lev += ok ? 3 : 0;
  }
  printf("STAT tables %zu\nSTAT ground_obligations %zu\nSTAT ground_discharged %ld\n", js.size(), js.size() * 3, lev);
  return nat::done();
}
