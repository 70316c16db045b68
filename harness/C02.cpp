// Adaptive bandwidth: the effective bandwidth is the interpolated order statistic of the distances.
// BOUNDS: 2..4 symbolic distances in [0,1e6] in every order, 9 (thorough: 40) distances with one symbolic one; bandwidth symbolic in [1,3n]; all five kernels
#include "common.h"
using namespace gwm;
typedef BandwidthWeight BW;
static double kern(int k, double d, double b) {
  double r = d / b;
  switch (k) {
    case 0: return exp(-0.5 * (r * r));
    case 1: return exp(-r);
    case 2: return d < b ? (1 - r * r) * (1 - r * r) : 0.0;
    case 3: return d < b ? (1 - r * r * r) * (1 - r * r * r) * (1 - r * r * r) : 0.0;
    default: return d < b ? 1.0 : 0.0;
  }
}
static BW::KernelFunctionType kt(int k) { static const BW::KernelFunctionType t[] = {BW::Gaussian, BW::Exponential, BW::Bisquare, BW::Tricube, BW::Boxcar}; return t[k]; }
// independent statement: selection sort, then linear interpolation between the two neighbours
static double effective(vec d, double bw) {
  uword n = d.n_elem;
  for (uword i = 0; i < n; i++) for (uword j = i + 1; j < n; j++) if (d(j) < d(i)) { double t = d(i); d(i) = d(j); d(j) = t; }
  if (bw >= double(n)) return bw / double(n) * d(n - 1);
  uword m = 1; while (double(m + 1) <= bw) m++;      // m <= bw < m+1
  return d(m - 1) + (d(m) - d(m - 1)) * (bw - double(m));
}
static void run(const vec& d, double bw, int k) {
  double f = effective(d, bw); if (!(f > 0)) { sym_assume(0); }
  BW w(bw, true, kt(k)); vec r = w.weight(d);
  if (!shape(r, d.n_elem, 1, "weight vector")) return;
  for (uword i = 0; i < d.n_elem; i++) eq(r(i), kern(k, d(i), f), "adaptive kernel weight");
  obs("w", r);
}
SCENARIO(n2) { int k = sym_int("kernel", 0, 4); vec d = sym_vec("d", 2, 0, 1e6); run(d, sym_real("bw", 1, 6), k); }
SCENARIO(n3) { int k = sym_int("kernel", 0, 4); vec d = sym_vec("d", 3, 0, 1e6); run(d, sym_real("bw", 1, 9), k); }
SCENARIO(n4_gauss) { vec d = sym_vec("d", 4, 0, 1e6); run(d, sym_real("bw", 1, 12), 0); }
SCENARIO_T(n4_bisquare) { vec d = sym_vec("d", 4, 0, 1e6); run(d, sym_real("bw", 1, 12), 2); }
SCENARIO_T(n4) { int k = sym_int("kernel", 0, 4); vec d = sym_vec("d", 4, 0, 1e6); run(d, sym_real("bw", 1, 12), k); }
SCENARIO_T(n5) { vec d = sym_vec("d", 5, 0, 1e6); run(d, sym_real("bw", 1, 15), 0); }
static void big(uword n) {
  int k = sym_int("kernel", 0, 1) * 2; vec d(n); for (uword i = 0; i < n; i++) d(i) = double((i * 29 + 7) % 31); d(n / 3) = sym_real("u", 2, 4); double bw = sym_real("bw", 1, 3.0 * n);
  run(d, bw, k);
}
SCENARIO(n9) { big(9); }
SCENARIO_T(n40) { big(40); }
// changing the bandwidth between calls, and calls with vectors of different lengths
SCENARIO(reuse) {
  vec a = {3.0, 0.0, 5.0, 1.0}, b = sym_vec("d", 3, 0, 1e6); double b1 = sym_real("bw1", 1, 6), b2 = sym_real("bw2", 1, 6);
  double f = effective(b, b2); if (!(f > 0)) sym_assume(0);
  BW w(b1, true, BW::Gaussian); w.weight(a); w.setBandwidth(b2); vec r = w.weight(b);
  for (uword i = 0; i < 3; i++) eq(r(i), kern(0, b(i), f), "adaptive weight after reuse");
  Weight* c = w.clone(); vec r2 = c->weight(b); delete c; eqm(r2, r, "clone");
}
// a wider adaptive bandwidth never drops an observation; observations nearer than the m-th neighbour are inside
SCENARIO(coverage) {
  vec d = sym_vec("d", 3, 0, 1e6); double bw = sym_real("bw", 1, 9), bw2 = sym_real("bw2", 1, 9); sym_assume_le(bw, bw2);
  if (!(effective(d, bw) > 0)) sym_assume(0);
  BW w(bw, true, BW::Boxcar), v(bw2, true, BW::Boxcar); vec r = w.weight(d), s = v.weight(d);
  for (uword i = 0; i < 3; i++) { le(r(i), s(i), "no observation is lost by a wider adaptive bandwidth"); uword nearer = 0; for (uword j = 0; j < 3; j++) if (d(j) < d(i)) nearer++; if (bw >= double(nearer + 1) + 1 && d(i) < effective(d, bw)) eq(r(i), 1.0, "near neighbours are inside"); }
}
