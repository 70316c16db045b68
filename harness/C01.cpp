// Fixed-bandwidth kernel weights.
// BOUNDS: distances in [0,1e7], bandwidth in [1e-3,1e7], vectors of 1..4 symbolic distances and of 40 distances with one symbolic entry at any of 5 positions; all five kernels; direct, copied, re-configured and cloned weight objects
#include "common.h"
using namespace gwm;
typedef BandwidthWeight BW;
static double kern(int k, double d, double b) {
  double r = d / b;
  switch (k) {
    case 0: return exp(-0.5 * (r * r));
    case 1: return exp(-r);
    case 2: return d < b ? (1 - r * r) * (1 - r * r) : 0.0;
    case 3: return d < b ? (1 - r * r * r) * (1 - r * r * r) * (1 - r * r * r) : 0.0;
    default: return d < b ? 1.0 : 0.0;
  }
}
static BW::KernelFunctionType kt(int k) { static const BW::KernelFunctionType t[] = {BW::Gaussian, BW::Exponential, BW::Bisquare, BW::Tricube, BW::Boxcar}; return t[k]; }

static void formula(uword n) {
  int k = sym_int("kernel", 0, 4); double b = sym_real("bw", 1e-3, 1e7); vec d = sym_vec("d", n, 0, 1e7);
  BW w(b, false, kt(k)); vec r = w.weight(d);
  if (!shape(r, n, 1, "weight vector")) return;
  for (uword i = 0; i < n; i++) eq(r(i), kern(k, d(i), b), "kernel formula");
  obs("w", r);
}
SCENARIO(formula1) { formula(1); }
SCENARIO(formula2) { formula(2); }
SCENARIO(formula3) { formula(3); }
SCENARIO_T(formula4) { formula(4); }
// properties every kernel has, whatever its formula
SCENARIO(shape_props) {
  int k = sym_int("kernel", 0, 4); double b = sym_real("bw", 1e-3, 1e7), d = sym_real("d", 0, 1e7), e = sym_real("e", 0, 1e7);
  sym_assume_lt(d, e);
  BW w(b, false, kt(k)); vec r = w.weight(vec({d, e, 0.0}));
  for (uword i = 0; i < 3; i++) { le(0.0, r(i), "weight not negative"); le(r(i), 1.0, "weight not above one"); }
  eq(r(2), 1.0, "weight one at distance zero");
  le(r(1), r(0), "weight does not increase with distance");
  if (k >= 2) { if (d >= b) eq(r(0), 0.0, "compact kernels vanish beyond the bandwidth"); else lt(0.0, r(0), "weights inside the bandwidth are positive"); }
  else lt(0.0, r(0), "Gaussian and exponential weights are positive");
}
// wider bandwidths never lower a weight
SCENARIO(bandwidth_monotone) {
  int k = sym_int("kernel", 0, 4); double b = sym_real("bw", 1e-3, 1e7), c = sym_real("bw2", 1e-3, 1e7), d = sym_real("d", 0, 1e7);
  sym_assume_lt(b, c);
  BW w(b, false, kt(k)); double r1 = w.weight(vec({d}))(0); w.setBandwidth(c); double r2 = w.weight(vec({d}))(0);
  le(r1, r2, "weight does not decrease with bandwidth");
}
// configuration: setters, copies and clones behave alike; earlier calls leave no trace
SCENARIO(configuration) {
  int k = sym_int("kernel", 0, 4), how = sym_int("how", 0, 4); double b = sym_real("bw", 1e-3, 1e7), d = sym_real("d", 0, 1e7);
  BW w(b, false, kt(k)); vec r;
  if (how == 0) { BW u; u.setAdaptive(false); u.setBandwidth(b); u.setKernel(kt(k)); r = u.weight(vec({d})); ok(u.kernel() == kt(k) && !u.adaptive(), "accessors"); eq(u.bandwidth(), b, "accessor bandwidth"); }
  else if (how == 1) { BW u(w); w.setBandwidth(1.0); r = u.weight(vec({d})); }
  else if (how == 2) { Weight* u = w.clone(); w.setKernel(BW::Boxcar); r = u->weight(vec({d})); delete u; }
  else if (how == 3) { BW u(&w); r = u.weight(vec({d})); }
  else { BW u(3.0, true, kt((k + 1) % 5)); u.weight(vec({1.0, 2.0, 3.0, 4.0})); u.setAdaptive(false); u.setKernel(kt(k)); u.setBandwidth(2.0); u.weight(vec({1.0, 5.0})); u.setBandwidth(b); r = u.weight(vec({d})); }
  eq(r(0), kern(k, d, b), "configured weight");
}
// the table of kernels follows the enumeration
SCENARIO(kernel_table) {
  int k = sym_int("kernel", 0, 4); double b = sym_real("bw", 1e-3, 1e7), d = sym_real("d", 0, 1e7);
  vec r = BW::Kernel[kt(k)](vec({d}), b); eq(r(0), kern(k, d, b), "kernel table");
  vec s = k == 0 ? BW::GaussianKernelFunction(vec({d}), b) : k == 1 ? BW::ExponentialKernelFunction(vec({d}), b) : k == 2 ? BW::BisquareKernelFunction(vec({d}), b) : k == 3 ? BW::TricubeKernelFunction(vec({d}), b) : BW::BoxcarKernelFunction(vec({d}), b);
  eq(s(0), kern(k, d, b), "kernel function");
}
// a weight depends on its own distance only
SCENARIO(long_vector) {
  int k = sym_int("kernel", 0, 4), pos = sym_int("pos", 0, 4) * 10 - (0); if (pos == 40) pos = 39; double b = sym_real("bw", 1e-3, 1e7), x = sym_real("d", 0, 1e7);
  vec d(40); for (uword i = 0; i < 40; i++) d(i) = double((i * 17) % 23); d(pos) = x; sym_assume_lt(30.0, b);
  BW w(b, false, kt(k)); vec r = w.weight(d);
  for (uword i = 0; i < 40; i++) eq(r(i), kern(k, d(i), b), "kernel formula in a long vector");
}
