// Geographically weighted regression: coefficients are the local weighted least squares solutions.
// BOUNDS: n = 5..6 observations and k = 2..3 variables with all responses symbolic in [-100,100]; n = 4, k = 2 with all weights of any one focus symbolic in [1e-3,1] or one regressor entry symbolic; symbolic bandwidth with every kernel on 4 points
#include "ref.h"
using namespace gwm;
static void check(const mat& X, const vec& y, const mat& W, const mat& b, const char* m) { if (!shape(b, X.n_rows, X.n_cols, "coefficients")) return; for (uword i = 0; i < X.n_rows; i++) normal_eq(X, y, W.col(i), b.row(i).t(), m); }
SCENARIO(responses) {
  uword n = 5 + sym_int("n", 0, 1), k = 2 + sym_int("k", 0, 1); mat X = design(n, k), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100); int hat = sym_int("hat", 0, 1), ic = sym_int("ic", 0, 1);
  GWRBasic a(X, y, coords2(n), table_sw(W), hat, ic); mat b = a.fit(); check(X, y, W, b, "local weighted normal equations"); eqm(a.betas(), b, "stored coefficients"); ok(a.status() == Status::Success, "status"); obs("b", b);
}
SCENARIO(weights) {
  uword n = 4, k = 2; mat X = design(n, k), W = weights_fixed(n, n); int f = sym_int("focus", 0, 3); for (uword i = 0; i < n; i++) W(i, f) = sym_real(nm("w", i).c_str(), 1e-3, 1); vec y = {1, 2, -1, 3};
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); mat b = a.fit(); check(X, y, W, b, "local weighted normal equations");
}
SCENARIO(weights3) {
  uword n = 5, k = 3; mat X = design(n, k), W = weights_fixed(n, n); int f = sym_int("focus", 0, 4), q = sym_int("which", 0, 4); W(q, f) = sym_real("w", 1e-3, 1); W((q + 2) % n, f) = sym_real("v", 1e-3, 1); vec y = {1, 2, -1, 3, 5};
  GWRBasic a(X, y, coords2(n), table_sw(W), false, true); mat b = a.fit(); check(X, y, W, b, "local weighted normal equations");
}
SCENARIO(regressors) {
  uword n = 4, k = 2; mat X = design(n, k), W = weights_fixed(n, n); int r = sym_int("row", 0, 3), c = sym_int("col", 0, 1); X(r, c) = sym_real("x", -50, 50); vec y = {1, 2, -1, 3};
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); mat b; try { b = a.fit(); } catch (std::exception&) { for (uword i = 0; i < n; i++) { double d = ref::det(ref::xtwx(X, W.col(i))); if (!(d > 0)) return; } ok(false, "a regular system is solved"); return; } check(X, y, W, b, "local weighted normal equations");
}
// the weights come from the configured kernel, bandwidth and distance
SCENARIO(kernels) {
  uword n = 4; int kn = sym_int("kernel", 0, 4); mat p = line(n), D = dist_line(p, p), X = design(n, 2); vec y = {1, 2, -1, 3}; double b = kn == 4 ? sym_real("b", 4.5, 30) : kn >= 2 ? sym_real("b", 8, 40) : sym_real("b", 1, 40);
  GWRBasic a(X, y, p, crs_sw(b, false, kn), true, true); mat W(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), b);
  mat be; try { be = a.fit(); } catch (std::exception&) { bool reg = true; for (uword i = 0; i < n; i++) if (!(ref::det(ref::xtwx(X, W.col(i))) > 0)) reg = false; ok(!reg, "a regular system is solved"); return; }
  check(X, y, W, be, "normal equations with kernel weights");
}
SCENARIO(adaptive) {
  uword n = 4; int kn = sym_int("kernel", 0, 4); mat p = line(n), D = dist_line(p, p), X = design(n, 2); vec y = {1, 2, -1, 3}; double b = 4.5; if (kn < 2) { static const double R[4][2] = {{3.0625, 3.9375}, {4.0625, 10}, {3, 3}, {4, 4}}; int g = sym_int("range", 0, 3); b = g < 2 ? sym_real("b", R[g][0], R[g][1]) : R[g][0]; } else { static const double B[4] = {3.5, 4.0, 5.0, 9.5}; b = B[sym_int("bw", 0, 3)]; y = sym_vec("y", n, -100, 100); }
  GWRBasic a(X, y, p, crs_sw(b, true, kn), true, true); mat W(n, n); for (uword i = 0; i < n; i++) { vec s = arma::sort(D.col(i)); double h; if (b < 4) h = s(2) + (b - 3) * (s(3) - s(2)); else h = b / 4 * s(3); for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), h); }
  bool reg = true; if (kn >= 2) for (uword i = 0; i < n; i++) if (!(ref::det(ref::xtwx(X, W.col(i))) > 0)) reg = false;
  mat be; try { be = a.fit(); } catch (std::exception&) { ok(!reg, "a regular system is solved"); return; } ok(reg, "a singular system is refused"); check(X, y, W, be, "normal equations with adaptive weights");
}
// too little support: the fit is refused, not answered with numbers
SCENARIO(singular) {
  uword n = 4; mat X = design(n, 2), W = weights_fixed(n, n); int f = sym_int("focus", 0, 3), q = sym_int("one", 0, 3); for (uword i = 0; i < n; i++) W(i, f) = int(i) == q ? 0.5 : 0.0; vec y = sym_vec("y", n, -10, 10);
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); ok(throws([&] { a.fit(); }), "a local system without a unique solution is refused");
}
// exactly collinear regressors
SCENARIO(collinear) {
  uword n = 4; mat X(n, 2); double c = sym_int("c", 1, 3); for (uword i = 0; i < n; i++) { X(i, 0) = double(i + 1); X(i, 1) = c * X(i, 0); } vec y = sym_vec("y", n, -10, 10); GWRBasic a(X, y, coords2(n), table_sw(weights_fixed(n, n)), true, true); ok(throws([&] { a.fit(); }), "collinear regressors are refused");
}
// constant weights: ordinary least squares everywhere; scaling and permutation
SCENARIO(invariance) {
  uword n = 5; mat X = design(n, 2), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100); int mode = sym_int("mode", 0, 2); GWRBasic a(X, y, coords2(n), table_sw(W), true, true); mat b = a.fit();
  if (mode == 0) { GWRBasic c(X, y, coords2(n), table_sw(W * 4.0), true, true); eqm(c.fit(), b, "scaling all weights changes nothing"); }
  else if (mode == 1) { vec z = y + X * vec({2.0, -3.0}); GWRBasic c(X, z, coords2(n), table_sw(W), true, true); mat e = c.fit(); for (uword i = 0; i < n; i++) { eq(e(i, 0), b(i, 0) + 2.0, "adding a linear trend shifts the intercept"); eq(e(i, 1), b(i, 1) - 3.0, "adding a linear trend shifts the slope"); } }
  else { uvec o = {3, 0, 4, 1, 2}; mat V(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) V(i, j) = W(o(i), o(j)); GWRBasic c(X.rows(o), vec(y(o)), coords2(n), table_sw(V), true, true); eqm(c.fit(), b.rows(o), "the order of the observations does not matter"); }
}
// repeated and reconfigured use of one object
SCENARIO(reuse) {
  uword n = 5; mat X = design(n, 2), W = weights_fixed(n, n), V = W; V(1, 0) = 0.125; V(3, 2) = 0.875; vec y = sym_vec("y", n, -100, 100), z = sym_vec("z", n, -100, 100); GWRBasic a(X, y, coords2(n), table_sw(W), true, true); a.fit();
  int what = sym_int("what", 0, 3); mat X2 = X; if (what == 0) a.setDependentVariable(z); else if (what == 1) { X2 = design(n, 3); a.setIndependentVariables(X2); } else if (what == 2) { SpatialWeight s = table_sw(V); a.setSpatialWeight(s); }
  mat b = a.fit(); check(X2, what == 0 ? z : y, what == 2 ? V : W, b, "the second fit uses the current inputs");
}
