// Coefficients predicted at new locations.
// BOUNDS: 4..5 observations, 1..3 prediction points, one coordinate of one prediction point symbolic; all kernels (fixed) with symbolic responses, Gaussian/exponential with symbolic location
#include "ref.h"
using namespace gwm;
static void check(const mat& X, const vec& y, const mat& W, const mat& b, const char* m) { if (!shape(b, W.n_cols, X.n_cols, "coefficients")) return; for (uword i = 0; i < W.n_cols; i++) normal_eq(X, y, W.col(i), b.row(i).t(), m); }
static mat kern(const mat& D, int kn, double b, bool ad) { uword n = D.n_rows; mat W(n, D.n_cols); for (uword i = 0; i < D.n_cols; i++) { double h = b; if (ad) { vec s = arma::sort(D.col(i)); h = b <= n ? s(uword(b) - 1) : b / n * s(n - 1); } for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), h); } return W; }
SCENARIO(location) {
  uword n = 4; int kn = sym_int("kernel", 0, 1), m = sym_int("points", 1, 2); mat p = line(n), X = design(n, 2), q(m, 2, arma::fill::zeros); vec y = {1, 2, -1, 3}; double x = sym_real("x", -20, 30); q(m - 1, 0) = x; if (m > 1) q(0, 0) = 5;
  GWRBasic a(X, y, p, crs_sw(6.0, false, kn), true, true); mat b = a.predict(q); check(X, y, kern(dist_line(q, p), kn, 6.0, false), b, "local weighted normal equations at the new location"); eqm(a.betas(), b, "stored coefficients");
}
SCENARIO(responses) {
  uword n = 5; int kn = sym_int("kernel", 0, 4), ad = sym_int("adaptive", 0, 1); mat p = line(n), X = design(n, 2), q = {{1.0, 0.0}, {10.0, 0.0}, {6.0, 0.0}}; vec y = sym_vec("y", n, -50, 50); double b = ad ? 5 : 18; if (ad) { q = {{1.0, 0.0}, {-3.0, 0.0}}; b = 6; }
  GWRBasic a(X, y, p, crs_sw(b, ad, kn), true, true); int fitted = sym_int("fit_first", 0, 1); if (fitted) a.fit(); mat be = a.predict(q); check(X, y, kern(dist_line(q, p), kn, b, ad), be, "local weighted normal equations at the new location"); obs("b", be);
}
SCENARIO(minkowski) {
  uword n = 4; mat p = {{0.0, 0.0}, {3.0, 1.0}, {4.0, -2.0}, {9.0, 5.0}}, q = {{1.0, 2.0}, {5.0, 5.0}}, X = design(n, 2), D(n, 2); vec y = sym_vec("y", n, -50, 50); for (uword i = 0; i < 2; i++) for (uword j = 0; j < n; j++) { double u = q(i, 0) - p(j, 0), v = q(i, 1) - p(j, 1); D(j, i) = (u < 0 ? -u : u) + (v < 0 ? -v : v); }
  MinkwoskiDistance d(1.0, 0.0); BandwidthWeight w(20.0, false, BandwidthWeight::Bisquare); SpatialWeight s(&w, &d); GWRBasic a(X, y, p, s, true, true); check(X, y, kern(D, 2, 20.0, false), a.predict(q), "Manhattan distances to the new locations");
}
// predicting where the data are gives the fitted coefficients; the order of the new points does not matter; a fit after a prediction is a fit
SCENARIO(consistency) {
  uword n = 5; int mode = sym_int("mode", 0, 5); mat p = line(n), X = design(n, 2), q = {{1.0, 0.0}, {10.0, 0.0}}; vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, p, crs_sw(18.0, false, 2), true, true); mat b = a.fit();
  if (mode == 0) eqm(a.predict(p), b, "prediction at the data points equals the fit"); else if (mode == 1) { a.predict(q); eqm(a.fit(), b, "a fit after a prediction"); } else if (mode == 2) { mat u = a.predict(q), v = a.predict(arma::flipud(q)); eqm(v, arma::flipud(u), "the order of the new points does not matter"); } else { mat u = a.predict(q); GWRBasic c(X, y, p, crs_sw(18.0, false, 2), true, true); eqm(c.predict(q), u, "prediction does not need a fit"); mat w = a.predict(q); if (mode == 4) { q(0, 0) = 6.0; GWRBasic e(X, y, p, crs_sw(18.0, false, 2), true, true); eqm(a.predict(q), e.predict(q), "new contents of the same matrix"); } if (mode == 5) { int what = sym_int("what", 0, 2); vec z = sym_vec("z", n, -50, 50); mat X2 = design(n, 3); GWRBasic e(what == 1 ? X2 : X, what == 0 ? z : y, p, crs_sw(what == 2 ? 20.0 : 18.0, false, 2), true, true); if (what == 0) a.setDependentVariable(z); else if (what == 1) a.setIndependentVariables(X2); else a.setSpatialWeight(crs_sw(20.0, false, 2)); eqm(a.predict(q), e.predict(q), "prediction uses the current inputs"); } eqm(w, u, "repeated prediction"); }
}
SCENARIO(singular) { uword n = 4; mat p = line(n), X = design(n, 2), q(1, 2, arma::fill::zeros); q(0, 0) = sym_real("x", 30, 60); vec y = {1, 2, -1, 3}; GWRBasic a(X, y, p, crs_sw(5.0, false, 2), true, true); ok(throws([&] { a.predict(q); }), "a location without neighbours is refused"); }
