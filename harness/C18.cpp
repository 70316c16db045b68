// Geographically weighted principal components.
// OPTIONS: asan
// BOUNDS: 3..5 observations, 2 variables with two symbolic values, a symbolic weight or a symbolic coordinate; 3 variables with fixed values; as few observations as variables
#include "ref.h"
using namespace gwm;
static void check(GWPCA& a, const mat& X, const mat& W, uword K, const std::string& m = "") {
  uword n = X.n_rows, k = X.n_cols; if (!shape(a.localPV(), n, K, m + "percentages") || !shape(a.sdev(), n, k, m + "deviations") || !ok2(a.loadings().n_rows == n && a.loadings().n_cols == k && a.loadings().n_slices == K, m + "loadings: shape")) return;
  for (uword i = 0; i < n; i++) { vec w = W.col(i); double sw = 0; for (uword q = 0; q < n; q++) sw += w(q); mat C(k, k); vec mu(k);
    for (uword p = 0; p < k; p++) { mu(p) = 0; for (uword q = 0; q < n; q++) mu(p) += w(q) * X(q, p) / sw; }
    for (uword p = 0; p < k; p++) for (uword r = 0; r < k; r++) { double s = 0; for (uword q = 0; q < n; q++) s += w(q) * (X(q, p) - mu(p)) * (X(q, r) - mu(r)); C(p, r) = s / sw; }
    double tr = 0, ts = 0; for (uword p = 0; p < k; p++) { tr += C(p, p); double s = a.sdev()(i, p); ts += s * s; le(0, s, m + "deviations are not negative"); if (p) { double b = a.sdev()(i, p - 1); le(s * s, b * b, m + "components are sorted"); } } eq(ts, tr, m + "component variances add up to the total variance");
    for (uword j = 0; j < K; j++) { double lam = a.sdev()(i, j); lam = lam * lam; eq(a.localPV()(i, j) * tr, 100 * lam, m + "percentage of variance");
      for (uword l = 0; l <= j; l++) { double s = 0; for (uword p = 0; p < k; p++) s += a.loadings()(i, p, j) * a.loadings()(i, p, l); eq(s, j == l, m + "loadings are orthonormal"); }
      for (uword p = 0; p < k; p++) { double s = 0; for (uword r = 0; r < k; r++) s += C(p, r) * a.loadings()(i, r, j); eq(s, lam * a.loadings()(i, p, j), m + "loadings are principal directions"); } } }
}
static mat vars(uword n, uword k) { mat X(n, k); static const double v[6][3] = {{2, -1, 0.5}, {-1, 3, 1}, {4, 1, -2}, {0.5, -2, 3}, {3, 2, 1.5}, {-2, 0.5, 2}}; for (uword i = 0; i < n; i++) for (uword j = 0; j < k; j++) X(i, j) = v[i][j]; return X; }
// weights and their sums are squares of rationals, so that their roots are exact
static mat wsq(uword n) { static const double q[4][6] = {{4, 4, 1}, {16, 4, 1, 4}, {9, 4, 1, 1, 1}, {4, 1, 0, 1, 1, 9}}; mat W(n, n); for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) W(i, j) = q[n - 3][(i + n - j) % n]; return W; }
SCENARIO(values) { sym_opt("ieee", 0); uword n = 3 + sym_int("n", 0, 1); int K = sym_int("components", 1, 2); mat X = vars(n, 2), W = wsq(n); for (uword i = 0; i < 2; i++) X(i + n - 3, 1) = sym_real(nm("x", i).c_str(), 1, 20); GWPCA a(X, coords2(n), table_sw(W)); a.setKeepComponents(K); a.run(); check(a, X, W, K); obs("p", a.localPV()); }
SCENARIO(weights) { uword n = 3 + sym_int("n", 0, 2); int f = sym_int("focus", 0, 2); mat X = vars(n, 2), W = wsq(n); W(sym_int("who", 0, 2), f) = sym_real("w", 0.0625, 4); GWPCA a(X, coords2(n), table_sw(W)); a.run(); check(a, X, W, 2); }
SCENARIO(boxcar) { sym_opt("ieee", 0); uword n = 5; mat p = line(n), X = vars(n, 2), W(n, n, arma::fill::zeros), D = dist_line(p, p); X(sym_int("row", 0, 4), 1) = sym_real("x", -20, 20); for (uword i = 0; i < n; i++) { vec s = arma::sort(D.col(i)); for (uword j = 0; j < n; j++) W(j, i) = D(j, i) < s(4) ? 1 : 0; } GWPCA a(X, p, crs_sw(5, true, 4)); a.run(); check(a, X, W, 2); }
SCENARIO(three) { uword n = 6; int K = sym_int("components", 1, 3), s = sym_int("shift", 0, 4); mat X = vars(n, 3), W = wsq(n); for (uword i = 0; i < n; i++) X(i, 1) += s * double(i); GWPCA a(X, coords2(n), table_sw(W)); a.setKeepComponents(K); a.run(); check(a, X, W, K); }
// fewer observations of positive weight than variables
SCENARIO(few) { sym_opt("ieee", 0); uword n = 5; int k = sym_int("variables", 2, 3), near = sym_int("near", 1, 3), f = sym_int("focus", 0, 4); mat X = vars(n, k), W = wsq(n); W.col(f).zeros(); for (int i = 0; i < near; i++) W((f + i) % n, f) = near == 2 ? 2 : 4; if (k == 2) X((f + 1) % n, 1) = sym_real("x", 1, 20); GWPCA a(X, coords2(n), table_sw(W)); a.setKeepComponents(k == 2 || near == 3 ? 2 : 1); bool t = throws([&] { a.run(); }); ok(!t, "a location with few neighbours has principal components"); if (t) return;
  double sw = 0; vec mu(k); for (uword q = 0; q < n; q++) sw += W(q, f); for (int j = 0; j < k; j++) { mu(j) = 0; for (uword q = 0; q < n; q++) mu(j) += W(q, f) * X(q, j) / sw; } double tr = 0, ts = 0; for (int j = 0; j < k; j++) { for (uword q = 0; q < n; q++) tr += W(q, f) * (X(q, j) - mu(j)) * (X(q, j) - mu(j)) / sw; double s = a.sdev()(f, j); ts += s * s; if (j >= near) le(s, 1e-6, "no more components than neighbours"); } eq(ts, tr, "component variances add up to the total variance"); }
SCENARIO(history) { sym_opt("ieee", 0); uword n = 4; int what = sym_int("what", 0, 3), K = sym_int("components", 1, 2); mat X = vars(n, 2), Y = vars(n, 3), W = wsq(n), V = arma::fliplr(W); X(2, 0) = sym_real("x", 5, 10); GWPCA a(what == 1 ? Y : X, coords2(n), table_sw(what == 2 ? V : W)); a.setKeepComponents(what == 0 ? 3 - K : K); a.run(); if (what == 3) a.run(); a.setKeepComponents(K); a.setVariables(X); a.setSpatialWeight(table_sw(W)); a.run(); check(a, X, W, K, "after another run: "); }
