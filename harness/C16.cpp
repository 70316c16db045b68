// Geographically weighted summary statistics: averages, spread, shape and quantiles.
// OPTIONS: asan
// BOUNDS: 3..5 observations, 1..3 variables; all values of one variable symbolic, or all weights of one location symbolic; 8 to 30 observations with one symbolic
#include "ref.h"
using namespace gwm;
struct St { double mean, var, sd, skew, q[3]; };
static St stats(const vec& x, const vec& w) {
  uword n = x.n_elem; St s; double sw = 0; for (uword i = 0; i < n; i++) sw += w(i); s.mean = s.var = 0; double m3 = 0; for (uword i = 0; i < n; i++) s.mean += w(i) / sw * x(i);
  for (uword i = 0; i < n; i++) { double c = x(i) - s.mean; s.var += w(i) / sw * c * c; m3 += w(i) / sw * c * c * c; } s.sd = sqrt(s.var); s.skew = m3 / (s.var * s.sd); return s;
}
// largest value whose cumulated weight does not exceed p (the smallest value when there is none), ties between values excluded
static double quant(const vec& x, const vec& w, double p) { uword n = x.n_elem; double sw = 0; for (uword i = 0; i < n; i++) sw += w(i); double best = 0, low = x(0); bool any = false; for (uword i = 0; i < n; i++) { double c = 0; for (uword j = 0; j < n; j++) if (x(j) <= x(i)) c += w(j) / sw; if (x(i) < low) low = x(i); if (!(c > p) && (!any || x(i) > best)) { best = x(i); any = true; } } return any ? best : low; }
static void check(GWSS& a, const mat& X, const mat& W, const std::string& m = "") {
  uword r = W.n_cols, k = X.n_cols; if (!shape(a.localMean(), r, k, m + "means") || !shape(a.localVar(), r, k, m + "variances") || !shape(a.localSDev(), r, k, m + "deviations") || !shape(a.localSkewness(), r, k, m + "skewness") || !shape(a.localCV(), r, k, m + "variation")) return;
  for (uword i = 0; i < r; i++) for (uword j = 0; j < k; j++) { St s = stats(X.col(j), W.col(i)); eq(a.localMean()(i, j), s.mean, m + "local mean"); eq(a.localVar()(i, j), s.var, m + "local variance"); eq(a.localSDev()(i, j), s.sd, m + "local standard deviation"); eq(a.localSkewness()(i, j), s.skew, m + "local skewness"); eq(a.localCV()(i, j), s.sd / s.mean, m + "local coefficient of variation"); }
}
static mat vars(uword n, uword k) { mat X = design(n, 4); static const uword c[3] = {1, 2, 3}; mat Z(n, k); for (uword j = 0; j < k; j++) Z.col(j) = X.col(c[j]); return Z; }
SCENARIO(values) {
  uword n = 3 + sym_int("n", 0, 2), k = 1 + sym_int("variables", 0, 1); mat X = vars(n, k), W = weights_fixed(n, n); int z = sym_int("zero", 0, 1); if (z) { W(0, 1) = 0; W(2, 0) = 0; } X.col(k - 1) = sym_vec("x", n, -100, 100); GWSS a(X, coords2(n), table_sw(W)); a.run(); check(a, X, W); obs("m", a.localMean());
}
SCENARIO(weights) {
  uword n = 3 + sym_int("n", 0, 1); int f = sym_int("focus", 0, 2); mat X = vars(n, 2), W = weights_fixed(n, n); W.col(f) = sym_vec("w", n, 1e-3, 4); GWSS a(X, coords2(n), table_sw(W)); a.run(); check(a, X, W);
}
SCENARIO(kernels) {
  uword n = 5; int kn = sym_int("kernel", 0, 4), ad = sym_int("adaptive", 0, 1); mat p = line(n), X = vars(n, 2), D = dist_line(p, p); X(3, 0) = sym_real("x", -100, 100); mat W(n, n); double b = ad ? 4 : 12; for (uword i = 0; i < n; i++) { double h = b; if (ad) { vec s = arma::sort(D.col(i)); h = s(3); } for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), h); }
  GWSS a(X, p, crs_sw(b, ad, kn)); a.run(); check(a, X, W);
}
SCENARIO(quantiles) {
  uword n = 3 + sym_int("n", 0, 1), k = n == 4 ? 1 : 1 + sym_int("variables", 0, 1); mat X = vars(n, k), W = weights_fixed(n, n); X.col(k - 1) = sym_vec("x", n, -100, 100); for (uword i = 0; i < n; i++) for (uword j = 0; j < i; j++) { double d = X(i, k - 1) - X(j, k - 1); sym_assume(d > 1e-3 || d < -1e-3); } if (sym_int("spread", 0, 1)) for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) W(i, j) = 1 + double((i * 7 + j * 3) % 5) / 8;
  GWSS a(X, coords2(n), table_sw(W)); a.setQuantile(true); a.run(); check(a, X, W); if (!shape(a.localMedian(), n, k, "medians") || !shape(a.iqr(), n, k, "ranges") || !shape(a.qi(), n, k, "imbalances")) return;
  for (uword i = 0; i < n; i++) for (uword j = 0; j < k; j++) { double q1 = quant(X.col(j), W.col(i), 0.25), q2 = quant(X.col(j), W.col(i), 0.5), q3 = quant(X.col(j), W.col(i), 0.75); eq(a.localMedian()(i, j), q2, "local median"); eq(a.iqr()(i, j), q3 - q1, "local interquartile range"); if (q3 > q1) eq(a.qi()(i, j), (2 * q2 - q3 - q1) / (q3 - q1), "local quantile imbalance"); }
}
SCENARIO(quantile_weights) {
  uword n = 4; mat X = vars(n, 1), W(n, n, arma::fill::ones); int f = sym_int("focus", 0, 3), s = sym_int("who", 0, 3); W(s, f) = sym_real("w", 0.015625, 20); W((s + 1) % n, f) = sym_real("v", 0.015625, 20); GWSS a(X, coords2(n), table_sw(W)); a.setQuantile(true); a.run(); double sw = 0; for (uword i = 0; i < n; i++) sw += W(i, f);
  for (int q = 1; q <= 3; q++) for (uword i = 0; i < n; i++) { double c = 0; for (uword j = 0; j < n; j++) if (X(j, 0) <= X(i, 0)) c += W(j, f); double d = c / sw - 0.25 * q; sym_assume(d > 1e-4 || d < -1e-4); }
  eq(a.localMedian()(f, 0), quant(X.col(0), W.col(f), 0.5), "local median"); eq(a.iqr()(f, 0), quant(X.col(0), W.col(f), 0.75) - quant(X.col(0), W.col(f), 0.25), "local interquartile range");
}
SCENARIO(many) { uword n = 8 + 11 * sym_int("n", 0, 2); mat X(n, 2), W(n, n), p(n, 2); for (uword i = 0; i < n; i++) { X(i, 0) = double((i * 7) % 13) + 1; X(i, 1) = double((i * 5) % 11) - 3; p(i, 0) = double(i); p(i, 1) = 0; for (uword j = 0; j < n; j++) W(i, j) = 1.0 / (1.0 + double(i > j ? i - j : j - i)); } X(n / 2, 0) = sym_real("x", 1, 50); GWSS a(X, p, table_sw(W)); a.run(); check(a, X, W); }
// runs do not depend on earlier ones
SCENARIO(history) {
  uword n = 4; int first = sym_int("first", 0, 3), quant2 = sym_int("quantile", 0, 1); mat X = vars(n, 2), Y = vars(n, 3), W = weights_fixed(n, n), W2 = arma::fliplr(W); X(2, 0) = sym_real("x2", -10, 10); if (quant2) for (uword i = 0; i < n; i++) for (uword j = 0; j < i; j++) { double d = X(i, 0) - X(j, 0); sym_assume(d > 1e-3 || d < -1e-3); }
  GWSS a(first == 2 ? Y : X, coords2(n), table_sw(first == 3 ? W2 : W)); if (first == 0) a.setQuantile(!quant2); if (first == 1) a.setGWSSMode(GWSS::GWSSMode::Correlation); a.run(); a.setGWSSMode(GWSS::GWSSMode::Average); a.setQuantile(quant2); a.setVariables(X); a.setSpatialWeight(table_sw(W)); a.run(); check(a, X, W, "after another run: "); if (quant2) eq(a.localMedian()(1, 0), quant(X.col(0), W.col(1), 0.5), "after another run: local median"); a.run(); check(a, X, W, "run twice: ");
}
