// Geographically weighted covariances and correlations.
// OPTIONS: asan
// BOUNDS: 3..5 observations, 2..4 variables; all values of one variable symbolic, or all weights of one location symbolic
#include "ref.h"
using namespace gwm;
static double wcov(const vec& x, const vec& y, const vec& w) { uword n = x.n_elem; double sw = 0, mx = 0, my = 0, c = 0, s2 = 0; for (uword i = 0; i < n; i++) sw += w(i); for (uword i = 0; i < n; i++) { mx += w(i) / sw * x(i); my += w(i) / sw * y(i); s2 += w(i) / sw * (w(i) / sw); } for (uword i = 0; i < n; i++) c += w(i) / sw * (x(i) - mx) * (y(i) - my); return c / (1 - s2); }
static vec ranks(const vec& x) { vec r(x.n_elem); for (uword i = 0; i < x.n_elem; i++) { r(i) = 1; for (uword j = 0; j < x.n_elem; j++) if (x(j) < x(i)) r(i) += 1; } return r; }
static void corr(double r, double c, double vx, double vy, const std::string& m) { if (sym_same(r, c / sqrt(vx * vy))) { eq(r, c / sqrt(vx * vy), m); return; } eq(r * r * vx * vy, c * c, m); ok(r * c >= 0 || r * c > -1e-9, m + ": sign"); }
static void check(GWSS& a, const mat& X, const mat& W, bool first, const std::string& m = "") {
  uword r = W.n_cols, k = X.n_cols, nc = first ? k - 1 : k * (k - 1) / 2; if (!shape(a.localCov(), r, nc, m + "covariances") || !shape(a.localCorr(), r, nc, m + "correlations") || !shape(a.localSCorr(), r, nc, m + "rank correlations") || !shape(a.localVar(), r, k, m + "variances") || !shape(a.localMean(), r, k, m + "means")) return;
  mat R(X.n_rows, k); for (uword j = 0; j < k; j++) R.col(j) = ranks(X.col(j));
  for (uword i = 0; i < r; i++) { uword t = 0; vec w = W.col(i); double sw = 0, s2 = 0; for (uword q = 0; q < w.n_elem; q++) sw += w(q); for (uword q = 0; q < w.n_elem; q++) s2 += w(q) * w(q) / sw / sw;
    for (uword j = 0; j < k; j++) { double mu = 0; for (uword q = 0; q < w.n_elem; q++) mu += w(q) * X(q, j) / sw; eq(a.localMean()(i, j), mu, m + "local mean"); eq(a.localVar()(i, j), wcov(X.col(j), X.col(j), w) * (1 - s2), m + "local variance"); }
    for (uword j = 0; j < (first ? 1 : k - 1); j++) for (uword l = j + 1; l < k; l++, t++) { double c = wcov(X.col(j), X.col(l), w); eq(a.localCov()(i, t), c, m + "local covariance"); corr(a.localCorr()(i, t), c, wcov(X.col(j), X.col(j), w), wcov(X.col(l), X.col(l), w), m + "local correlation"); corr(a.localSCorr()(i, t), wcov(R.col(j), R.col(l), w), wcov(R.col(j), R.col(j), w), wcov(R.col(l), R.col(l), w), m + "local rank correlation"); } }
}
static mat vars(uword n, uword k) { mat X(n, k); static const double v[6][4] = {{2, -1, 0.5, 7}, {-1, 3, 1, 2}, {4, 1, -2, 5}, {0.5, -2, 3, 1}, {3, 2, 1.5, -4}, {-2, 0.5, 2, 3}}; for (uword i = 0; i < n; i++) for (uword j = 0; j < k; j++) X(i, j) = v[i][j]; return X; }
// weights whose shares are squares of rationals, so that their roots are exact
static mat wsq(uword n) { static const double q[3][5] = {{4, 4, 1, 0, 0}, {16, 4, 1, 4, 0}, {9, 4, 1, 1, 1}}; mat W(n, n); for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) W(i, j) = q[n - 3][(i + n - j) % n]; return W; }
static void distinct(const vec& x) { for (uword i = 0; i < x.n_elem; i++) for (uword j = 0; j < i; j++) { double d = x(i) - x(j); sym_assume(d > 1e-3 || d < -1e-3); } }
static void run(GWSS& a, bool first) { a.setGWSSMode(GWSS::GWSSMode::Correlation); a.setIsCorrWithFirstOnly(first); a.run(); }
SCENARIO(values) { uword n = 3, k = 2 + sym_int("variables", 0, 1); int first = sym_int("first", 0, 1), z = sym_int("which", 0, 1); mat X = vars(n, k), W = wsq(n); X.col(z ? k - 1 : 0) = sym_vec("x", n, -20, 20); distinct(X.col(z ? k - 1 : 0)); GWSS a(X, coords2(n), table_sw(W)); run(a, first); check(a, X, W, first); obs("c", a.localCov()); }
SCENARIO(value) { uword n = 5, k = 2 + sym_int("variables", 0, 2); int first = sym_int("first", 0, 1); mat X = vars(n, k), W = wsq(n); if (sym_int("zero", 0, 1)) { W.zeros(); for (uword j = 0; j < n; j++) { W(j, j) = 16; W((j + 1) % n, j) = 4; W((j + 2) % n, j) = 1; W((j + 3) % n, j) = 4; } } uword r = sym_int("row", 0, 1) ? 4 : 1; double x = sym_real("x", -20, 20); X(r, k - 1) = x; distinct(X.col(k - 1)); GWSS a(X, coords2(n), table_sw(W)); run(a, first); check(a, X, W, first); }
SCENARIO(weights) { uword n = 3 + sym_int("n", 0, 1), k = 2 + sym_int("variables", 0, 1); int f = sym_int("focus", 0, 2), first = sym_int("first", 0, 1); mat X = vars(n, k), W = wsq(n); W(sym_int("who", 0, 2), f) = sym_real("w", 0.0625, 4); GWSS a(X, coords2(n), table_sw(W)); run(a, first); check(a, X, W, first); }
SCENARIO(kernels) { uword n = 5; int kn = sym_int("kernel", 0, 4); mat p = line(n), X = vars(n, 2), W(n, n), D = dist_line(p, p); X(3, 0) = sym_real("x", 5, 100); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), 12); GWSS a(X, p, crs_sw(12, false, kn)); run(a, false); check(a, X, W, false); }
SCENARIO(few) { uword n = 4; mat X = vars(n, 1); GWSS a(X, coords2(n), table_sw(wsq(n))); a.setGWSSMode(GWSS::GWSSMode::Correlation); int par = sym_int("par", 0, 1); if (par) a.setParallelType(ParallelType::OpenMP); ok(throws([&] { a.run(); }), "one variable has no correlations"); }
SCENARIO(history) { uword n = 4; int what = sym_int("what", 0, 4), first = sym_int("first", 0, 1); mat X = vars(n, 3), Y = vars(n, 4), W = wsq(n); X(2, 0) = sym_real("x", 5, 10); GWSS a(what == 2 ? Y : X, coords2(n), table_sw(what == 3 ? mat(arma::fliplr(W)) : W)); if (what == 0) { a.setQuantile(true); a.run(); } else if (what == 1) run(a, !first); else run(a, first); a.setVariables(X); a.setSpatialWeight(table_sw(W)); a.setQuantile(false); run(a, first); check(a, X, W, first, "after another run: "); if (what == 4) { a.setGWSSMode(GWSS::GWSSMode::Average); a.run(); run(a, first); check(a, X, W, first, "after averages: "); } }
