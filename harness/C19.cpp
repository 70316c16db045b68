// Robust GWR: filtering and iterated down-weighting of outliers.
// OPTIONS: race
// BOUNDS: 4..12 observations, 1..2 variables; one symbolic response (any size), all responses of small samples, symbolic shifts along the regressors and symbolic scale with down-weighting iterations
#include "ref.h"
using namespace gwm;
static void robust(GWRRobust& a, const mat& X, const vec& y, const mat& W, bool filtered, int par = 0) { a.setCoords(coords2(X.n_rows)); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(table_sw(W)); a.setFiltered(filtered); a.setStoreS(true); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
static mat masked(const mat& W, const vec& m) { mat V = W; for (uword j = 0; j < W.n_cols; j++) for (uword i = 0; i < W.n_rows; i++) V(i, j) = W(i, j) * m(i); return V; }
static vec resid(const mat& X, const vec& y, const mat& b) { vec r(X.n_rows); for (uword i = 0; i < X.n_rows; i++) { double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(i, p); r(i) = y(i) - f; } return r; }
static void near(double a, double b, double u, const char* m) { double d = a - b; ok(d <= 1e-6 * u, m); ok(d >= -1e-6 * u, m); }
// the weights of the final fit
static vec filter_mask(const mat& X, const vec& y, const mat& W) { uword n = X.n_rows; ref::Gwr g = ref::gwr(X, y, W); vec r = resid(X, y, g.beta), m(n); double s2 = g.rss / (double(n) - 2 * g.trS + g.trStS); for (uword i = 0; i < n; i++) m(i) = r(i) * r(i) > 9 * s2 * g.q(i) ? 0 : 1; return m; }
static vec huber(const vec& r) { uword n = r.n_elem; vec m(n); double s = 0; for (uword i = 0; i < n; i++) s += r(i) * r(i); s /= double(n); if (s == 0) { m.ones(); return m; } double q = sqrt(s); for (uword i = 0; i < n; i++) { double u = (r(i) < 0 ? -r(i) : r(i)) / q; if (!(u > 2)) m(i) = 1; else if (u < 3) { double f = u - 2; m(i) = (1 - f * f) * (1 - f * f); } else m(i) = 0; } return m; }
static vec iterate(const mat& X, const vec& y, const mat& W, int* rounds = nullptr) {
  uword n = X.n_rows; vec m(n, arma::fill::ones), used = m; double old = 0; for (int it = 0; it <= 20; it++) { used = m; mat V = masked(W, m); mat b(n, X.n_cols); for (uword i = 0; i < n; i++) b.row(i) = ref::wls(X, y, V.col(i)).t(); vec r = resid(X, y, b); double s = 0; for (uword i = 0; i < n; i++) s += r(i) * r(i); s /= double(n); m = huber(r); if (rounds) *rounds = it; if (it > 0) { double d = old - s; if (d < 0) d = -d; if (!(d > 1e-5 * s)) break; } old = s; } return used;
}
static void check(GWRRobust& a, const mat& b, const mat& X, const vec& y, const mat& W, const vec& m, const std::string& t = "") {
  uword n = X.n_rows, k = X.n_cols; mat V = masked(W, m); ref::Gwr g = ref::gwr(X, y, V); if (!shape(b, n, k, t + "coefficients") || !shape(a.betasSE(), n, k, t + "standard errors") || !shape(a.s(), n, n, t + "hat matrix")) return;
  eqm(b, g.beta, t + "coefficients use the robust weights"); eqm(a.betas(), b, t + "stored coefficients"); eqm(a.s(), g.S, t + "hat matrix uses the robust weights"); double s2 = g.rss / (double(n) - 2 * g.trS + g.trStS); for (uword i = 0; i < n; i++) for (uword p = 0; p < k; p++) eq(a.betasSE()(i, p) * a.betasSE()(i, p), s2 * g.se2(i, p), t + "standard errors"); ref::diag(a.diagnostic(), double(n), g.rss, g.yss, g.trS, g.trStS, t);
}
static mat near_equal(uword n) { mat W(n, n); for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) W(i, j) = i == j ? 1.0 : ((i + 2 * j) % 3 ? 0.75 : 0.5); return W; }
static vec base_y(uword n) { static const double v[12] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75, 3.5, 1.25, 2.75, 0.25}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static mat regressors(uword n, uword k) { mat X(n, k, arma::fill::ones); if (k > 1) for (uword i = 0; i < n; i++) X(i, 1) = double((i * 5) % 7) - 3; return X; }
// residuals of four observations never exceed twice their root mean square: nothing is down-weighted
SCENARIO(small) { uword n = 4, k = 1 + sym_int("variables", 0, 1); mat X = regressors(n, k), W = near_equal(n); vec y = base_y(n); y(1) = sym_real("y", -100, 100); if (k == 1) y(3) = sym_real("z", -100, 100); GWRRobust a; robust(a, X, y, W, false); mat b = a.fit(); check(a, b, X, y, W, vec(n, arma::fill::ones), "small sample: "); obs("b", b); }
SCENARIO(filtered) { uword n = 12, k = 1 + sym_int("variables", 0, 1); mat X = regressors(n, k), W = near_equal(n); vec y = base_y(n); y(sym_int("who", 0, 2) * 3) = sym_real("y", -200, 200); vec m = filter_mask(X, y, W); GWRRobust a; robust(a, X, y, W, true); mat b = a.fit(); check(a, b, X, y, W, m, "filtered: "); }
SCENARIO(outlier) { uword n = 12, k = 1 + sym_int("variables", 0, 1); mat X = regressors(n, k), W = near_equal(n); vec y = base_y(n); uword o = sym_int("who", 0, 1) * 7 + 2; int neg = sym_int("negative", 0, 1); y(o) = neg ? sym_real("y", -1e4, -100) : sym_real("y", 100, 1e4); vec m(n, arma::fill::ones); m(o) = 0; GWRRobust a; robust(a, X, y, W, false); mat b = a.fit(); check(a, b, X, y, W, m, "gross outlier: "); }
SCENARIO(shift) { sym_opt("round", 1); uword n = 10; int lev = sym_int("level", 0, 5), who = sym_int("who", 0, 1) * 6 + 1; static const double L[6] = {4, 6, 7, 8.5, -3, -6}; mat X = regressors(n, 2), W = near_equal(n); vec y0 = base_y(n), y = y0; y0(who) = L[lev]; vec m = iterate(X, y0, W), g = sym_vec("shift", 2, -50, 50); for (uword i = 0; i < n; i++) y(i) = y0(i) + X(i, 0) * g(0) + X(i, 1) * g(1);
  GWRRobust a; robust(a, X, y, W, false, sym_int("par", 0, 1)); mat b = a.fit(), V = masked(W, m); if (!shape(b, n, 2, "coefficients")) return; for (uword i = 0; i < n; i++) { vec r = ref::wls(X, y0, V.col(i)); for (uword p = 0; p < 2; p++) near(b(i, p), r(p) + g(p), 1, "iterated: coefficients use the robust weights and move with the response"); } near(a.diagnostic().RSS, ref::gwr(X, y0, V).rss, 1, "iterated: residual sum of squares"); near(a.diagnostic().ENP, 2 * ref::gwr(X, y0, V).trS - ref::gwr(X, y0, V).trStS, 1, "iterated: effective parameters"); }
SCENARIO(scale) { sym_opt("round", 1); uword n = 10; int lev = sym_int("level", 0, 3); static const double L[4] = {6, 7, 8.5, -6}; mat X = regressors(n, 2), W = near_equal(n); vec y0 = base_y(n); y0(4) = L[lev]; double c = sym_real("scale", 0.125, 64); vec y(n); for (uword i = 0; i < n; i++) y(i) = y0(i) * c; vec m = iterate(X, y0, W); GWRRobust a; robust(a, X, y, W, false); mat b = a.fit(), V = masked(W, m); for (uword i = 0; i < n; i++) { vec r = ref::wls(X, y0, V.col(i)); for (uword p = 0; p < 2; p++) near(b(i, p), r(p) * c, c, "iterated: coefficients scale with the response"); } }
SCENARIO(exact) { uword n = 5; int f = sym_int("filtered", 0, 1); mat X = regressors(n, 2), W = near_equal(n); vec g = sym_vec("beta", 2, -10, 10), y(n); for (uword i = 0; i < n; i++) y(i) = X(i, 0) * g(0) + X(i, 1) * g(1); GWRRobust a; robust(a, X, y, W, f); mat b; bool t = throws([&] { b = a.fit(); }); ok(!t, "a response without residuals is fitted"); if (!t) for (uword i = 0; i < n; i++) for (uword p = 0; p < 2; p++) eq(b(i, p), g(p), "a response without residuals is fitted"); }
// threads, schedules, races
SCENARIO(threads) { uword n = 4; int f = sym_int("filtered", 0, 1), st = sym_int("store", 0, 1); mat X = regressors(n, 2), W = near_equal(n); vec y = base_y(n); y(1) = sym_real("y", -2, 2); par_omp_mode(1, 1, 2); par_race_enable(1); GWRRobust a; robust(a, X, y, W, f, 1); a.setStoreS(st); a.setHasHatMatrix(st); mat b = a.fit(); ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); GWRRobust s; robust(s, X, y, W, f); mat c = s.fit(); eqm(b, c, "threads: coefficients"); eqm(a.betasSE(), s.betasSE(), "threads: standard errors"); eq(a.diagnostic().AICc, s.diagnostic().AICc, "threads: AICc"); eq(a.diagnostic().ENP, s.diagnostic().ENP, "threads: effective parameters"); if (st) eqm(a.s(), s.s(), "threads: hat matrix"); }
SCENARIO(singular) { uword n = 4; int f = sym_int("filtered", 0, 1), p = sym_int("par", 0, 1); mat X = regressors(n, 2), W = near_equal(n); W.col(2).zeros(); W(1, 2) = 1; vec y = base_y(n); y(1) = sym_real("y", -2, 2); GWRRobust a; robust(a, X, y, W, f, p); ok(throws([&] { a.fit(); }), "a location without unique solution is refused"); }
SCENARIO(history) { uword n = 12; int first = sym_int("first", 0, 2); mat X = regressors(n, 2), W = near_equal(n); vec y = base_y(n), z = y; z(2) = 30; y(5) = -70; y(3) = sym_real("y", 0, 3); GWRRobust a; robust(a, X, first == 2 ? y : z, first == 1 ? mat(W.t()) : W, first != 0); a.fit(); a.setFiltered(true); a.setDependentVariable(y); a.setSpatialWeight(table_sw(W)); mat b = a.fit(); check(a, b, X, y, W, filter_mask(X, y, W), "second fit: "); }
SCENARIO(selection) { uword n = 8; mat p = line(n), X = regressors(n, 2); vec y = base_y(n); y(2) = sym_real("y", 1, 1.25); GWRRobust a; a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setFiltered(sym_int("filtered", 0, 1)); a.setSpatialWeight(crs_sw(6, true, 2)); a.setIsAutoselectBandwidth(true); a.setGoldenLowerBounds(6); a.setGoldenUpperBounds(8); a.setBandwidthSelectionCriterion(GWRBasic::BandwidthSelectionCriterionType::CV); a.fit(); double bw = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); ok(bw >= 6 && bw <= 8, "the selected bandwidth lies within the given bounds"); }
