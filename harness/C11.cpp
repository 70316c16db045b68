// Bandwidth and variable selection criteria of geographically weighted regression.
// BOUNDS: 4..5 observations, 2..3 variables; one distance to any focus symbolic (Gaussian, exponential), symbolic responses (every kernel, several bandwidths)
#include "ref.h"
using namespace gwm;
static mat kern(const mat& D, int kn, double b, bool ad) { uword n = D.n_rows; mat W(n, D.n_cols); for (uword i = 0; i < D.n_cols; i++) { double h = b; if (ad) { vec s = arma::sort(D.col(i)); h = b <= n ? s(uword(b) - 1) : b / n * s(n - 1); } for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), h); } return W; }
static double cv_ref(const mat& X, const vec& y, mat W, bool& reg) { uword n = X.n_rows; double s = 0; for (uword i = 0; i < n; i++) { vec w = W.col(i); w(i) = 0; if (!(ref::det(ref::xtwx(X, w)) > 0)) { reg = false; return 0; } vec b = ref::wls(X, y, w); double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(p); s += (y(i) - f) * (y(i) - f); } return s; }
static double aic_ref(const mat& X, const vec& y, const mat& W, bool& reg) { for (uword i = 0; i < X.n_rows; i++) if (!(ref::det(ref::xtwx(X, W.col(i))) > 0)) { reg = false; return 0; } ref::Gwr g = ref::gwr(X, y, W); return ref::aicc(double(X.n_rows), g.rss, g.trS); }
static double crit(GWRBasic& a, int cv, BandwidthWeight& w) { a.setBandwidthSelectionCriterion(cv ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC); double c = -1; ok(a.getCriterion(&w, c) == Status::Success, "status"); return c; }
static void compare(double c, int cv, const mat& X, const vec& y, const mat& W) { bool reg = true; double r = cv ? cv_ref(X, y, W, reg) : aic_ref(X, y, W, reg); if (!reg) { ok(c == DBL_MAX, "a bandwidth without a unique local solution is rejected"); return; } eq(c, r, cv ? "leave-one-out cross-validation score" : "AICc of the hat matrix"); }
SCENARIO(distances) {
  uword n = 5; int cv = sym_int("cv", 0, 1), kn = sym_int("kernel", 0, 1), f = sym_int("focus", 0, 4); mat X = design(n, 2), p = line(n), D = dist_line(p, p); D((f + 1) % n, f) = sym_real("d", 1, 30); vec y = {1, 2, -1, 3, 5};
  GWRBasic a(X, y, p, bw_sw(D, 3.0, false, kn), true, true); BandwidthWeight w(8.0, false, BandwidthWeight::KernelFunctionType(kn)); compare(crit(a, cv, w), cv, X, y, kern(D, kn, 8.0, false));
}
SCENARIO(own_weight) {
  uword n = 5; mat X = design(n, 2), p = line(n), D = dist_line(p, p); int f = sym_int("focus", 0, 4); vec y = {1, 2, -1, 3, 5}; GWRBasic a(X, y, p, bw_sw(D, 3.0, false, 0), true, true); BandwidthWeight w(8.0, false, BandwidthWeight::Gaussian); double c = crit(a, 1, w);
  mat E = D; E(f, f) = sym_real("d", 0, 30); GWRBasic q(X, y, p, bw_sw(E, 3.0, false, 0), true, true); eq(crit(q, 1, w), c, "the left-out observation has no influence on its own score");
}
SCENARIO(responses) {
  uword n = 5, k = 2 + sym_int("k", 0, 1); int cv = sym_int("cv", 0, 1), kn = sym_int("kernel", 0, 4), bi = sym_int("bw", 0, 2); static const double B[3] = {7, 20, 40}; mat X = design(n, k), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50);
  GWRBasic a(X, y, p, crs_sw(2.0, false, 0), true, true); a.setSpatialWeight(bw_sw(D, 2.0, false, 0)); BandwidthWeight w(B[bi], false, BandwidthWeight::KernelFunctionType(kn)); mat W = kern(D, kn, B[bi], false);
  if (k == 3 && !cv) { bool reg = true; aic_ref(X, vec(n, arma::fill::ones), W, reg); if (reg) { ref::Gwr g = ref::gwr(X, vec(n, arma::fill::ones), W); if (!(double(n) - 2 - g.trS > 0.01) && !(double(n) - 2 - g.trS < -0.01)) return; } } compare(crit(a, cv, w), cv, X, y, W);
}
SCENARIO(adaptive) {
  uword n = 5; int cv = sym_int("cv", 0, 1), kn = sym_int("kernel", 0, 4); double b = sym_int("bw", 4, 8); mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50);
  GWRBasic a(X, y, p, bw_sw(D, 3.0, true, 0), true, true); BandwidthWeight w(b, true, BandwidthWeight::KernelFunctionType(kn)); compare(crit(a, cv, w), cv, X, y, kern(D, kn, b, true));
}
// the criterion does not depend on the bandwidth the object happens to have, nor change it; order of evaluation does not matter
SCENARIO(pure) {
  uword n = 5; int cv = sym_int("cv", 0, 1); mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, p, bw_sw(D, 3.0, false, 0), true, true); BandwidthWeight w(8.0, false, BandwidthWeight::Bisquare), v(25.0, false, BandwidthWeight::Gaussian);
  double c0 = crit(a, cv, v), c1 = crit(a, cv, w); (void)c1; double c2 = crit(a, cv, v); eq(c2, c0, "the same bandwidth scores the same again"); eq(a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), 3.0, "scoring does not change the model's bandwidth"); eq(v.bandwidth(), 25.0, "scoring does not change the candidate");
}
SCENARIO(unset) { uword n = 5; int par = sym_int("par", 0, 1); mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, p, bw_sw(D, 3.0, false, 0), true, true); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } BandwidthWeight w(25.0, false, BandwidthWeight::Bisquare); int cv = a.bandwidthSelectionCriterion() == GWRBasic::BandwidthSelectionCriterionType::CV; double c = -1; a.getCriterion(&w, c); compare(c, cv, X, y, kern(D, 2, 25.0, false)); }
// variable sets: AICc of the global limit (equal weights), intercept always included when the model has one
SCENARIO(variables) {
  uword n = 6; int ic = sym_int("intercept", 0, 1), ad = sym_int("adaptive", 0, 1), set = sym_int("set", 0, 5); mat X = design(n, 4), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50); static const std::vector<size_t> S[6] = {{1}, {2}, {3}, {2, 1}, {1, 3}, {1, 2}};
  GWRBasic a(X, y, p, bw_sw(D, 3.0, ad, ad ? 4 : 0), true, ic); double c = -1; ok(a.getCriterion(S[set], c) == Status::Success, "status"); std::vector<uword> cols; if (ic) cols.push_back(0); for (size_t v : S[set]) cols.push_back(v); mat x(n, cols.size()); for (uword j = 0; j < cols.size(); j++) x.col(j) = X.col(cols[j]);
  mat W(n, n, arma::fill::ones); ref::Gwr g = ref::gwr(x, y, W); eq(c, ref::aicc(double(n), g.rss, g.trS), "AICc of the variable set"); eq(a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), 3.0, "scoring does not change the model's bandwidth");
}
SCENARIO(variables_failure) { uword n = 5; mat X = design(n, 3); for (uword i = 0; i < n; i++) X(i, 2) = 2 * X(i, 1); mat p = line(n); vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, p, bw_sw(dist_line(p, p), 3.0, false, 0), true, true); double c = -1; a.getCriterion(std::vector<size_t>{1, 2}, c); ok(c == DBL_MAX, "a collinear variable set is rejected"); }
