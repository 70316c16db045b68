// Locally compensated ridge regression.
// OPTIONS: race
// BOUNDS: 5 observations, 2..3 variables; all responses symbolic, ridge term symbolic in [0,8], concrete weights; collinearity measures at 2..3 variables
#include "ref.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
using namespace gwm;
typedef GWRLocalCollinearity Lcr;
static mat design2(uword k) { static const double v[5][3] = {{1, -2, 3}, {1, -2, -5}, {1, 2, 1}, {1, 2, 1}, {1, 0, 0}}; mat X(5, k); for (uword i = 0; i < 5; i++) for (uword j = 0; j < k; j++) X(i, j) = v[i][j]; return X; }
static const double SD[3] = {1, 2, 3};
static mat wts(uword n, uword r, int s = 0) { static const double q[4] = {0.25, 1, 0.0625, 0.5625}; mat w(n, r); for (uword j = 0; j < r; j++) for (uword i = 0; i < n; i++) w(i, j) = i == j ? 1.0 : q[(i * 3 + j * 2 + s) % 4]; return w; }
static vec ys(uword n) { static const double v[8] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
// minimiser of  sum_i w_i (y_i - x_i b)^2 + lambda sum_k (sd_k b_k)^2
static vec ridge(const mat& X, const vec& y, const vec& w, double lam, const vec& sd) { mat a = ref::xtwx(X, w); uword k = X.n_cols; for (uword p = 0; p < k; p++) a(p, p) += lam * sd(p) * sd(p); vec b(k); for (uword p = 0; p < k; p++) { double s = 0; for (uword i = 0; i < X.n_rows; i++) s += X(i, p) * w(i) * y(i); b(p) = s; } return ref::mv(ref::inv(a), b); }
static vec sds(const mat& X) { vec s(X.n_cols); s(0) = 1; for (uword p = 1; p < X.n_cols; p++) s(p) = arma::stddev(X.col(p)); return s; }
static vec sds(uword k) { vec s(k); for (uword p = 0; p < k; p++) s(p) = SD[p]; return s; }
static void make(Lcr& a, const mat& X, const vec& y, const mat& c, const SpatialWeight& s, double lam, int par = 0) { a.setCoords(c); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(s); a.setLambda(lam); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
static void diag(Lcr& a, const mat& X, const vec& y, const mat& b, double trS, double trStS, const std::string& t = "") { double n = X.n_rows, rss = ref::rss_of(X, y, b), enp = 2 * trS - trStS, s2 = rss / (n - enp); auto d = a.diagnostic(); eq(d.RSS, rss, t + "residual sum of squares"); eq(d.ENP, enp, t + "effective number of parameters"); eq(d.EDF, n - enp, t + "effective degrees of freedom"); eq(d.RSquare, 1 - rss / ref::yss_of(y), t + "R2"); eq(d.RSquareAdjust, 1 - rss / ref::yss_of(y) * (n - 1) / (n - enp), t + "adjusted R2"); eq(d.AIC, n * (log(2 * M_PI * s2) + 1) + 2 * (enp + 1), t + "AIC"); eq(d.AICc, n * log(2 * M_PI * s2) + n * ((1 + enp / n) / (1 - (enp + 2) / n)), t + "AICc"); }
SCENARIO(fit) { sym_opt("ieee", 0); uword n = 5, k = 2 + sym_int("variables", 0, 1); int par = sym_int("par", 0, 1), how = sym_int("ridge", 0, 2); mat X = design2(k), W = wts(n, n, sym_int("weights", 0, 1)); vec y = sym_vec("y", n, -10, 10); double lam = how == 0 ? 0.0 : how == 1 ? 0.5 : sym_real("lambda", 0, 8); if (how == 2 && k == 3) return; Lcr a; mat e(n, k); for (uword i = 0; i < n; i++) e.row(i) = ridge(X, y, W.col(i), lam, sds(k)).t(); make(a, X, y, line(n), table_sw(W), lam, par); mat b = a.fit(); if (!shape(b, n, k, "coefficients")) return; eqm(b, e, "ridge coefficients"); eqm(a.betas(), b, "stored coefficients"); if (how == 0) { ref::Gwr g = ref::gwr(X, y, W); diag(a, X, y, b, g.trS, g.trStS); } else eq(a.diagnostic().RSS, ref::rss_of(X, y, b), "residual sum of squares"); }
SCENARIO(predict) { sym_opt("ieee", 0); uword n = 5, k = 2 + sym_int("variables", 0, 1), r = 3 + 3 * sym_int("more", 0, 1); int par = sym_int("par", 0, 1), first = sym_int("fit first", 0, 1); mat X = design2(k), W = wts(n, 6, 1); vec y = sym_vec("y", n, -10, 10); double lam = sym_int("ridge", 0, 1) * 0.5; Lcr a; mat e(r, k); for (uword i = 0; i < r; i++) e.row(i) = ridge(X, y, W.col(i), lam, sds(k)).t(); make(a, X, y, line(n), table_sw(W), lam, par); if (first) a.fit(); mat b = a.predict(line(r)); eqm(b, e, "ridge coefficients at new locations"); }
SCENARIO(places) { sym_opt("ieee", 0); uword n = 5, r = 3; int par = sym_int("par", 0, 1), first = sym_int("fit first", 0, 1); mat X = design2(2), p = line(n), q(r, 2, arma::fill::zeros); q(0, 0) = 2; q(1, 0) = 7; q(2, 0) = 20; vec y = sym_vec("y", n, -10, 10); mat D = dist_line(q, p); Lcr a; make(a, X, y, p, crs_sw(50, false, 4), 0.5, par); if (first) a.fit(); mat b = a.predict(q); if (!shape(b, r, 2, "coefficients")) return; for (uword i = 0; i < r; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = D(j, i) < 50 ? 1 : 0; vec e = ridge(X, y, w, 0.5, sds(2)); for (uword k = 0; k < 2; k++) eq(b(i, k), e(k), "coefficients at new locations"); } }
SCENARIO(predict_weight) { sym_opt("ieee", 0); uword n = 5; int bw = sym_int("bw", 0, 2), par = sym_int("par", 0, 1); static const double B[3] = {8, 12, 30}; mat X = design2(2), p = line(n), q(2, 2, arma::fill::zeros); q(0, 0) = 6; q(1, 0) = 2; vec y = sym_vec("y", n, -10, 10); mat D = dist_line(q, p); Lcr a; make(a, X, y, p, crs_sw(B[bw], false, 2), 0.25, par); mat b = a.predict(q); if (!shape(b, 2, 2, "coefficients")) return; for (uword i = 0; i < 2; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = ref::kernel(2, D(j, i), B[bw]); vec e = ridge(X, y, w, 0.25, sds(2)); for (uword k = 0; k < 2; k++) { double d = b(i, k) - e(k); ok(d < 1e-9 && d > -1e-9, "coefficients at new locations"); } } }
// compensation: with two variables, the singular values of the weighted design with unit columns follow from one correlation
static double local_lambda(const mat& X, const vec& w, double lam, double t, double* cn = nullptr) { if (X.n_cols > 2) { mat z = X.each_col() % w; for (uword c = 0; c < z.n_cols; c++) z.col(c) /= std::sqrt(arma::accu(z.col(c) % z.col(c))); vec v = arma::svd(z); double s1 = v(0), s2 = v(v.n_elem - 1); if (cn) *cn = s1 / s2; return s1 / s2 > t ? (s1 - t * s2) / (t - 1) : lam; } double a = 0, b = 0, c = 0; for (uword i = 0; i < X.n_rows; i++) { double x = w(i) * X(i, 0), z = w(i) * X(i, 1); a += x * x; b += z * z; c += x * z; } double r = std::abs(c) / std::sqrt(a * b), s1 = std::sqrt(1 + r), s2 = std::sqrt(1 - r); if (cn) *cn = s1 / s2; return s1 / s2 > t ? (s1 - t * s2) / (t - 1) : lam; }
SCENARIO(compensate) { uword n = 5; int par = sym_int("par", 0, 1), what = sym_int("what", 0, 2), th = sym_int("threshold", 0, 3), adj = sym_int("adjust", 0, 1), shift = sym_int("shift", 0, 1); static const double T[4] = {1.25, 2, 4, 30}; int three = what == 2 ? 0 : sym_int("variables", 0, 1); uword k = 2 + three; mat X = design2(k), W = wts(n, n, 1); if (three) for (uword i = 0; i < n; i++) X(i, 2) = 0.75 * X(i, 1) + 0.125 * X(i, 2); for (uword i = 0; i < n; i++) X(i, 1) += shift * 6; vec y = ys(n); y(2) = sym_real("y", -10, 10); y(4) = sym_real("z", -10, 10); double lam = 0.375, sc = 0; Lcr a; mat e(n, k); mat V = W; if (what == 2) V.diag().zeros(); bool near_edge = false; for (uword i = 0; i < n; i++) { double cn; double l = local_lambda(X, V.col(i), lam, T[th], &cn); if (std::abs(cn - T[th]) < 1e-6) near_edge = true; e.row(i) = ridge(X, y, V.col(i), adj ? l : lam, sds(X)).t(); double f = 0; for (uword p = 0; p < k; p++) f += e(i, p) * X(i, p); sc += (y(i) - f) * (y(i) - f); } if (near_edge) return; make(a, X, y, line(n), table_sw(W), lam, par); a.setLambdaAdjust(adj); a.setCnThresh(T[th]); if (what == 2) { double d = -1; BandwidthWeight w(1e9, false, BandwidthWeight::Boxcar); (void)w; return; } mat b = what ? a.predict(line(n)) : a.fit(); if (!shape(b, n, k, "coefficients")) return; for (uword i = 0; i < n; i++) for (uword p = 0; p < k; p++) { double d = b(i, p) - e(i, p); ok(d < 1e-7 && d > -1e-7, adj ? "local ridge term brings the condition number to its threshold" : "no compensation unless asked for"); } }
static double cv_of(const mat& X, const vec& y, mat W, double lam, bool adj, double t) { double s = 0; for (uword i = 0; i < X.n_rows; i++) { W(i, i) = 0; vec w = W.col(i); vec b = ridge(X, y, w, adj ? local_lambda(X, w, lam, t) : lam, sds(X)); double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(p); s += (y(i) - f) * (y(i) - f); } return s; }
static mat kern(const mat& D, int kn, double b) { mat W(D.n_rows, D.n_cols); for (uword i = 0; i < D.n_cols; i++) for (uword j = 0; j < D.n_rows; j++) W(j, i) = ref::kernel(kn, D(j, i), b); return W; }
SCENARIO(scores) { uword n = 5; int par = sym_int("par", 0, 1), adj = sym_int("adjust", 0, 1), bi = sym_int("bandwidth", 0, 2), l = sym_int("ridge", 0, 1); static const double B[3] = {14, 20, 40}; int three = l ? 0 : sym_int("variables", 0, 1); mat X = design2(2 + three), p = line(n); if (three) for (uword i = 0; i < n; i++) X(i, 2) = 0.75 * X(i, 1) + 0.125 * X(i, 2); for (uword i = 0; i < n; i++) X(i, 1) += 6; vec y = ys(n); y(1) = sym_real("y", -10, 10); y(4) = sym_real("z", -10, 10); mat W = kern(dist_line(p, p), 2, B[bi]); double e = cv_of(X, y, W, l * 0.5, adj, 3); Lcr a; make(a, X, y, p, crs_sw(30, false, 2), l * 0.5, par); a.setLambdaAdjust(adj); a.setCnThresh(3); a.fit(); BandwidthWeight w(B[bi], false, BandwidthWeight::Bisquare); double c = -1; ok(a.getCriterion(&w, c) == Status::Success, "status"); double d = c - e; ok(d < 1e-6 && d > -1e-6, "cross-validation score"); eq(a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), 30.0, "scoring does not change the model's bandwidth"); }
SCENARIO(singular) { sym_opt("ieee", 0); uword n = 5; int par = sym_int("par", 0, 1), what = sym_int("what", 0, 2); mat X = design2(2), p = line(n); vec y = ys(n); y(3) = sym_real("y", -10, 10); Lcr a; make(a, X, y, p, crs_sw(what == 1 ? 50 : 2.0, false, 4), 0, par); if (what == 0) { ok(throws([&] { a.fit(); }), "a location without unique solution is refused"); return; } if (what == 2) { ok(throws([&] { a.predict(p); }), "a location without unique solution is refused"); return; } a.fit(); BandwidthWeight w(2.0, false, BandwidthWeight::Boxcar); double c = -1; a.getCriterion(&w, c); ok(c == DBL_MAX, "bandwidths without local solutions get the worst score"); }
SCENARIO(threads) { sym_opt("ieee", 0); uword n = 4; int what = sym_int("what", 0, 2); mat X = design2(2).eval().rows(1, 4), p = line(n); vec y = ys(n); y(1) = sym_real("y", -2, 2); par_omp_mode(1, 1, 1); Lcr a, s; make(a, X, y, p, crs_sw(30, false, 4), 0.5, 1); make(s, X, y, p, crs_sw(30, false, 4), 0.5, 0); mat b, c; double v = 0, u = 0; if (what == 2) { a.fit(); s.fit(); } par_race_enable(1); BandwidthWeight w(25, false, BandwidthWeight::Boxcar); if (what == 0) { b = a.fit(); c = s.fit(); } else if (what == 1) { b = a.predict(p); c = s.predict(p); } else { a.getCriterion(&w, v); s.getCriterion(&w, u); } ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); eqm(b, c, "threads: coefficients"); eq(v, u, "threads: score"); if (what == 0) { eq(a.diagnostic().ENP, s.diagnostic().ENP, "threads: effective number of parameters"); eq(a.diagnostic().RSS, s.diagnostic().RSS, "threads: residual sum of squares"); } }
SCENARIO(again) { sym_opt("ieee", 0); uword n = 5; int par = sym_int("par", 0, 1), what = sym_int("what", 0, 4); mat X = design2(2), Z = X, W = wts(n, n); vec y = ys(n); y(2) = sym_real("y", -10, 10); Z(0, 1) = 1; Lcr a; make(a, what == 1 ? Z : X, what == 2 ? ys(n) : y, line(n), table_sw(what == 3 ? wts(n, n, 1) : W), what == 4 ? 0.5 : 0.0, par); a.fit(); if (what == 0) a.predict(line(n)); make(a, X, y, line(n), table_sw(W), 0.0); mat b = a.fit(); ref::Gwr g = ref::gwr(X, y, W); eqm(b, g.beta, "second fit: coefficients"); diag(a, X, y, b, g.trS, g.trStS, "second fit: "); }
SCENARIO(bandwidth) { uword n = 5; int par = sym_int("par", 0, 1), data = sym_int("data", 0, 3), how = sym_int("how", 0, 1); mat X = design2(2), p = line(n); vec y = ys(n); y(data) = 4; Lcr a; make(a, X, y, p, crs_sw(5, false, 0), 0.5, how ? par : 0); a.setBandwidthSelectionCriterion(Lcr::CV); if (!how && par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } a.setIsAutoselectBandwidth(true); mat b = a.fit(); double h = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); auto list = a.bandwidthSelectionCriterionList(); ok(list.size() >= 2, "scored bandwidths are listed"); double best = DBL_MAX, arg = 0; for (auto& q : list) { if (q.second < best) { best = q.second; arg = q.first; } double d = q.second - cv_of(X, y, kern(dist_line(p, p), 0, q.first), 0.5, false, 30); ok(d < 1e-7 && d > -1e-7, "listed score"); } ok(h - arg < 1e-9 && arg - h < 1e-9, "the best of the scored bandwidths is chosen"); mat W = kern(dist_line(p, p), 0, h); for (uword i = 0; i < n; i++) { vec e = ridge(X, y, W.col(i), 0.5, sds(2)); for (uword k = 0; k < 2; k++) { double d = b(i, k) - e(k); ok(d < 1e-7 && d > -1e-7, "coefficients use the chosen bandwidth"); } } }
