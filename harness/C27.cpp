// Generalized (Poisson, binomial) geographically weighted regression: local iteratively reweighted least squares.
// OPTIONS: race
// BOUNDS: 3..6 observations, 1..2 variables, 1..3 reweighting iterations; all responses, weights or the tolerance symbolic; two threads, any schedule of the chunks
#include "ref.h"
#include "gwmodelpp/GWRGeneralized.h"
using namespace gwm;
typedef GWRGeneralized GG;
struct Irls { mat b; vec adj, w, mu; double ll = 0; };
static double lik(int bin, double y, double mu) { return bin ? std::lgamma(2.0) - std::lgamma(2.0 - y) - std::lgamma(y + 1.0) + (1.0 - y) * std::log(1.0 - mu) + y * std::log(mu) : -mu + y * std::log(mu) - std::lgamma(y + 1.0); }
// iterations; `tol' stops when the relative change of the log-likelihood is smaller
static Irls irls(int bin, const mat& X, const vec& y, const mat& W, int iters, double tol) {
  uword n = X.n_rows, k = X.n_cols; Irls s; s.w.ones(n); s.mu.set_size(n); vec nu(n); for (uword i = 0; i < n; i++) { s.mu(i) = bin ? 0.5 : y(i) + 0.1; nu(i) = bin ? 0.0 : std::log(s.mu(i)); } s.adj.set_size(n); s.b.set_size(n, k);
  for (int t = 0; t < iters; t++) {
    for (uword i = 0; i < n; i++) s.adj(i) = nu(i) + (y(i) - s.mu(i)) / (bin ? s.mu(i) * (1.0 - s.mu(i)) : s.mu(i));
    double old = s.ll; s.ll = 0;
    for (uword i = 0; i < n; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = W(j, i) * s.w(j); vec be = ref::wls(X, s.adj, w); double f = 0; for (uword c = 0; c < k; c++) { s.b(i, c) = be(c); f += X(i, c) * be(c); } nu(i) = f; }
    for (uword i = 0; i < n; i++) { s.mu(i) = std::exp(nu(i)); if (bin) s.mu(i) = s.mu(i) / (1.0 + s.mu(i)); s.ll += lik(bin, y(i), s.mu(i)); }
    double d = (old - s.ll) / s.ll; if (d < 0) d = -d; if (tol > 0) { sym_assume(d - tol > 1e-9 || tol - d > 1e-9); if (d < tol) break; }
    for (uword i = 0; i < n; i++) s.w(i) = bin ? s.mu(i) * (1.0 - s.mu(i)) : s.mu(i);
  } return s;
}
static mat local(const mat& X, const Irls& s, const mat& W) { mat b(W.n_cols, X.n_cols); for (uword i = 0; i < W.n_cols; i++) { vec w(X.n_rows); for (uword j = 0; j < X.n_rows; j++) w(j) = W(j, i) * s.w(j); b.row(i) = ref::wls(X, s.adj, w).t(); } return b; }
static double trace(const mat& X, const Irls& s, const mat& W) { double t = 0; for (uword i = 0; i < X.n_rows; i++) { vec w(X.n_rows); for (uword j = 0; j < X.n_rows; j++) w(j) = W(j, i) * s.w(j); mat c = ref::cmat(X, w); for (uword p = 0; p < X.n_cols; p++) t += X(i, p) * c(p, i); } return t; }
static mat kw(const mat& p, const mat& q, int kn, double bw) { mat D = dist_line(q, p); for (uword i = 0; i < D.n_elem; i++) D(i) = ref::kernel(kn, D(i), bw); return D; }
static vec counts(uword n) { static const double v[8] = {2, 1, 4, 3, 0, 5, 1, 2}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static vec coins(uword n) { static const double v[8] = {1, 0, 1, 0, 0, 1, 1, 0}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static void make(GG& a, int bin, const mat& X, const vec& y, const mat& p, const SpatialWeight& w, int iters, double tol, int omp = 0) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(w); a.setFamily(bin ? GG::Family::Binomial : GG::Family::Poisson); a.setMaxiter(iters); a.setTol(tol); if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
static void close(const mat& b, const mat& e, const std::string& m) { if (!shape(b, e.n_rows, e.n_cols, m)) return; for (uword i = 0; i < e.n_elem; i++) { double d = b(i) - e(i); ok(d < 1e-6 && d > -1e-6, m); } }
// every response: predictions at other places
SCENARIO(predict) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), first = sym_int("tol", 0, 1), where = sym_int("places", 0, 2); uword k = 1 + sym_int("variables", 0, 1), n = k == 2 && !first ? 3 : 4, r = where == 0 ? 2 : where == 1 ? 4 : 6; mat X = design(n, k), p = line(n), q(r, 2, arma::fill::zeros); if (where == 1) q = p; else for (uword i = 0; i < r; i++) q(i, 0) = 1.5 + 1.25 * i; vec y = sym_vec("y", n, bin ? 0 : 0.5, bin ? 1 : 6); mat W = kw(p, p, 2, 20), V = kw(p, q, 2, 20); Irls s = irls(bin, X, y, W, 1, first ? 2.0 : 0.0); mat e = local(X, s, V); GG a; make(a, bin, X, y, p, crs_sw(20, false, 2), 1, first ? 2.0 : 0.0, omp); mat b = a.predict(q); eqm(b, e, "coefficients at new locations"); ok(a.hasHatMatrix(), "prediction leaves the settings alone"); }
static double dev_of(int bin, const vec& y, const vec& mu, const mat& X, const mat& b) { double d = 0; for (uword i = 0; i < y.n_elem; i++) { if (bin) { double f = 0; for (uword c = 0; c < X.n_cols; c++) f += X(i, c) * b(i, c); double e = std::exp(f), m = e / (1 + e), t = y(i) - 1 + m; d += std::log(1.0 / (t * t)); } else if (y(i) != 0) d += 2 * (y(i) * (std::log(y(i) / mu(i)) - 1) + mu(i)); else d += 2 * mu(i); } return d; }
static double null_dev(int bin, const vec& y) { double m = 0, d = 0; uword n = y.n_elem; for (uword i = 0; i < n; i++) m += y(i); m /= double(n); for (uword i = 0; i < n; i++) { double t = bin ? (y(i) != 0 ? std::log(1.0 / m) : std::log(1.0 / (1 - m))) : (y(i) != 0 ? y(i) * std::log(y(i) / m) - (y(i) - m) : m); d += 2 * t; } return d; }
// every weighting scheme: coefficients and diagnostics
static mat some_weights(uword n, int which) { mat W = weights_fixed(n, n); if (which == 0) for (uword i = 0; i < n; i++) W(i, 1) = sym_real(nm("w", i).c_str(), 0.125, 2); else for (uword i = 0; i < 2; i++) W(1, i) = sym_real(nm("w", i).c_str(), 0.125, 2); return W; }
SCENARIO(fit) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), stop = sym_int("tol", 0, 1), which = sym_int("which", 0, 1); uword k = 1 + sym_int("variables", 0, 1), n = stop || k == 1 ? 4 : 3; mat X = design(n, k), W = some_weights(n, which); vec y = bin ? coins(n) : counts(n); if (!bin && n > 3) y(2) = 0; double tol = stop ? 2.0 : 0.0; Irls s = irls(bin, X, y, W, 1, tol); mat e = local(X, s, W); GG a; make(a, bin, X, y, line(n), table_sw(W), 1, tol, omp); a.setHasHatMatrix(hat); mat b = a.fit(); eqm(b, e, "coefficients"); eqm(a.betas(), e, "stored coefficients"); if (!hat) return; GWRGeneralizedDiagnostic d = a.getDiagnostic(); double dv = dev_of(bin, y, s.mu, X, e), tr = trace(X, s, W), N = n, t = (d.AIC - d.RSS) / 2; eq(d.RSS, dv, "deviance"); eq(t, tr, "AIC"); eq(d.AICc, d.AIC + 2 * t * (t + 1) / (N - t - 1), "AICc"); double nd = null_dev(bin, y), c = a.getGLMDiagnostic().NullDev - nd; ok(c < 1e-9 && c > -1e-9, "null deviance"); eq(d.RSquare, 1 - d.RSS / a.getGLMDiagnostic().NullDev, "R2"); GLMDiagnostic g = a.getGLMDiagnostic(); c = g.AIC - g.Dev - 2.0 * k; ok(c < 1e-9 && c > -1e-9, "global AIC"); eq(g.RSquare, 1 - g.Dev / g.NullDev, "global R2"); if (n > k + 1) { c = g.AICc - g.AIC - 2.0 * k * (k + 1) / (N - k - 1); ok(c < 1e-9 && c > -1e-9, "global AICc"); } }
// every response: scores of bandwidths
static double score(int bin, int aic, const mat& X, const vec& y, mat W, int iters, double tol) { uword n = X.n_rows; if (!aic) for (uword i = 0; i < n; i++) W(i, i) = 0; Irls s = irls(bin, X, y, W, iters, tol); if (aic) { double t = trace(X, s, W); return -2 * s.ll + 2 * t + 2 * t * (t + 1) / (double(n) - t - 1); } mat b = local(X, s, W); double c = 0; for (uword i = 0; i < n; i++) { double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(i, p); f = std::exp(f); if (bin) f = f / (1 + f); c += (y(i) - f) * (y(i) - f); } return c; }
SCENARIO(scores) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), aic = sym_int("criterion", 0, 1), stop = sym_int("tol", 0, 1), dflt = aic ? 0 : sym_int("default", 0, 1); uword k = stop ? 1 + sym_int("variables", 0, 1) : 1, n = stop ? 4 : 3; mat X = design(n, k), p = line(n), D = dist_line(p, p); vec y = bin ? coins(n) : counts(n); y(0) = sym_real("y0", bin ? 0 : 0.5, bin ? 1 : 6); y(1) = sym_real("y1", bin ? 0 : 0.5, bin ? 1 : 6); double tol = stop ? 2.0 : 0.0; double e = score(bin, aic, X, y, kw(p, p, 2, 24), 1, tol); GG a; make(a, bin, X, y, p, bw_sw(D, 12, false, 2), 1, tol, omp); if (!dflt) a.setBandwidthSelectionCriterionType(aic ? GG::AIC : GG::CV); BandwidthWeight w(24, false, BandwidthWeight::Bisquare); double c = 0; ok(a.getCriterion(&w, c) == Status::Success, "status"); eq(c, e, aic ? "AICc of a bandwidth" : "leave-one-out score of a bandwidth"); ok(a.bandwidthSelectionCriterionType() == (aic ? GG::AIC : GG::CV), "reported criterion"); }
// every tolerance: stops at the first iteration whose relative change of the log-likelihood is below it, or at the limit
SCENARIO(tolerance) { int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), it = sym_int("limit", 1, 4), hat = sym_int("hat", 0, 1); uword n = 5, k = 2; mat X = design(n, k), p = line(n), W = kw(p, p, 2, 24); if (bin) X.col(1) *= 0.25; vec y = bin ? coins(n) : counts(n); double tol = sym_real("tol", 1e-7, 2); Irls s = irls(bin, X, y, W, it, tol); mat e = local(X, s, W); GG a; make(a, bin, X, y, p, crs_sw(24, false, 2), it, tol, omp); a.setHasHatMatrix(hat); mat b = a.fit(); close(b, e, "coefficients"); if (hat) { GWRGeneralizedDiagnostic d = a.getDiagnostic(); double t = d.RSS - dev_of(bin, y, s.mu, X, e); ok(t < 1e-6 && t > -1e-6, "deviance"); t = d.AIC - d.RSS - 2 * trace(X, s, W); ok(t < 1e-6 && t > -1e-6, "AIC"); } }
SCENARIO(again) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), what = sym_int("what", 0, 6); uword n = 4, k = 1; mat X = design(n, k), p = line(n), p2 = p, W = kw(p, p, 2, 20); p2(1, 0) = 6; vec y = sym_vec("y", n, bin ? 0 : 0.5, bin ? 1 : 6); vec z = bin ? coins(n) : counts(n); GG a; make(a, what == 1 ? !bin : bin, what == 2 ? design(n, 2) : X, what == 1 ? coins(n) : z, what == 3 ? p2 : p, crs_sw(what == 4 ? 30 : 20, false, what == 5 ? 4 : 2), 1 + (what == 6), 0); a.setHasHatMatrix(what % 2); a.fit(); if (what == 0) a.predict(p2); make(a, bin, X, y, p, crs_sw(20, false, 2), 1, 0); Irls s = irls(bin, X, y, W, 1, 0); mat e = local(X, s, W); mat b = a.predict(p); eqm(b, e, "coefficients after an earlier fit"); a.setDependentVariable(z); Irls t = irls(bin, X, z, W, 1, 0); mat c = a.fit(); close(c, local(X, t, W), "second fit: coefficients"); if (what % 2) { double d = a.getDiagnostic().AIC - a.getDiagnostic().RSS - 2 * trace(X, t, W); ok(d < 1e-6 && d > -1e-6, "second fit: AIC"); } }
SCENARIO(threads) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), what = sym_int("what", 0, 4); uword n = 4; mat X = design(n, 1), p = line(n), D = dist_line(p, p); vec y = bin ? coins(n) : counts(n); par_omp_mode(1, 1, 2); GG a, s; for (GG* q : {&a, &s}) { make(*q, bin, X, y, p, bw_sw(D, 20, false, 2), 1, 0, q == &a); q->setHasHatMatrix(what == 1); q->setBandwidthSelectionCriterionType(what == 3 ? GG::CV : GG::AIC); } mat b, c; double v = 0, u = 0; BandwidthWeight w(25, false, BandwidthWeight::Bisquare); par_race_enable(1); if (what < 2) b = a.fit(); else if (what == 2) b = a.predict(p); else a.getCriterion(&w, v); ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); if (what < 2) c = s.fit(); else if (what == 2) c = s.predict(p); else s.getCriterion(&w, u); eqm(b, c, "threads: coefficients"); double d = v - u; ok(d < 1e-9 && d > -1e-9, "threads: score"); if (what == 1) { d = a.getDiagnostic().AICc - s.getDiagnostic().AICc; ok(d < 1e-9 && d > -1e-9, "threads: AICc"); } }
SCENARIO(singular) { int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), what = sym_int("what", 0, 4); uword n = 5; mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = bin ? coins(n) : counts(n); GG a; make(a, bin, X, y, p, bw_sw(D, 0.5, false, 4), 1, 2, omp); a.setHasHatMatrix(what == 1); if (what == 0 || what == 1) { ok(throws([&] { a.fit(); }), "a location without unique solution is refused"); return; } if (what == 2) { ok(throws([&] { a.predict(p); }), "a location without unique solution is refused"); return; } a.setBandwidthSelectionCriterionType(what == 3 ? GG::CV : GG::AIC); BandwidthWeight w(0.5, false, BandwidthWeight::Boxcar); double c = -1; a.getCriterion(&w, c); ok(c == DBL_MAX, "bandwidths without local solutions get the worst score"); }
SCENARIO(select) { int bin = sym_int("family", 0, 1), aic = sym_int("criterion", 0, 1), omp = sym_int("threads", 0, 1); uword n = 6; mat X = design(n, 1), p = line(n), D = dist_line(p, p); vec y = bin ? coins(n) : counts(n); y(3) = sym_int("y", 0, bin ? 1 : 3); GG a; make(a, bin, X, y, p, bw_sw(D, 0, false, 0), 2, 0, omp); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterionType(aic ? GG::AIC : GG::CV); mat b = a.fit(); double bw = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); auto L = a.bandwidthSelectorCriterions(); ok(L.size() >= 2, "scored candidates are listed"); double best = DBL_MAX, at = -1; for (auto& q : L) { if (q.second < best) { best = q.second; at = q.first; } double d = q.second - score(bin, aic, X, y, kw(p, p, 0, q.first), 2, 0); ok(q.second == DBL_MAX || (d < 1e-6 && d > -1e-6), "listed score"); } double d = bw - at; ok(d < 1e-9 && d > -1e-9, "the best scored bandwidth is used"); mat W = kw(p, p, 0, bw); Irls s = irls(bin, X, y, W, 2, 0); close(b, local(X, s, W), "coefficients use the selected bandwidth"); }
