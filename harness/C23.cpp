// Space-time regression: weights by space-time distance, criteria, choice of bandwidth and of lambda.
// OPTIONS: race
// BOUNDS: 4..7 observations on a line at 1..3 times, 1..2 variables; all responses symbolic (fit, scores), or one scale (searches); lambda in {0, 1/4, 1/2, 1} or symbolic; fixed and adaptive bandwidths
#include "ref.h"
#include "gwmodelpp/GTWR.h"
using namespace gwm;
static const double FAR_ = 10000000000000.0;
static vec times(uword n, int m) { static const double v[3][8] = {{0, 0, 0, 4, 4, 9, 0, 9}, {5, 5, 1, 1, 5, 1, 1, 5}, {2, 2, 2, 2, 2, 2, 2, 2}}; vec t(n); for (uword i = 0; i < n; i++) t(i) = v[m][i]; return t; }
static mat dists(const mat& c, const vec& t, double lam, double ca = 1) { uword n = c.n_rows; mat D(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { double s = c(i, 0) - c(j, 0), e = t(i) - t(j); if (s < 0) s = -s; D(j, i) = lam == 1.0 ? s : e < 0 ? FAR_ : lam * s + (1 - lam) * e + 2 * sqrt(lam * (1 - lam) * s * e) * ca; } return D; }
static mat kern(const mat& D, int kn, double b, bool ad) { uword n = D.n_rows; mat W(n, D.n_cols); for (uword i = 0; i < D.n_cols; i++) { double h = b; if (ad) { vec s = arma::sort(D.col(i)); h = b <= n ? s(uword(b) - 1) : b / n * s(n - 1); } for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), h); } return W; }
static SpatialWeight sw(double lam, double b, bool ad, int kn, int oblique = 0) { CRSDistance s(false); OneDimDistance t; BandwidthWeight w(b, ad, BandwidthWeight::KernelFunctionType(kn)); if (oblique) { CRSSTDistance d(&s, &t, lam, 0.0); return SpatialWeight(&w, &d); } CRSSTDistance d(&s, &t, lam); return SpatialWeight(&w, &d); }
static void make(GTWR& a, const mat& X, const vec& y, const mat& c, const vec& t, const SpatialWeight& s, int par = 0) { a.setIndependentVariables(X); a.setDependentVariable(y); a.setCoords(c, t); a.setSpatialWeight(s); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
static void check(GTWR& a, const mat& b, const mat& X, const vec& y, const mat& W, const std::string& t = "") {
  uword n = X.n_rows, k = X.n_cols; ref::Gwr g = ref::gwr(X, y, W); if (!shape(b, n, k, t + "coefficients") || !shape(a.betasSE(), n, k, t + "standard errors") || !shape(a.s(), n, n, t + "hat matrix") || !shape(a.qDiag(), n, 1, t + "residual variances")) return; eqm(b, g.beta, t + "coefficients"); eqm(a.betas(), b, t + "stored coefficients"); eqm(a.s(), g.S, t + "hat matrix"); eqm(a.qDiag(), g.q, t + "residual variances"); eq(a.sHat()(0), g.trS, t + "trace of S"); eq(a.sHat()(1), g.trStS, t + "trace of S'S"); double s2 = g.rss / (double(n) - 2 * g.trS + g.trStS); for (uword i = 0; i < n; i++) for (uword p = 0; p < k; p++) eq(a.betasSE()(i, p) * a.betasSE()(i, p), s2 * g.se2(i, p), t + "standard errors"); ref::diag(a.diagnostic(), double(n), g.rss, g.yss, g.trS, g.trStS, t);
}
static vec ys(uword n) { static const double v[8] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static const double L[4] = {0, 0.25, 0.5, 1};
SCENARIO(fit) { sym_opt("ieee", 0); uword n = 6, k = 1 + sym_int("variables", 0, 1); int l = sym_int("lambda", 0, 3), tm = sym_int("times", 0, 2), kn = 2 + sym_int("kernel", 0, 1), ad = sym_int("adaptive", 0, 1), par = sym_int("par", 0, 1); mat c = line(n), X = design(n, k); vec t = times(n, tm), y = sym_vec("y", n, -10, 10); double b = ad ? 5 : 40; if (l == 0 && ad) return; mat W = kern(dists(c, t, L[l]), kn, b, ad); GTWR a; make(a, X, y, c, t, sw(L[l], b, ad, kn), par); mat r = a.fit(); check(a, r, X, y, W); }
SCENARIO(oblique) { sym_opt("ieee", 0); uword n = 6; int l = sym_int("lambda", 0, 3); mat c = line(n), X = design(n, 2); vec t = times(n, 0), y = sym_vec("y", n, -10, 10); mat W = kern(dists(c, t, L[l]), 2, 40, false); GTWR a; make(a, X, y, c, t, sw(L[l], 40, false, 2, 1)); mat r = a.fit(); check(a, r, X, y, W); }
// observations later than the focus have no influence
SCENARIO(future) { sym_opt("ieee", 0); uword n = 6; int l = sym_int("lambda", 0, 2), kn = sym_int("kernel", 0, 4); mat c = line(n), X = design(n, 2); vec t = times(n, 0), y = ys(n), z = y; z(3) = sym_real("y3", -10, 10); z(5) = sym_real("y5", -10, 10); mat W(0, 0); GTWR a, b; make(a, X, y, c, t, sw(L[l], 40, false, kn)); make(b, X, z, c, t, sw(L[l], 40, false, kn)); mat r = a.fit(), s = b.fit(); for (uword i = 0; i < 3; i++) for (uword p = 0; p < 2; p++) eq(s(i, p), r(i, p), "coefficients do not depend on later observations"); }
SCENARIO(smooth) { sym_opt("ieee", 0); uword n = 4; int kn = sym_int("kernel", 0, 1) * 2, l = sym_int("lambda", 0, 1); double lam = sym_real("lam", l ? 0.5 : 0.125, l ? 0.75 : 0.375); mat c = line(n), X = design(n, 1); vec t(n), y = ys(n); t(0) = t(1) = t(2) = 0; t(3) = 0; y(2) = sym_real("y", -10, 10); mat W = kern(dists(c, t, lam), kn, 16, false); vec e(n); for (uword i = 0; i < n; i++) e(i) = ref::wls(X, y, W.col(i))(0); GTWR a; make(a, X, y, c, t, sw(lam, 16, false, kn)); mat r = a.fit(); for (uword i = 0; i < n; i++) eq(r(i, 0), e(i), "coefficients, any lambda"); }
static double cv_of(const mat& X, const vec& y, mat W) { double s = 0; for (uword i = 0; i < X.n_rows; i++) { W(i, i) = 0; vec b = ref::wls(X, y, W.col(i)); double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(p); s += (y(i) - f) * (y(i) - f); } return s; }
static double score(const mat& X, const vec& y, const mat& W, int aic) { if (!aic) return cv_of(X, y, W); ref::Gwr g = ref::gwr(X, y, W); return ref::aicc(double(X.n_rows), g.rss, g.trS); }
SCENARIO(scores) { sym_opt("ieee", 0); uword n = 6; int l = 1 + sym_int("lambda", 0, 2), par = sym_int("par", 0, 1), ad = sym_int("adaptive", 0, 1), aic = sym_int("criterion", 0, 1), how = sym_int("how", 0, 2); mat c = line(n), X = design(n, 1 + (l == 3)); vec t = times(n, 0), y = sym_vec("y", n, -10, 10); double b = ad ? 6 : 40; mat W = kern(dists(c, t, L[l]), 2, b, ad); GTWR a; auto ty = aic ? GTWR::AIC : GTWR::CV; if (how == 1) a.setBandwidthSelectionCriterion(ty); make(a, X, y, c, t, sw(L[l], b + 1, ad, 2), par); if (how == 2) a.setBandwidthSelectionCriterion(ty); if (how == 0 && a.bandwidthSelectionCriterion() != ty) return; a.fit(); BandwidthWeight w(b, ad, BandwidthWeight::Bisquare); double v = -1; ok(a.getCriterion(&w, v) == Status::Success, "status"); eq(v, score(X, y, W, aic), aic ? "AICc score of a bandwidth" : "cross-validation score of a bandwidth"); eq(a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), b + 1, "scoring does not change the model's bandwidth"); }
SCENARIO(singular) { uword n = 5; int par = sym_int("par", 0, 1), what = sym_int("what", 0, 2); mat c = line(n), X = design(n, 2); vec t = times(n, 2), y = ys(n); y(3) = sym_real("y", -10, 10); GTWR a; make(a, X, y, c, t, sw(0.5, what ? 40 : 1.25, false, 4), par); if (what == 0) { ok(throws([&] { a.fit(); }), "a location without unique solution is refused"); return; } a.fit(); a.setBandwidthSelectionCriterion(what == 1 ? GTWR::CV : GTWR::AIC); BandwidthWeight w(1.25, false, BandwidthWeight::Boxcar); double v = -1; a.getCriterion(&w, v); ok(v == DBL_MAX, "bandwidths without local solutions get the worst score"); }
SCENARIO(threads) { sym_opt("ieee", 0); uword n = 4; int what = sym_int("what", 0, 3); mat c = line(n), X = design(n, 2); vec t = times(n, 2), y = ys(n); y(1) = sym_real("y", -2, 2); par_omp_mode(1, 1, 1); GTWR a, s; for (GTWR* q : {&a, &s}) { make(*q, X, y, c, t, sw(0.5, 20, false, 2)); q->setHasHatMatrix(what != 1); } a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); par_race_enable(1); double v = 0, e = 0; a.fit(); s.fit(); if (what > 1) { auto ty = what == 2 ? GTWR::CV : GTWR::AIC; a.setBandwidthSelectionCriterion(ty); s.setBandwidthSelectionCriterion(ty); BandwidthWeight w(18, false, BandwidthWeight::Bisquare); a.getCriterion(&w, v); s.getCriterion(&w, e); } ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); eqm(a.betas(), s.betas(), "threads: coefficients"); eqm(a.betasSE(), s.betasSE(), "threads: standard errors"); eqm(a.sHat(), s.sHat(), "threads: traces"); eqm(a.qDiag(), s.qDiag(), "threads: residual variances"); if (what != 1) eqm(a.s(), s.s(), "threads: hat matrix"); eq(v, e, "threads: score"); }
static void near(double a, double b, double u, const std::string& m) { double d = a - b; ok(d <= 1e-6 * u && d >= -1e-6 * u, m); }
// the chosen bandwidth is the best of those scored; every reported score is the score of that bandwidth; the fit uses it
SCENARIO(bandwidth) { sym_opt("round", 1); uword n = 6; int l = 1 + sym_int("lambda", 0, 2), aic = sym_int("criterion", 0, 1), par = sym_int("par", 0, 1), how = sym_int("how", 0, 1); double u = aic ? 1.5 : sym_real("scale", 1, 4); mat c = line(n), X = design(n, 2); vec t = times(n, l == 3 ? 0 : 2), y = ys(n); for (uword i = 0; i < n; i++) y(i) = y(i) * u; mat D = dists(c, t, L[l]); GTWR a; if (how) { a.setBandwidthSelectionCriterion(aic ? GTWR::AIC : GTWR::CV); } make(a, X, y, c, t, sw(L[l], 5, false, 0), par); if (!how) a.setBandwidthSelectionCriterion(aic ? GTWR::AIC : GTWR::CV); a.setIsAutoselectBandwidth(true); mat r = a.fit(); double b = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); auto list = a.bandwidthSelectionCriterionList(); ok(list.size() >= 2, "scored bandwidths are listed"); double best = DBL_MAX, arg = 0; for (auto& p : list) { if (p.second < best) { best = p.second; arg = p.first; } } ok(b - arg < 1e-9 && arg - b < 1e-9, "the best of the scored bandwidths is chosen"); size_t q = 0; for (auto& p : list) if (q++ < 3) near(p.second, score(X, y, kern(D, 0, p.first, false), aic), u * u * 100, "listed score"); mat W = kern(D, 0, b, false); for (uword i = 0; i < n; i++) { vec e = ref::wls(X, y, W.col(i)); for (uword p = 0; p < 2; p++) near(r(i, p), e(p), u, "coefficients use the chosen bandwidth"); } }
// lambda: the search keeps to [0,1], ends where R2 is largest when R2 has one peak, and the fit uses it
static double r2(const mat& X, const vec& y, const mat& W) { double s = 0; for (uword i = 0; i < X.n_rows; i++) { vec b = ref::wls(X, y, W.col(i)); double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(p); s += (y(i) - f) * (y(i) - f); } return 1 - s / ref::yss_of(y); }
SCENARIO(lambda) { sym_opt("round", 1); uword n = 7; int d = sym_int("data", 0, 2), par = sym_int("par", 0, 1), given = sym_int("given", 0, 1), kn = sym_int("kernel", 0, 1) * 2; double u = sym_real("scale", 1, 4); mat c = line(n), X = design(n, 1 + (d == 2)); vec t = times(n, 0), y = ys(n); if (d == 1) { y(0) = 3; y(6) = -1; y(3) = 0.25; } for (uword i = 0; i < n; i++) y(i) = y(i) * u; GTWR a; make(a, X, y, c, t, sw(given ? 0.25 : 1, 30, false, kn), par); a.setIsAutoselectLambda(true); mat r = a.fit(); vec dd = a.spatialWeight().distance()->distance(0); double lam = dd(1) / 3.0; ok(lam >= 0 && lam <= 1, "lambda keeps to [0,1]"); auto f = [&](double l) { return r2(X, y, kern(dists(c, t, l), kn, 30, false)); }; 
  const int G = 16; double v[G + 1]; int peak = 0, falls = 0; bool one = true; for (int i = 0; i <= G; i++) { double l = i == G ? 0.9999999 : i == 0 ? 1e-7 : double(i) / G; v[i] = f(l); if (i && v[i] < v[i - 1]) falls = 1; else if (i && falls) one = false; if (v[i] > v[peak]) peak = i; } double got = f(lam), e = -1e-6; if (one) { for (int i = 1; i < G; i++) ok(got - v[i] > e, "no other lambda explains the data better"); } mat W = kern(dists(c, t, lam), kn, 30, false); for (uword i = 0; i < n; i++) { vec q = ref::wls(X, y, W.col(i)); for (uword p = 0; p < X.n_cols; p++) near(r(i, p), q(p), u, "coefficients use the chosen lambda"); } near(a.diagnostic().RSquare, got, 1, "R2 of the chosen lambda"); }
SCENARIO(history) { sym_opt("ieee", 0); uword n = 6; int what = sym_int("what", 0, 3), par = sym_int("par", 0, 1); mat c = line(n), c2 = c, X = design(n, 2); c2(1, 0) = 5; vec t = times(n, 0), y = ys(n); y(2) = sym_real("y", -10, 10); GTWR a; make(a, what == 2 ? design(n, 1) : X, ys(n), what == 1 ? c2 : c, what == 0 ? times(n, 2) : t, sw(what == 3 ? 1 : 0.5, 40, false, 2), par); a.fit(); make(a, X, y, c, t, sw(0.5, 40, false, 2)); mat r = a.fit(); check(a, r, X, y, kern(dists(c, t, 0.5), 2, 40, false), "second fit: "); }
