// Density regression: weights multiply over dimensions; criteria; optimisation of one bandwidth per dimension.
// OPTIONS: race
// BOUNDS: 4..6 observations, 1..2 variables, 1..3 dimensions; all responses symbolic, sets of variables with any dimension unknown, or one symbolic coordinate; 5 kernels, fixed and adaptive; the minimiser of the GNU Scientific Library replaced by one that visits up to 3 arbitrary points
#include "ref.h"
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_errno.h>
using namespace gwm;
// ---- any minimiser: visits points of its choice, keeps the best of them
static struct Min { gsl_multimin_fminimizer m; gsl_multimin_function* f; std::vector<vec> pts; size_t next; bool improve; vec start, first; } MIN;
extern "C" {
gsl_multimin_fminimizer* gsl_multimin_fminimizer_alloc(const gsl_multimin_fminimizer_type*, size_t n) { MIN.m.x = gsl_vector_alloc(n); MIN.next = 0; return &MIN.m; }
void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer* s) { gsl_vector_free(s->x); }
int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer* s, gsl_multimin_function* f, const gsl_vector* x, const gsl_vector*) { MIN.f = f; MIN.start = vec(f->n); for (size_t i = 0; i < f->n; i++) { MIN.start(i) = gsl_vector_get(x, i); gsl_vector_set(s->x, i, gsl_vector_get(x, i)); } s->fval = f->f(s->x, f->params); return GSL_SUCCESS; }
int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer* s) { if (MIN.next >= MIN.pts.size()) return GSL_SUCCESS; gsl_vector* v = gsl_vector_alloc(MIN.f->n); vec& p = MIN.pts[MIN.next++]; for (size_t i = 0; i < MIN.f->n; i++) gsl_vector_set(v, i, p(i)); double c = MIN.f->f(v, MIN.f->params); if (c < s->fval) { s->fval = c; for (size_t i = 0; i < MIN.f->n; i++) gsl_vector_set(s->x, i, p(i)); } gsl_vector_free(v); return GSL_SUCCESS; }
double gsl_multimin_fminimizer_size(const gsl_multimin_fminimizer*) { return MIN.next < MIN.pts.size() ? 1.0 : 0.0; }
int gsl_multimin_test_size(const double size, double eps) { return size < eps ? GSL_SUCCESS : GSL_CONTINUE; }
}
static mat coords(uword n, uword d) { static const double v[8][3] = {{0, 0, 1}, {3, 2, 5}, {4, 7, 2}, {9, 5, 8}, {11, 1, 4}, {16, 9, 6}, {18, 3, 9}, {25, 6, 3}}; mat c(n, d); for (uword i = 0; i < n; i++) for (uword j = 0; j < d; j++) c(i, j) = v[i][j]; return c; }
static std::vector<SpatialWeight> sws(const std::vector<double>& b, bool ad, int kn) { std::vector<SpatialWeight> r; for (double x : b) { OneDimDistance d; BandwidthWeight w(x, ad, BandwidthWeight::KernelFunctionType(kn)); r.push_back(SpatialWeight(&w, &d)); } return r; }
static double adaptive_bw(const vec& d, double b) { vec s = arma::sort(d); uword n = d.n_elem; return b <= double(n) ? s(uword(b) - 1) : b / double(n) * s(n - 1); }
static mat weights(const mat& P, const std::vector<double>& b, bool ad, int kn) { uword n = P.n_rows; mat W(n, n, arma::fill::ones); for (uword m = 0; m < P.n_cols; m++) for (uword i = 0; i < n; i++) { vec d(n); for (uword j = 0; j < n; j++) { double x = P(i, m) - P(j, m); d(j) = x < 0 ? -x : x; } double w = ad ? adaptive_bw(d, b[m]) : b[m]; for (uword j = 0; j < n; j++) W(j, i) *= ref::kernel(kn, d(j), w); } return W; }
static void check(GWDR& a, const mat& b, const mat& X, const vec& y, const mat& W, const std::string& t = "") {
  uword n = X.n_rows, k = X.n_cols; ref::Gwr g = ref::gwr(X, y, W); if (!shape(b, n, k, t + "coefficients") || !shape(a.betasSE(), n, k, t + "standard errors") || !shape(a.s(), n, n, t + "hat matrix") || !shape(a.qDiag(), n, 1, t + "residual variances")) return; eqm(b, g.beta, t + "coefficients"); eqm(a.betas(), b, t + "stored coefficients"); eqm(a.s(), g.S, t + "hat matrix"); eqm(a.qDiag(), g.q, t + "residual variances"); eq(a.sHat()(0), g.trS, t + "trace of S"); eq(a.sHat()(1), g.trStS, t + "trace of S'S"); double s2 = g.rss / (double(n) - 2 * g.trS + g.trStS); for (uword i = 0; i < n; i++) for (uword p = 0; p < k; p++) eq(a.betasSE()(i, p) * a.betasSE()(i, p), s2 * g.se2(i, p), t + "standard errors"); ref::diag(a.diagnostic(), double(n), g.rss, g.yss, g.trS, g.trStS, t);
}
static void omp(GWDR& a) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); }
static vec ys(uword n) { static const double v[8] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static std::vector<double> bws(uword d, bool ad, uword n) { static const double f[3] = {30, 18, 20}; std::vector<double> b; for (uword i = 0; i < d; i++) b.push_back(ad ? double(n) - (i == 1) + (i == 2) * 2 : f[i]); return b; }
SCENARIO(fit) { sym_opt("ieee", 0); uword n = 6, d = sym_int("dims", 1, 3), k = 1 + sym_int("variables", 0, 1); int kn = 2 + sym_int("kernel", 0, 2), ad = sym_int("adaptive", 0, 1), par = sym_int("par", 0, 1); mat P = coords(n, d), X = design(n, k); auto b = bws(d, ad, n); vec y = sym_vec("y", n, -10, 10); GWDR a(X, y, P, sws(b, ad, kn)); if (par) omp(a); mat r = a.fit(); check(a, r, X, y, weights(P, b, ad, kn)); }
SCENARIO(smooth) { sym_opt("ieee", 0); uword n = 4, d = 2; int kn = sym_int("kernel", 0, 1) * 2; mat P = coords(n, d), X = design(n, 1); vec y = ys(n); y(2) = sym_real("y", -10, 10); P(1, 1) = sym_real("coordinate", 1, 1.75); std::vector<double> b = {16, 8}; mat W = weights(P, b, false, kn); vec e(n); for (uword i = 0; i < n; i++) e(i) = ref::wls(X, y, W.col(i))(0); GWDR a(X, y, P, sws(b, false, kn)); mat r = a.fit(); for (uword i = 0; i < n; i++) eq(r(i, 0), e(i), "coefficients weight every dimension"); }
struct Bw { std::vector<BandwidthWeight> v; std::vector<BandwidthWeight*> p; Bw(const std::vector<double>& b, bool ad, int kn) { for (double x : b) v.emplace_back(x, ad, BandwidthWeight::KernelFunctionType(kn)); for (auto& x : v) p.push_back(&x); } };
static double cv_of(const mat& X, const vec& y, mat W) { double s = 0; for (uword i = 0; i < X.n_rows; i++) { W(i, i) = 0; vec b = ref::wls(X, y, W.col(i)); double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(p); s += (y(i) - f) * (y(i) - f); } return s; }
SCENARIO(scores) { sym_opt("ieee", 0); uword n = 6, d = 1 + sym_int("dims", 0, 1); int par = sym_int("par", 0, 1), ad = sym_int("adaptive", 0, 1), aic = sym_int("criterion", 0, 1), how = sym_int("how", 0, 1); mat P = coords(n, d), X = design(n, 2); vec y = ys(n); y(3) = sym_real("y", -10, 10); y(1) = sym_real("z", -10, 10); auto b = bws(d, ad, n), b0 = b; b0[0] = ad ? 4 : 17; GWDR a(X, y, P, sws(b0, ad, 2)); if (how) a.setBandwidthCriterionType(aic ? GWDR::AIC : GWDR::CV); if (par) omp(a); if (!how) a.setBandwidthCriterionType(aic ? GWDR::AIC : GWDR::CV); a.fit(); Bw w(b, ad, 2); double c = a.bandwidthCriterion(w.p); mat W = weights(P, b, ad, 2); if (aic) { ref::Gwr g = ref::gwr(X, y, W); eq(c, ref::aicc(n, g.rss, g.trS), "AICc score of bandwidths"); } else eq(c, cv_of(X, y, W), "cross-validation score of bandwidths"); }
SCENARIO(sets) { sym_opt("ieee", 0); uword n = 7, d = 2; int par = sym_int("par", 0, 1), global = sym_int("global", 0, 3), ic = sym_int("intercept", 0, 1), set = sym_int("set", 0, 2); static const std::vector<size_t> S[3] = {{1}, {2}, {1, 2}}; mat P = coords(n, d), X = design(n, 3); vec y = ys(n); y(3) = sym_real("y", -10, 10); auto b = bws(d, false, n); if (global == 1) b[1] = 0; if (global == 3) b[0] = 0; GWDR a(X, y, P, sws(b, false, 2), true, ic); if (par) omp(a); if (global == 2) a.setEnableBandwidthOptimize(true); { auto b1 = bws(d, false, n); GWDR t(X, y, P, sws(b1, false, 2)); } for (uword m = 0; m < d; m++) a.spatialWeights()[m].distance()->makeParameter({vec(P.col(m)), vec(P.col(m))});
  double c = 0; a.getCriterion(S[set], c); mat Z(n, S[set].size() + ic); if (ic) Z.col(0) = X.col(0); for (uword q = 0; q < S[set].size(); q++) Z.col(q + ic) = X.col(S[set][q]); mat W = global ? mat(n, n, arma::fill::ones) : weights(P, b, false, 2); ref::Gwr g = ref::gwr(Z, y, W); eq(c, ref::aicc(n, g.rss, g.trS), global ? "score of a set of variables, global" : "score of a set of variables"); }
SCENARIO(singular) { uword n = 5; int par = sym_int("par", 0, 1), what = sym_int("what", 0, 3); mat P = coords(n, 2), X = design(n, 2); vec y = ys(n); y(3) = sym_real("y", -10, 10); std::vector<double> b = {30, 1.5}, g = {30, 18}; GWDR a(X, y, P, sws(what ? g : b, false, 4)); if (par) omp(a); if (what == 0) { ok(throws([&] { a.fit(); }), "a location without unique solution is refused"); return; } a.fit(); Bw w(b, false, 4); if (what < 3) { a.setBandwidthCriterionType(what == 1 ? GWDR::CV : GWDR::AIC); ok(a.bandwidthCriterion(w.p) == DBL_MAX, "bandwidths without local solutions get the worst score"); } else { GWDR c(X, y, P, sws(b, false, 4)); if (par) omp(c); for (uword m = 0; m < 2; m++) c.spatialWeights()[m].distance()->makeParameter({vec(P.col(m)), vec(P.col(m))}); double v = 0; c.getCriterion({1}, v); ok(v == DBL_MAX, "variables without local solutions get the worst score"); } }
SCENARIO(threads) { sym_opt("ieee", 0); uword n = 4; int what = sym_int("what", 0, 4); mat P = coords(n, 2), X = design(n, 2); vec y = ys(n); y(1) = sym_real("y", -2, 2); std::vector<double> b = bws(2, false, n); par_omp_mode(1, 1, 1); par_race_enable(1); GWDR a(X, y, P, sws(b, false, 2), what != 1), s(X, y, P, sws(b, false, 2), what != 1); omp(a); Bw w(b, false, 2); double c = 0, e = 0; if (what < 2) { a.fit(); s.fit(); } else { for (GWDR* q : {&a, &s}) for (uword m = 0; m < 2; m++) q->spatialWeights()[m].distance()->makeParameter({vec(P.col(m)), vec(P.col(m))}); if (what == 4) { a.getCriterion({1}, c); s.getCriterion({1}, e); } else { auto t = what == 2 ? GWDR::CV : GWDR::AIC; a.setBandwidthCriterionType(t); s.setBandwidthCriterionType(t); c = a.bandwidthCriterion(w.p); e = s.bandwidthCriterion(w.p); } } ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); if (what < 2) { eqm(a.betas(), s.betas(), "threads: coefficients"); eqm(a.betasSE(), s.betasSE(), "threads: standard errors"); eqm(a.sHat(), s.sHat(), "threads: traces"); eqm(a.qDiag(), s.qDiag(), "threads: residual variances"); if (!what) eqm(a.s(), s.s(), "threads: hat matrix"); } else eq(c, e, "threads: score"); }
// optimisation: the chosen bandwidths are those of the best visited point; the search starts from the given ones
SCENARIO(optimise) { uword n = 8, d = 2; int ad = sym_int("adaptive", 0, 1), aic = sym_int("criterion", 0, 1), pts = sym_int("points", 0, 2); mat P = coords(n, d), X = design(n, 2); vec y = ys(n); std::vector<double> b = {ad ? 7.0 : 20.0, ad ? 7.0 : 8.0}; static const double F[3][2] = {{22.5, 8.625}, {-17.25, 7.375}, {14.125, -8.5}}, A[3][2] = {{8, 7}, {-7, 8}, {6, -8}}; int order = sym_int("order", 0, 2); MIN.pts.clear(); for (int q = 0; q < pts; q++) { vec p(2); for (int m = 0; m < 2; m++) p(m) = (ad ? A : F)[(q + order) % 3][m] / double(n); MIN.pts.push_back(p); }
  GWDR a(X, y, P, sws(b, ad, 2)); a.setEnableBandwidthOptimize(true); a.setBandwidthCriterionType(aic ? GWDR::AIC : GWDR::CV); mat r = a.fit(); std::vector<double> best = b; Bw w0(b, ad, 2); double bc = a.bandwidthCriterion(w0.p); for (int q = 0; q < pts; q++) { std::vector<double> c(2); for (int m = 0; m < 2; m++) { c[m] = (ad ? A : F)[(q + order) % 3][m]; if (c[m] < 0) c[m] = -c[m]; } Bw w(c, ad, 2); double v = a.bandwidthCriterion(w.p); if (v < bc) { bc = v; best = c; } }
  for (int m = 0; m < 2; m++) { double g = a.spatialWeights()[m].weight<BandwidthWeight>()->bandwidth() - best[m]; ok(g < 1e-9 && g > -1e-9, "the chosen bandwidths are those of the best point visited, starting from the given ones"); } mat W = weights(P, best, ad, 2); ref::Gwr g = ref::gwr(X, y, W); for (uword i = 0; i < n; i++) for (uword p = 0; p < 2; p++) { double e = r(i, p) - g.beta(i, p); ok(e < 1e-6 && e > -1e-6, "coefficients use the chosen bandwidths"); } }
SCENARIO(free) { uword n = 4, d = 1; int ad = 0, kn = 2; mat P = coords(n, d), X = design(n, 1); vec y = ys(n); MIN.pts.clear(); double x = sym_int("negative", 0, 1) ? sym_real("point", -3, -2.5) : sym_real("point", 2.5, 3); vec p(1); p(0) = x; MIN.pts.push_back(p); GWDR a(X, y, P, sws({8.0}, ad, kn)); a.setEnableBandwidthOptimize(true); a.fit(); double got = a.spatialWeights()[0].weight<BandwidthWeight>()->bandwidth(), want = (x < 0 ? -x : x) * double(n); Bw w0({8.0}, ad, kn), w1({want}, ad, kn); double c0 = a.bandwidthCriterion(w0.p), c1 = a.bandwidthCriterion(w1.p); eq(got, c1 < c0 ? want : 8.0, "a visited bandwidth that scores better is chosen, as it is"); }
SCENARIO(valid) { uword n = 4; int d = sym_int("dims", 1, 3), s = sym_int("weights", 0, 3); GWDR a(design(n, 1), ys(n), coords(n, d), sws(std::vector<double>(s, 10), false, 2)); ok(a.isValid() == (d == s), "one weighting scheme per dimension is required"); }
SCENARIO(history) { sym_opt("ieee", 0); uword n = 5; int what = sym_int("what", 0, 2); mat P = coords(n, 2), Q = coords(n, 2), X = design(n, 2); vec y = ys(n); y(2) = sym_real("y", -10, 10); auto b = bws(2, false, n); Q(1, 0) = 5; GWDR a(what == 2 ? design(n, 1) : X, ys(n), what ? P : Q, sws(b, false, 2)); a.fit(); if (what == 1) a.setSpatialWeights(sws(b, false, 2)); a.setIndependentVariables(X); a.setCoords(P); a.setDependentVariable(y); mat r = a.fit(); check(a, r, X, y, weights(P, b, false, 2), "second fit: "); }
SCENARIO(narrow) { uword n = 8, d = 1 + sym_int("dims", 0, 1); int aic = sym_int("criterion", 0, 1), par = sym_int("par", 0, 1), good = sym_int("wide point too", 0, 1); mat P = coords(n, d), X = design(n, 1); vec y = ys(n); MIN.pts.clear(); vec p(d), q(d); p.fill(8.0 / n); q.fill(6.0 / n); p(d - 1) = (sym_int("negative", 0, 1) ? -0.5 : 0.25) / n; MIN.pts.push_back(p); if (good) MIN.pts.push_back(q); GWDR a(X, y, P, sws(std::vector<double>(d, 7), true, 2)); a.setEnableBandwidthOptimize(true); a.setBandwidthCriterionType(aic ? GWDR::AIC : GWDR::CV); if (par) omp(a); a.fit(); double best = 7; if (good) { Bw w0(std::vector<double>(d, 7), true, 2), w1(std::vector<double>(d, 6), true, 2); if (a.bandwidthCriterion(w1.p) < a.bandwidthCriterion(w0.p)) best = 6; } for (uword m = 0; m < d; m++) ok(a.spatialWeights()[m].weight<BandwidthWeight>()->bandwidth() == best, "a visited bandwidth below one neighbour has the worst score"); }
