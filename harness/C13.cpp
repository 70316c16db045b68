// OpenMP fits of geographically weighted regression.
// OPTIONS: race
// BOUNDS: 4..5 observations, 2..3 threads, every contiguous partition of the iterations to the threads and both orders of the threads' work, symbolic responses or weights; singular designs at one point; every access of different threads to one location is checked
#include "ref.h"
using namespace gwm;
static void races() { ok(par_race_count() == 0, std::string("no data race: ") + (par_race_count() ? std::string(par_race_text()).substr(0, std::string(par_race_text()).find(" at ")) : "")); }
static void omp(GWRBasic& a, int t) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); par_race_enable(1); }
SCENARIO(fit) {
  uword n = 4 + sym_int("n", 0, 1), k = 2; int t = sym_int("threads", 1, 3), opt = sym_int("options", 0, 1); par_omp_mode(1, 1, 1); mat X = design(n, k), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100);
  GWRBasic s(X, y, coords2(n), table_sw(W), true, true), p(X, y, coords2(n), table_sw(W), true, true); if (opt) { s.setStoreS(true); s.setStoreC(true); p.setStoreS(true); p.setStoreC(true); } mat b = s.fit(); omp(p, t); mat c = p.fit(); races();
  eqm(c, b, "coefficients"); eqm(p.betasSE(), s.betasSE(), "standard errors"); eqm(p.sHat(), s.sHat(), "traces"); eqm(p.qDiag(), s.qDiag(), "residual variances"); eq(p.diagnostic().RSS, s.diagnostic().RSS, "RSS"); eq(p.diagnostic().AICc, s.diagnostic().AICc, "AICc"); eq(p.diagnostic().EDF, s.diagnostic().EDF, "EDF");
  eqm(p.s(), s.s(), "hat matrix"); ok(p.c().n_slices == s.c().n_slices, "operators"); if (opt && p.c().n_slices == s.c().n_slices) for (uword i = 0; i < s.c().n_slices; i++) eqm(p.c().slice(i), s.c().slice(i), "local coefficient operator"); obs("b", c);
}
SCENARIO(fit_weights) {
  uword n = 4; int t = sym_int("threads", 2, 2); par_omp_mode(1, 1, 1); mat X = design(n, 2), W = weights_fixed(n, n); int f = sym_int("focus", 0, 3); W((f + 1) % n, f) = sym_real("w", 1e-2, 1); vec y = {1, 2, -1, 3};
  GWRBasic s(X, y, coords2(n), table_sw(W), true, true), p(X, y, coords2(n), table_sw(W), true, true); mat b = s.fit(); omp(p, t); mat c = p.fit(); races(); eqm(c, b, "coefficients"); eqm(p.betasSE(), s.betasSE(), "standard errors"); eqm(p.sHat(), s.sHat(), "traces"); eqm(p.qDiag(), s.qDiag(), "residual variances");
}
SCENARIO(predict) {
  uword n = 5; int t = sym_int("threads", 1, 3), m = sym_int("points", 1, 4); par_omp_mode(1, 1, 1); mat p = line(n), X = design(n, 2), q(m, 2, arma::fill::zeros); for (int i = 0; i < m; i++) q(i, 0) = 1 + 4 * i; vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, p, crs_sw(18.0, false, 2), true, true), b(X, y, p, crs_sw(18.0, false, 2), true, true); mat u = a.predict(q); omp(b, t); mat v = b.predict(q); races(); eqm(v, u, "predicted coefficients");
}
SCENARIO(criteria) {
  uword n = 5; int cv = sym_int("cv", 0, 1), kn = sym_int("kernel", 0, 4), t = sym_int("threads", 2, 3), ad = sym_int("adaptive", 0, 1); par_omp_mode(1, 0, 1); mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50); double bw = ad ? 4 : 8;
  GWRBasic a(X, y, p, bw_sw(D, 3.0, ad, kn), true, true), b(X, y, p, bw_sw(D, 3.0, ad, kn), true, true); omp(b, t); a.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC); b.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC); BandwidthWeight w(bw, ad, BandwidthWeight::KernelFunctionType(kn)); double c = 0, d = 0; Status sc = a.getCriterion(&w, c), sd = b.getCriterion(&w, d); races(); ok(sc == sd, "status"); eq(d, c, cv ? "cross-validation score" : "AICc score");
}
SCENARIO(variables) {
  uword n = 6; int ic = sym_int("intercept", 0, 1), set = sym_int("set", 0, 4), t = sym_int("threads", 2, 3); par_omp_mode(1, 0, 1); mat X = design(n, 4), p = line(n), D = dist_line(p, p); if (set == 4) X.col(2) = 2 * X.col(1); vec y = sym_vec("y", n, -50, 50); static const std::vector<size_t> S[5] = {{1}, {2}, {2, 1}, {1, 3}, {1, 2}};
  GWRBasic a(X, y, p, bw_sw(D, 3.0, false, 0), true, ic), b(X, y, p, bw_sw(D, 3.0, false, 0), true, ic); omp(b, t); double c = 0, d = 0; a.getCriterion(S[set], c); b.getCriterion(S[set], d); races(); eq(d, c, "score of a variable set");
}
// a location without a unique solution fails in parallel as it does serially
SCENARIO(singular_predict) {
  uword n = 5; int t = sym_int("threads", 2, 3), far = sym_int("far", 0, 3), m = 3; par_omp_mode(1, 1, 1); mat p = line(n), X = design(n, 2), q(m, 2, arma::fill::zeros); for (int i = 0; i < m; i++) q(i, 0) = i == far ? 1000 : 1 + 4 * i; vec y = {1, 2, -1, 3, 4}; y(2) = sym_real("y", -50, 50);
  GWRBasic a(X, y, p, crs_sw(18.0, false, 2), true, true), b(X, y, p, crs_sw(18.0, false, 2), true, true); bool u = throws([&] { a.predict(q); }); omp(b, t); bool v = throws([&] { b.predict(q); }); races(); ok(u == (far < m), "serial prediction is refused exactly when a location has no solution"); ok(v == u, "threaded prediction is refused as the serial one");
}
SCENARIO(singular_criteria) {
  uword n = 5; int cv = sym_int("cv", 0, 1), t = sym_int("threads", 2, 3); par_omp_mode(1, 0, 1); mat X = design(n, 2), p = line(n); p(sym_int("far", 0, 4), 0) += 1000; mat D = dist_line(p, p); vec y = {1, 2, -1, 3, 4}; y(2) = sym_real("y", -50, 50);
  GWRBasic a(X, y, p, bw_sw(D, 3.0, false, 2), true, true); omp(a, t); a.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC); BandwidthWeight w(20, false, BandwidthWeight::Bisquare); double c = 0; a.getCriterion(&w, c); races(); ok(c == DBL_MAX, "a bandwidth without a local solution gets the worst score");
}
SCENARIO(singular) {
  uword n = 5; int t = sym_int("threads", 2, 3), f = sym_int("focus", 0, 4), what = sym_int("what", 0, 1); par_omp_mode(1, 1, 1); mat X = design(n, 2), W = weights_fixed(n, n); W.col(f).zeros(); W(f, f) = 1; vec y = sym_vec("y", n, -50, 50); GWRBasic a(X, y, coords2(n), table_sw(W), what == 0, true); omp(a, t); ok(throws([&] { a.fit(); }), "the fit is refused"); races();
}
