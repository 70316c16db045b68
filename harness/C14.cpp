// MPI fits of geographically weighted regression: every worker process runs the real code, the master holds the data.
// BOUNDS: 3..6 observations, 1..4 processes (also more processes than observations), symbolic responses or weights; with 3 processes every order in which the workers' messages arrive; MPI with and without OpenMP inside
#include "ref.h"
using namespace gwm;
static void setup(GWRBasic& a, int r, int np, int mp, const mat& X, const vec& y, const mat& p, const SpatialWeight& sw, bool order = false) {
  if (r == 0) { a.setCoords(p); a.setDependentVariable(y); a.setIndependentVariables(X); }
  a.setSpatialWeight(sw); a.setHasHatMatrix(true); a.setWorkerNum(np); a.setWorkerId(r); a.setParallelType(mp ? ParallelType::MPI_MP : ParallelType::MPI_Serial); if (mp) a.setOmpThreadNum(2); (void)order;
}
static void same(GWRBasic& a, GWRBasic& s, const mat& b, const std::string& m) {
  eqm(b, s.betas(), m + "coefficients returned"); eqm(a.betas(), s.betas(), m + "coefficients"); eqm(a.betasSE(), s.betasSE(), m + "standard errors"); eqm(a.sHat(), s.sHat(), m + "traces"); eqm(a.qDiag(), s.qDiag(), m + "residual variances");
  RegressionDiagnostic d = a.diagnostic(), e = s.diagnostic(); eq(d.RSS, e.RSS, m + "RSS"); eq(d.AIC, e.AIC, m + "AIC"); eq(d.AICc, e.AICc, m + "AICc"); eq(d.ENP, e.ENP, m + "ENP"); eq(d.EDF, e.EDF, m + "EDF"); eq(d.RSquare, e.RSquare, m + "R2"); eq(d.RSquareAdjust, e.RSquareAdjust, m + "adjusted R2");
}
static const char* who(int r) { return r ? "worker: " : "master: "; }
SCENARIO(fit) {
  uword n = 3 + sym_int("n", 0, 3); int np = sym_int("processes", 1, 4), mp = sym_int("omp", 0, 1); par_mpi_mode(0, sym_int("rendezvous", 0, 1)); mat X = design(n, n > 3 ? 2 : 1), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100);
  GWRBasic s(X, y, coords2(n), table_sw(W), true, true); s.fit(); int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, mp, X, y, coords2(n), table_sw(W)); mat b = a.fit(); same(a, s, b, who(r)); }); ok(!dead, "the fit ends on every process");
}
SCENARIO(weights) {
  uword n = 4; int np = sym_int("processes", 2, 3), f = sym_int("focus", 0, 3); mat X = design(n, 2), W = weights_fixed(n, n); W((f + 1) % n, f) = sym_real("w", 1e-2, 1); vec y = {1, 2, -1, 3};
  GWRBasic s(X, y, coords2(n), table_sw(W), true, true); s.fit(); int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, 0, X, y, coords2(n), table_sw(W)); mat b = a.fit(); same(a, s, b, who(r)); }); ok(!dead, "the fit ends on every process");
}
SCENARIO(arrival) {
  uword n = 6; int np = 3, store = sym_int("store", 0, 1); mat X = design(n, 2), p = line(n); vec y = sym_vec("y", n, -100, 100); par_mpi_mode(1, 0); GWRBasic s(X, y, p, crs_sw(18.0, false, 2), true, true); s.fit(); int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, 0, X, y, p, crs_sw(18.0, false, 2)); if (store) { a.setStoreS(true); a.setStoreC(true); } mat b = a.fit(); if (r == 0) same(a, s, b, who(r)); else eqm(b, s.betas(), "worker: coefficients"); }); ok(!dead, "the fit ends on every process");
}
SCENARIO(bandwidth) {
  uword n = 6; int np = sym_int("processes", 2, 4), mp = sym_int("omp", 0, 1), cv = sym_int("cv", 0, 1), kn = sym_int("kernel", 0, 4), ad = sym_int("adaptive", 0, 1); mat X = design(n, 2), p = line(n); vec y = sym_vec("y", n, -50, 50); double bw = ad ? 5 : 14; auto crit = cv ? GWRBasic::CV : GWRBasic::AIC;
  GWRBasic s(X, y, p, crs_sw(18.0, false, kn), true, true); s.setBandwidthSelectionCriterion(crit); s.fit(); BandwidthWeight w(bw, ad, BandwidthWeight::KernelFunctionType(kn)); double c = 0; s.getCriterion(&w, c);
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, mp, X, y, p, crs_sw(18.0, false, kn)); a.setBandwidthSelectionCriterion(crit); a.fit(); BandwidthWeight v(bw, ad, BandwidthWeight::KernelFunctionType(kn)); double d = 0; a.getCriterion(&v, d); eq(d, c, std::string(who(r)) + (cv ? "cross-validation score" : "AICc score")); }); ok(!dead, "the score is known to every process");
}
SCENARIO(variables) {
  uword n = 6; int np = sym_int("processes", 2, 4), mp = sym_int("omp", 0, 1), set = sym_int("set", 0, 3); mat X = design(n, 4), p = line(n), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50); static const std::vector<size_t> S[4] = {{1}, {2}, {2, 1}, {1, 3}};
  GWRBasic s(X, y, p, bw_sw(D, 30.0, false, 0), true, true); s.fit(); double c = 0; s.getCriterion(S[set], c);
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, mp, X, y, p, bw_sw(D, 30.0, false, 0)); a.fit(); double d = 0; a.getCriterion(S[set], d); eq(d, c, std::string(who(r)) + "score of a variable set"); }); ok(!dead, "the score is known to every process");
}
// candidates and locations without a unique local solution
SCENARIO(singular) {
  uword n = 5; int np = sym_int("processes", 1, 3), mp = sym_int("omp", 0, 1), f = sym_int("focus", 0, 4); mat X = design(n, 2), W = weights_fixed(n, n); W.col(f).zeros(); W(f, f) = 1; vec y = sym_vec("y", n, -50, 50); int refused = 0;
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, mp, X, y, coords2(n), table_sw(W)); bool t = throws([&] { a.fit(); }); refused += t; }); ok(!dead, "a fit that fails ends on every process"); if (!dead) ok(refused == np, "the fit is refused on every process");
}
SCENARIO(singular_criterion) {
  uword n = 5; int np = sym_int("processes", 2, 3), what = sym_int("what", 0, 2), mp = sym_int("omp", 0, 1); mat X = design(n, 4), p = {{0.0, 0.0}, {3.0, 0.0}, {5.0, 0.0}, {6.0, 0.0}, {90.0, 0.0}}; int ad = sym_int("at", 0, 1); if (ad) p = arma::flipud(p); X.col(3) = 2 * X.col(1); mat X2 = X.cols(0, 1), D = dist_line(p, p); vec y = sym_vec("y", n, -50, 50);
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, mp, what == 2 ? mat(X.cols(0, 2)) : X2, y, p, bw_sw(D, 200.0, false, 2)); a.setBandwidthSelectionCriterion(what ? GWRBasic::AIC : GWRBasic::CV); a.fit(); double d = 0; if (what == 2) { if (r == 0) a.setIndependentVariables(X); else { mat Z = X; a.setIndependentVariables(Z); } a.getCriterion(std::vector<size_t>{1, 3}, d); } else { BandwidthWeight v(10.0, false, BandwidthWeight::Bisquare); a.getCriterion(&v, d); } ok(d == DBL_MAX, std::string(who(r)) + "a candidate without local solutions gets the worst score"); }); ok(!dead, "a candidate without local solutions does not stop the processes");
}
// selection inside the fit
SCENARIO(autoselect) {
  uword n = 6; int np = sym_int("processes", 2, 3), what = sym_int("what", 0, 1); mat X = design(n, what ? 3 : 2), p = line(n); vec y = {1, 4, -2, 3, 0, 2}; y(3) = sym_real("y3", 2.5, 3.5);
  auto conf = [&](GWRBasic& a) { if (what) { a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(3.0); } else { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(GWRBasic::CV); a.setGoldenLowerBounds(4); a.setGoldenUpperBounds(6); } };
  SpatialWeight sw = what ? crs_sw(30.0, false, 0) : crs_sw(6, true, 1); GWRBasic s(X, y, p, sw, true, true); conf(s); s.fit();
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, 0, X, y, p, sw); conf(a); mat b = a.fit(); if (what) ok(a.selectedVariables() == s.selectedVariables(), std::string(who(r)) + "selected variables"); else eq(a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), s.spatialWeight().weight<BandwidthWeight>()->bandwidth(), std::string(who(r)) + "selected bandwidth"); eqm(b, s.betas(), std::string(who(r)) + "coefficients"); }); ok(!dead, "the selection ends on every process");
}
// one object used with and without MPI
SCENARIO(reuse) {
  uword n = 5; int np = sym_int("processes", 2, 3); mat X = design(n, 2), W = weights_fixed(n, n); vec y = sym_vec("y", n, -50, 50); GWRBasic s(X, y, coords2(n), table_sw(W), true, true); s.fit(); mat sb = s.betas(), ss = s.s();
  int dead = par_mpi_run(np, [&](int r) { GWRBasic a; setup(a, r, np, 0, X, y, coords2(n), table_sw(W)); mat b1 = a.fit(), b2 = a.fit(); eqm(b2, sb, std::string(who(r)) + "a second fit"); same(a, s, b2, who(r)); if (r == 0) { a.setParallelType(ParallelType::SerialOnly); mat b = a.fit(); same(a, s, b, "a serial fit after one with MPI: "); eqm(a.s(), ss, "hat matrix of a serial fit after one with MPI"); } }); ok(!dead, "the fits end on every process");
}
