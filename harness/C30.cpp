// Automatic selection: the model fitted and used afterwards is the one of the settings it reports.
// BOUNDS: 6 observations, 1..4 variables (up to 3 candidates), golden section over adaptive bandwidths 3..6 or fixed ones; one response symbolic where the selection has few outcomes, several data sets elsewhere; one and two threads
#include "ref.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
using namespace gwm;
static vec ys(uword n, int set) { static const double v[3][8] = {{1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}, {4, 1, 3.5, 0.25, 2.75, 6, 1.25, 2}, {0.5, 0.75, 5, 1.5, 4.25, 1, 3, 0.125}}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[set][i]; return y; }
template<class A> static void threads(A& a, int omp) { if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
template<class A> static double bw_of(A& a) { return a.spatialWeight().template weight<BandwidthWeight>()->bandwidth(); }
static void same(const RegressionDiagnostic& a, const RegressionDiagnostic& b) { eq(a.RSS, b.RSS, "residual sum of squares"); eq(a.AICc, b.AICc, "AICc"); eq(a.ENP, b.ENP, "effective parameters"); eq(a.EDF, b.EDF, "degrees of freedom"); eq(a.RSquare, b.RSquare, "R squared"); }
static mat cols(const mat& X, const std::vector<size_t>& v, bool ic) { mat r(X.n_rows, v.size() + ic); if (ic) r.col(0) = X.col(0); for (size_t i = 0; i < v.size(); i++) r.col(i + ic) = X.col(v[i]); return r; }
// variables and bandwidth of basic and robust regression
template<class A> static void basic(bool symbolic) { if (symbolic) sym_opt("ieee", 0); uword n = 6; int vars = sym_int("variables", 0, 1), bw = symbolic ? 0 : sym_int("bandwidth", 0, 1), ad = bw ? sym_int("adaptive", 0, 1) : 0, aic = bw ? sym_int("criterion", 0, 1) : 0, ic = sym_int("intercept", 0, 1), omp = symbolic ? 0 : sym_int("threads", 0, 1), set = symbolic ? 0 : sym_int("data", 0, 2); if (symbolic) vars = 1; mat X = design(n, 3), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}, {20.0, 0.0}}; vec y = ys(n, set); if (symbolic) y(3) = sym_real("y", -10, 10); double thr = symbolic ? 2.0 : 0.5;
  auto conf = [&](A& a, const mat& x, double b) { a.setCoords(p); a.setIndependentVariables(x); a.setDependentVariable(y); a.setHasIntercept(ic); a.setHasHatMatrix(true); a.setSpatialWeight(crs_sw(b, ad, 0)); threads(a, omp); };
  A a; conf(a, X, bw ? 0 : 40); if (vars) { a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(thr); } if (bw) { a.setIsAutoselectBandwidth(true); if (ad) { a.setGoldenLowerBounds(4); a.setGoldenUpperBounds(6); } a.setBandwidthSelectionCriterion(aic ? GWRBasic::AIC : GWRBasic::CV); } mat r = a.fit(); std::vector<size_t> sel = a.selectedVariables(); double b = bw_of(a);
  mat Xs = vars ? cols(X, sel, ic) : X; if (vars) ok(!sel.empty(), "some variables are selected"); eqm(a.independentVariables(), Xs, "variables of the model"); if (bw) { A c; conf(c, Xs, 0); c.setIsAutoselectBandwidth(true); if (ad) { c.setGoldenLowerBounds(4); c.setGoldenUpperBounds(6); } c.setBandwidthSelectionCriterion(aic ? GWRBasic::AIC : GWRBasic::CV); c.fit(); ok(bw_of(c) == b, "the bandwidth is the one of the selected variables"); }
  A e; conf(e, Xs, bw ? b : 40); mat s = e.fit(); eqm(r, s, "coefficients"); eqm(a.betas(), s, "stored coefficients"); eqm(a.betasSE(), e.betasSE(), "standard errors"); eqm(a.sHat(), e.sHat(), "traces"); eqm(a.qDiag(), e.qDiag(), "residual variances"); same(a.diagnostic(), e.diagnostic()); eqm(a.predict(q), e.predict(q), "predictions after the fit"); }
SCENARIO(gwr) { basic<GWRBasic>(false); }
SCENARIO(gwr_symbolic) { basic<GWRBasic>(true); }
SCENARIO(robust) { sym_opt("round", 1); basic<GWRRobust>(false); }
SCENARIO(density) { uword n = 6; int ic = sym_int("intercept", 0, 1), omp = sym_int("threads", 0, 1), symbolic = 0, set = symbolic ? 0 : sym_int("data", 0, 2); mat X = design(n, 3), p = line(n).eval().cols(0, 0); vec y = ys(n, set); if (symbolic) y(3) = sym_real("y", -10, 10); auto conf = [&](GWDR& a, const mat& x) { a.setCoords(p); a.setIndependentVariables(x); a.setDependentVariable(y); a.setHasIntercept(ic); OneDimDistance d; BandwidthWeight w(40, false, BandwidthWeight::Gaussian); a.setSpatialWeights({SpatialWeight(&w, &d)}); threads(a, omp); }; GWDR a; conf(a, X); a.setEnableIndepVarSelect(true); a.setIndepVarSelectThreshold(symbolic ? 2.0 : 0.5); mat r = a.fit(); mat Xs = cols(X, a.selectedVariables(), ic); GWDR e; conf(e, Xs); mat s = e.fit(); eqm(r, s, "coefficients"); eqm(a.betasSE(), e.betasSE(), "standard errors"); eqm(a.sHat(), e.sHat(), "traces"); eqm(a.qDiag(), e.qDiag(), "residual variances"); eqm(a.s(), e.s(), "hat matrix"); same(a.diagnostic(), e.diagnostic()); }
SCENARIO(spacetime) { uword n = 6; int ad = sym_int("adaptive", 0, 1), aic = sym_int("criterion", 0, 1), omp = sym_int("threads", 0, 1), set = sym_int("data", 0, 2); mat X = design(n, 1), p = line(n); vec y = ys(n, set), t = {0, 0, 1, 1, 2, 2}; CRSDistance s; OneDimDistance o; CRSSTDistance d(&s, &o, ad ? 0.5 : 1.0); auto conf = [&](GTWR& a, double b) { a.setCoords(p, t); a.setIndependentVariables(X); a.setDependentVariable(y); BandwidthWeight w(b, ad, BandwidthWeight::Gaussian); a.setSpatialWeight(SpatialWeight(&w, &d)); a.setHasHatMatrix(true); threads(a, omp); }; if (ad) t.zeros(); GTWR a; conf(a, 0); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(aic ? GTWR::BandwidthSelectionCriterionType::AIC : GTWR::BandwidthSelectionCriterionType::CV); mat r = a.fit(); GTWR e; conf(e, bw_of(a)); mat z = e.fit(); eqm(r, z, "coefficients"); eqm(a.betasSE(), e.betasSE(), "standard errors"); eqm(a.sHat(), e.sHat(), "traces"); same(a.diagnostic(), e.diagnostic()); mat q = p; eqm(a.predict(q), e.predict(q), "predictions after the fit"); }
SCENARIO(collinear) { typedef GWRLocalCollinearity L; uword n = 6; int ad = sym_int("adaptive", 0, 1), omp = sym_int("threads", 0, 1), adj = sym_int("adjust", 0, 1), set = sym_int("data", 0, 2); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}, {20.0, 0.0}}; vec y = ys(n, set); auto conf = [&](L& a, double b) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(crs_sw(b, ad, 0)); a.setHasHatMatrix(true); a.setLambdaAdjust(adj); a.setLambda(0.25); a.setCnThresh(20); threads(a, omp); }; L a; conf(a, 0); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(L::CV); mat r = a.fit(); L e; conf(e, bw_of(a)); mat z = e.fit(); eqm(r, z, "coefficients"); same(a.diagnostic(), e.diagnostic()); eqm(a.predict(q), e.predict(q), "predictions after the fit"); }
SCENARIO(generalized) { typedef GWRGeneralized L; uword n = 6; int bin = sym_int("family", 0, 1), ad = sym_int("adaptive", 0, 1), aic = sym_int("criterion", 0, 1), omp = sym_int("threads", 0, 1), set = sym_int("data", 0, 2); static const double V[3][6] = {{1, 0, 1, 1, 0, 1}, {0, 1, 1, 0, 1, 0}, {1, 0, 0, 1, 0, 1}}; mat X = design(n, 1), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}, {20.0, 0.0}}; vec y(n); for (uword i = 0; i < n; i++) y(i) = V[set][i]; auto conf = [&](L& a, double b) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(crs_sw(b, ad, 0)); a.setFamily(bin ? L::Family::Binomial : L::Family::Poisson); a.setMaxiter(2); a.setHasHatMatrix(true); threads(a, omp); }; L a; conf(a, 0); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterionType(aic ? L::AIC : L::CV); mat r = a.fit(); L e; conf(e, bw_of(a)); mat z = e.fit(); eqm(r, z, "coefficients"); eqm(a.predict(q), e.predict(q), "predictions after the fit"); }
