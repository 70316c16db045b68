// Cancelling a computation: whatever the moment, it ends without result, and the object stays usable.
// BOUNDS: 4..9 observations, 1..2 variables; every poll of the first run is a possible moment of cancellation; one and two threads
#include "ref.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWRMultiscale.h"
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_errno.h>
using namespace gwm;
// ---- a minimiser that visits given points
static struct Min { gsl_multimin_fminimizer m; gsl_multimin_function* f; double step; size_t left; } MIN;
static void late_step();
extern "C" {
gsl_multimin_fminimizer* gsl_multimin_fminimizer_alloc(const gsl_multimin_fminimizer_type*, size_t n) { MIN.m.x = gsl_vector_alloc(n); MIN.left = 2; return &MIN.m; }
void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer* s) { gsl_vector_free(s->x); }
int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer* s, gsl_multimin_function* f, const gsl_vector* x, const gsl_vector*) { MIN.f = f; for (size_t i = 0; i < f->n; i++) gsl_vector_set(s->x, i, gsl_vector_get(x, i)); s->fval = f->f(s->x, f->params); return GSL_SUCCESS; }
int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer* s) { late_step(); if (!MIN.left) return GSL_SUCCESS; MIN.left--; gsl_vector* v = gsl_vector_alloc(MIN.f->n); for (size_t i = 0; i < MIN.f->n; i++) gsl_vector_set(v, i, gsl_vector_get(s->x, i) * 1.25); double c = MIN.f->f(v, MIN.f->params); if (c < s->fval) { s->fval = c; for (size_t i = 0; i < MIN.f->n; i++) gsl_vector_set(s->x, i, gsl_vector_get(v, i)); } gsl_vector_free(v); return GSL_SUCCESS; }
double gsl_multimin_fminimizer_size(const gsl_multimin_fminimizer*) { return MIN.left ? 1.0 : 0.0; }
int gsl_multimin_test_size(const double size, double eps) { return size < eps ? GSL_SUCCESS : GSL_CONTINUE; }
}
// the telegram asks to stop from poll number `at' on; distances computed afterwards are work that was not stopped
static struct Ctl { int at, polls, late; bool stopped; int calls; } C;
static void late_step() { if (C.stopped) C.late++; }
struct Stop : Logger { bool stop() override { bool s = C.at >= 0 && C.polls >= C.at; C.polls++; if (s) C.stopped = true; return s; } };
template<class D> struct Counted : D { using D::D; Counted() {} Counted(const D& d) : D(d) {} Distance* clone() const override { return new Counted(*this); } vec distance(uword i) override { C.calls++; if (C.stopped) C.late++; return D::distance(i); } };
static SpatialWeight csw(double b, bool ad, int kn) { Counted<CRSDistance> d; BandwidthWeight w(b, ad, BandwidthWeight::KernelFunctionType(kn)); return SpatialWeight(&w, &d); }
static vec ys(uword n) { static const double v[8] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i % 8]; return y; }
template<class A> static void threads(A& a, int omp) { if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
// conf: configures an object; run: computes; res: results to compare
template<class A, class F, class R, class S> static void cancel(F conf, R run, S res) {
  A whole; conf(whole); C = {-1, 0, 0, false, 0}; whole.setTelegram(std::make_unique<Stop>()); run(whole); int total = C.polls; ok(total > 0 && C.calls > 0, "a run asks whether to stop"); ok(whole.status() == Status::Success, "status of a run that was not cancelled"); mat want = res(whole);
  A a; conf(a); int k = sym_int("at", 0, total); C = {k, 0, 0, false, 0}; a.setTelegram(std::make_unique<Stop>()); bool thrown = throws([&] { run(a); }); ok(!thrown, "a cancelled run returns"); ok((a.status() == Status::Terminated) == C.stopped, "the status tells whether the run was cancelled"); ok(C.stopped == (k < total), "the run asks as often as the complete one"); ok(C.late == 0, "no further local computations once cancelled"); if (!C.stopped) eqm(res(a), want, "results of a run that was not cancelled");
  a.setTelegram(std::make_unique<Logger>()); C.stopped = false; conf(a); run(a); ok(a.status() == Status::Success, "status of the run after a cancelled one"); eqm(res(a), want, "results of the run after a cancelled one");
}
SCENARIO(basic) { sym_opt("ieee", 0); uword n = 5; int omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), what = sym_int("what", 0, 1); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}}; vec y = sym_vec("y", n, -10, 10); cancel<GWRBasic>([&](GWRBasic& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(20, false, 2)); a.setHasHatMatrix(hat); threads(a, omp); }, [&](GWRBasic& a) { if (what) a.predict(q); else a.fit(); }, [&](GWRBasic& a) { return a.betas(); }); }
SCENARIO(basic_bandwidth) { uword n = 6; int omp = sym_int("threads", 0, 1), aic = sym_int("criterion", 0, 1); mat X = design(n, 1), p = line(n); vec y = ys(n); cancel<GWRBasic>([&](GWRBasic& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(0, true, 0)); a.setIsAutoselectBandwidth(true); a.setGoldenLowerBounds(3); a.setGoldenUpperBounds(6); a.setBandwidthSelectionCriterion(aic ? GWRBasic::AIC : GWRBasic::CV); threads(a, omp); }, [&](GWRBasic& a) { a.fit(); }, [&](GWRBasic& a) { return a.betas(); }); }
SCENARIO(basic_variables) { uword n = 6; int omp = sym_int("threads", 0, 1); mat X = design(n, 3), p = line(n); vec y = ys(n); cancel<GWRBasic>([&](GWRBasic& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(40, false, 0)); a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(0.5); threads(a, omp); }, [&](GWRBasic& a) { a.fit(); }, [&](GWRBasic& a) { return a.betas(); }); }
SCENARIO(robust) { uword n = 6; int omp = sym_int("threads", 0, 1), filt = sym_int("filtered", 0, 1); mat X = design(n, 2), p = line(n); vec y = ys(n); cancel<GWRRobust>([&](GWRRobust& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(60, false, 0)); a.setFiltered(filt); a.setHasHatMatrix(true); threads(a, omp); }, [&](GWRRobust& a) { a.fit(); }, [&](GWRRobust& a) { return a.betas(); }); }
SCENARIO(summary) { uword n = 5; int omp = sym_int("threads", 0, 1), corr = sym_int("mode", 0, 1), qt = sym_int("quantile", 0, 1); mat X = design(n, 3).eval().cols(1, 2), p = line(n); cancel<GWSS>([&](GWSS& a) { a.setCoords(p); a.setVariables(X); a.setSpatialWeight(csw(20, false, 0)); a.setQuantile(qt); a.setGWSSMode(corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average); threads(a, omp); }, [&](GWSS& a) { a.run(); }, [&](GWSS& a) { return corr ? a.localCorr() : a.localVar(); }); }
SCENARIO(pca) { uword n = 5; mat X = design(n, 3).eval().cols(1, 2), p = line(n); cancel<GWPCA>([&](GWPCA& a) { a.setCoords(p); a.setVariables(X); a.setSpatialWeight(csw(20, false, 0)); a.setKeepComponents(1); }, [&](GWPCA& a) { a.run(); }, [&](GWPCA& a) { return a.localPV(); }); }
SCENARIO(density) { uword n = 6; int omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), vars = sym_int("variables", 0, 1); mat X = design(n, 2 + vars), p = line(n); vec y = ys(n); cancel<GWDR>([&](GWDR& a) { a.setCoords(p.cols(0, 0)); a.setIndependentVariables(X); a.setDependentVariable(y); Counted<OneDimDistance> d; BandwidthWeight w(40, false, BandwidthWeight::Gaussian); a.setSpatialWeights({SpatialWeight(&w, &d)}); a.setHasHatMatrix(hat); if (vars) { a.setEnableIndepVarSelect(true); a.setIndepVarSelectThreshold(0.5); } threads(a, omp); }, [&](GWDR& a) { a.fit(); }, [&](GWDR& a) { return a.betas(); }); }
SCENARIO(spacetime) { uword n = 5; int omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), sel = sym_int("select", 0, 1); mat X = design(n, 1 + !sel), p = line(n); vec y = ys(n), t = {0, 0, 1, 1, 2}; cancel<GTWR>([&](GTWR& a) { a.setCoords(p, t); a.setIndependentVariables(X); a.setDependentVariable(y); CRSDistance s; OneDimDistance o; Counted<CRSSTDistance> d(CRSSTDistance(&s, &o, 1.0)); BandwidthWeight w(sel ? 0 : 40, false, BandwidthWeight::Gaussian); a.setSpatialWeight(SpatialWeight(&w, &d)); a.setHasHatMatrix(hat); if (sel) { a.setIsAutoselectBandwidth(true); } threads(a, omp); }, [&](GTWR& a) { a.fit(); }, [&](GTWR& a) { return a.betas(); }); }
SCENARIO(collinear) { uword n = 5; int omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), what = sym_int("what", 0, 1); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}}; vec y = sym_vec("y", n, -10, 10); typedef GWRLocalCollinearity L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(40, false, 0)); a.setHasHatMatrix(hat); threads(a, omp); }, [&](L& a) { if (what) a.predict(q); else a.fit(); }, [&](L& a) { return a.betas(); }); }
SCENARIO(collinear_bandwidth) { uword n = 5; int omp = sym_int("threads", 0, 1), adj = sym_int("adjust", 0, 1); mat X = design(n, 2), p = line(n); vec y = ys(n); typedef GWRLocalCollinearity L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(30, false, 0)); a.setHasHatMatrix(false); a.setLambdaAdjust(adj); a.setLambda(0.25); a.setCnThresh(20); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(L::CV); threads(a, omp); }, [&](L& a) { a.fit(); }, [&](L& a) { return a.betas(); }); }
SCENARIO(robust_bandwidth) { uword n = 6; int omp = sym_int("threads", 0, 1), vars = sym_int("variables", 0, 1); mat X = design(n, 1 + 2 * vars), p = line(n); vec y = ys(n); cancel<GWRRobust>([&](GWRRobust& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(60 * vars, !vars, 0)); a.setHasHatMatrix(true); if (vars) { a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(0.5); } else { a.setIsAutoselectBandwidth(true); a.setGoldenLowerBounds(4); a.setGoldenUpperBounds(6); a.setBandwidthSelectionCriterion(GWRBasic::CV); } threads(a, omp); }, [&](GWRRobust& a) { a.fit(); }, [&](GWRRobust& a) { return a.betas(); }); }
SCENARIO(robust_predict) { sym_opt("ieee", 0); uword n = 5; int omp = sym_int("threads", 0, 1); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}}; vec y = sym_vec("y", n, -10, 10); cancel<GWRRobust>([&](GWRRobust& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(20, false, 2)); threads(a, omp); }, [&](GWRRobust& a) { a.predict(q); }, [&](GWRRobust& a) { return a.betas(); }); }
SCENARIO(density_bandwidth) { uword n = 6; int omp = sym_int("threads", 0, 1), aic = sym_int("criterion", 0, 1); mat X = design(n, 1), p = line(n); vec y = ys(n); cancel<GWDR>([&](GWDR& a) { a.setCoords(p.cols(0, 0)); a.setIndependentVariables(X); a.setDependentVariable(y); Counted<OneDimDistance> d; BandwidthWeight w(20, false, BandwidthWeight::Gaussian); a.setSpatialWeights({SpatialWeight(&w, &d)}); a.setEnableBandwidthOptimize(true); a.setBandwidthCriterionType(aic ? GWDR::AIC : GWDR::CV); threads(a, omp); }, [&](GWDR& a) { a.fit(); }, [&](GWDR& a) { return a.betas(); }); }
SCENARIO(spacetime_lambda) { uword n = 5; int omp = sym_int("threads", 0, 1); mat X = design(n, 1), p = line(n); vec y = ys(n), t = {0, 0, 1, 1, 2}; cancel<GTWR>([&](GTWR& a) { a.setCoords(p, t); a.setIndependentVariables(X); a.setDependentVariable(y); CRSDistance s; OneDimDistance o; Counted<CRSSTDistance> d(CRSSTDistance(&s, &o, 0.5)); BandwidthWeight w(40, false, BandwidthWeight::Gaussian); a.setSpatialWeight(SpatialWeight(&w, &d)); a.setIsAutoselectLambda(true); threads(a, omp); }, [&](GTWR& a) { a.fit(); }, [&](GTWR& a) { return a.betas(); }); }
SCENARIO(generalized_bandwidth) { uword n = 5; int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), aic = sym_int("criterion", 0, 1); mat X = design(n, 1), p = line(n); vec y = {1, 0, 1, 1, 0}; typedef GWRGeneralized L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(30, false, 0)); a.setFamily(bin ? L::Family::Binomial : L::Family::Poisson); a.setMaxiter(1); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterionType(aic ? L::AIC : L::CV); threads(a, omp); }, [&](L& a) { a.fit(); }, [&](L& a) { return a.betas(); }); }
SCENARIO(scalable) { uword n = 6; int hat = sym_int("hat", 0, 1), what = sym_int("what", 0, 1); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}}; vec y = ys(n); typedef GWRScalable L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(5, true, 0)); a.setPolynomial(2); a.setHasHatMatrix(hat); }, [&](L& a) { if (what) a.predict(q); else a.fit(); }, [&](L& a) { return a.betas(); }); }
SCENARIO(generalized) { uword n = 5; int bin = sym_int("family", 0, 1), omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), what = sym_int("what", 0, 1); mat X = design(n, 2), p = line(n), q = {{1.0, 0.0}, {7.0, 0.0}}; vec y = {1, 0, 1, 1, 0}; typedef GWRGeneralized L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(csw(40, false, 0)); a.setHasHatMatrix(hat); a.setFamily(bin ? L::Family::Binomial : L::Family::Poisson); a.setMaxiter(2); threads(a, omp); }, [&](L& a) { if (what) a.predict(q); else a.fit(); }, [&](L& a) { return a.betas(); }); }
SCENARIO(multiscale) { uword n = 5; int omp = sym_int("threads", 0, 1), hat = sym_int("hat", 0, 1), sel = sym_int("select", 0, 1); mat X = design(n, 2), p = line(n); vec y = ys(n); typedef GWRMultiscale L; cancel<L>([&](L& a) { a.setCoords(p); a.setIndependentVariables(X); a.setDependentVariable(y); std::vector<SpatialWeight> w = {csw(40, false, 0), csw(60, false, 0)}; if (sel) w = {csw(5, true, 0), csw(4, true, 0)}; a.setSpatialWeights(w); auto i = L::BandwidthInitilizeType::Specified; a.setBandwidthInitilize({i, i}); if (sel) { i = L::BandwidthInitilizeType::Initial; a.setBandwidthInitilize({i, i}); } a.setPreditorCentered({false, false}); a.setBandwidthSelectionApproach({L::BandwidthSelectionCriterionType::CV, L::BandwidthSelectionCriterionType::CV}); a.setBandwidthSelectThreshold({1e-3, 1e-3}); a.setHasHatMatrix(hat); a.setMaxIteration(2); a.setCriterionThreshold(1e-3); threads(a, omp); }, [&](L& a) { a.fit(); }, [&](L& a) { return a.betas(); }); }
