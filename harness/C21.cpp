// Multiscale GWR: back-fitting with one bandwidth per variable.
// OPTIONS: race
// BOUNDS: 4..5 observations, 1..3 variables, 1..3 back-fitting rounds with all responses symbolic; selection of bandwidths and stopping with one symbolic response
#include "ref.h"
using namespace gwm;
typedef GWRMultiscale M; typedef std::vector<M::BandwidthInitilizeType> BI; typedef std::vector<M::BandwidthSelectionCriterionType> BS;
static mat dists(uword n) { mat p = line(n); return dist_line(p, p); }
static mat kw(const mat& D, int kn, double b) { mat W(D.n_rows, D.n_cols); for (uword i = 0; i < D.n_elem; i++) W[i] = ref::kernel(kn, D[i], b); return W; }
struct Cfg { mat X; vec y; mat D; double b0; std::vector<double> b; int kn = 2, kn0 = -1; std::vector<bool> center; int type = 2, rounds = 2; bool hat = true; double thr = -1; bool cvr = false; int par = 0; BS crit; };
static std::unique_ptr<M> make(const Cfg& c) {
  uword k = c.X.n_cols; std::vector<SpatialWeight> sw; for (uword i = 0; i < k; i++) sw.push_back(bw_sw(c.D, c.b[i], false, i || c.kn0 < 0 ? c.kn : c.kn0)); std::unique_ptr<M> pa(new M(c.X, c.y, coords2(c.X.n_rows), sw)); M& a = *pa; a.setBandwidthInitilize(BI(k, M::BandwidthInitilizeType(c.type))); a.setBandwidthSelectionApproach(c.crit.size() ? c.crit : BS(k, M::CV)); a.setPreditorCentered(c.center.size() ? c.center : std::vector<bool>(k, false)); a.setBandwidthSelectThreshold(std::vector<double>(k, 1e-5)); a.setMaxIteration(c.rounds); a.setCriterionThreshold(c.thr); a.setCriterionType(c.cvr ? M::CVR : M::dCVR); a.setHasHatMatrix(c.hat); if (c.b0 > 0) { a.setGoldenLowerBounds(c.b0); a.setGoldenUpperBounds(c.b0); } if (c.par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } return pa;
}
struct Out { mat beta; double rss, trS, trStS; int rounds; mat X; };
static Out reference(const Cfg& c, const std::vector<mat>& W, const mat& W0) {
  uword n = c.X.n_rows, k = c.X.n_cols; Out o; o.X = c.X; for (uword p = 1; p < k; p++) if (c.center.size() && c.center[p]) { double s = 0; for (uword i = 0; i < n; i++) s += c.X(i, p); for (uword i = 0; i < n; i++) o.X(i, p) = c.X(i, p) - s / double(n); }
  const mat& X = o.X; ref::Gwr g = ref::gwr(X, c.y, W0); o.beta = g.beta; std::vector<mat> S(k, mat(n, n)); mat T(n, n, arma::fill::zeros); for (uword p = 0; p < k; p++) for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { S[p](i, j) = X(i, p) * g.C(p, j, i); T(i, j) += S[p](i, j); }
  double old = ref::rss_of(X, c.y, o.beta), rss = old; o.rounds = 0;
  for (int it = 0; it < c.rounds; it++) { o.rounds++; for (uword p = 0; p < k; p++) { mat A(n, n); vec part(n); for (uword i = 0; i < n; i++) { part(i) = c.y(i); for (uword q = 0; q < k; q++) if (q != p) part(i) -= X(i, q) * o.beta(i, q); }
      vec nb(n); for (uword i = 0; i < n; i++) { double xx = 0, xy = 0; for (uword j = 0; j < n; j++) { xx += X(j, p) * W[p](j, i) * X(j, p); xy += X(j, p) * W[p](j, i) * part(j); } nb(i) = xy / xx; for (uword j = 0; j < n; j++) A(i, j) = X(i, p) * X(j, p) * W[p](j, i) / xx; } for (uword i = 0; i < n; i++) o.beta(i, p) = nb(i);
      mat R(n, n), N(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) R(i, j) = (i == j ? 1.0 : 0.0) - (T(i, j) - S[p](i, j)); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { double s = 0; for (uword q = 0; q < n; q++) s += A(i, q) * R(q, j); N(i, j) = s; } for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { T(i, j) += N(i, j) - S[p](i, j); S[p](i, j) = N(i, j); } }
    rss = ref::rss_of(X, c.y, o.beta); double d = rss - old; if (d < 0) d = -d; old = rss; if (c.thr >= 0) { if (c.cvr ? !(d > c.thr) : !(d > c.thr * c.thr * rss)) break; } }
  o.rss = rss; o.trS = o.trStS = 0; for (uword i = 0; i < n; i++) { o.trS += T(i, i); for (uword j = 0; j < n; j++) o.trStS += T(i, j) * T(i, j); } return o;
}
static void check(M& a, const mat& b, const Cfg& c, const Out& o, const std::string& m = "") {
  uword n = c.X.n_rows, k = c.X.n_cols; if (!shape(b, n, k, m + "coefficients")) return; eqm(b, o.beta, m + "coefficients of back-fitting"); eqm(a.betas(), b, m + "stored coefficients"); RegressionDiagnostic d = a.diagnostic(); eq(d.RSS, o.rss, m + "residual sum of squares"); double yss = ref::yss_of(c.y), N = double(n); eq(d.RSquare, 1 - o.rss / yss, m + "R2"); if (c.hat) ref::diag(d, N, o.rss, yss, o.trS, o.trStS, m);
}
static std::vector<mat> all(const Cfg& c) { std::vector<mat> W; for (double b : c.b) W.push_back(kw(c.D, c.kn, b)); return W; }
static Cfg basic(uword n, uword k) { Cfg c; c.X = design(n, k); c.D = dists(n); c.b0 = 16; static const double b[3] = {32, 16, 64}; for (uword i = 0; i < k; i++) c.b.push_back(b[i]); c.y = vec(n); static const double v[6] = {1, 2.5, 0.5, 3, 2, 1.5}; for (uword i = 0; i < n; i++) c.y(i) = v[i]; return c; }
SCENARIO(rounds) { sym_opt("ieee", 0); uword n = 4 + sym_int("n", 0, 1), k = 1 + sym_int("variables", 0, 1); Cfg c = basic(n, k); c.rounds = sym_int("rounds", 1, 2); c.hat = sym_int("hat", 0, 1); c.kn = sym_int("kernel", 0, 1) ? 4 : 2; c.type = 2; c.y(n - 1) = sym_real("y", -10, 10); c.y(1) = sym_real("z", -10, 10); auto pa = make(c); M& a = *pa; mat b = a.fit(); check(a, b, c, reference(c, all(c), kw(c.D, c.kn, c.b0))); obs("b", b); }
SCENARIO(centered) { sym_opt("ieee", 0); uword n = 5, k = 3; Cfg c = basic(n, k); c.rounds = 1; c.center = {false, sym_int("c1", 0, 1) != 0, sym_int("c2", 0, 1) != 0}; c.y(2) = sym_real("y", -10, 10); c.y(4) = sym_real("z", -10, 10); auto pa = make(c); M& a = *pa; mat b = a.fit(); check(a, b, c, reference(c, all(c), kw(c.D, c.kn, c.b0))); }
SCENARIO(stop) { sym_opt("ieee", 0); uword n = 4, k = 2; Cfg c = basic(n, k); c.rounds = 3; c.hat = false; c.cvr = sym_int("absolute", 0, 1); c.thr = c.cvr ? 0.125 : 0.25; c.y(2) = sym_real("y", -10, 10); auto pa = make(c); M& a = *pa; mat b = a.fit(); check(a, b, c, reference(c, all(c), kw(c.D, c.kn, c.b0)), "stopping: "); }
// score of one variable's bandwidth
struct Crit : public IBandwidthSelectable { vec x, y; mat D; int kn; bool aic; Status getCriterion(BandwidthWeight* w, double& v) override { uword n = x.n_elem; double s = 0, tr = 0; v = DBL_MAX; for (uword i = 0; i < n; i++) { double xx = 0, xy = 0; for (uword j = 0; j < n; j++) { if (!aic && j == i) continue; double q = ref::kernel(kn, D(j, i), w->bandwidth()); xx += x(j) * q * x(j); xy += x(j) * q * y(j); } if (!(xx > 0)) return Status::Success; double e = y(i) - x(i) * xy / xx; s += e * e; if (aic) tr += x(i) * x(i) * ref::kernel(kn, 0, w->bandwidth()) / xx; } v = aic ? ref::aicc(double(n), s, tr) : s; return Status::Success; } };
static double best(const Crit& c0, double b, double lo, double hi) { Crit c = c0; BandwidthWeight w(b, false, BandwidthWeight::KernelFunctionType(c.kn)); BandwidthSelector s(&w, lo, hi); return s.optimize(&c)->bandwidth(); }
SCENARIO(select) { uword n = 5, k = 2; Cfg c = basic(n, k); c.b0 = 0; c.kn = 0; c.type = sym_int("init", 0, 1); c.rounds = 1; c.hat = false; c.crit = {M::CV, sym_int("criterion", 0, 1) ? M::AIC : M::CV}; auto pa = make(c); M& a = *pa; a.setGoldenLowerBounds(8); a.setGoldenUpperBounds(8.0002); c.y(3) = sym_real("y", 2, 2.5); a.setDependentVariable(c.y); mat b = a.fit();
  GWRBasic g(c.X, c.y, coords2(n), bw_sw(c.D, c.b[0], false, c.kn)); g.setIsAutoselectBandwidth(true); g.setBandwidthSelectionCriterion(GWRBasic::CV); g.setGoldenLowerBounds(8); g.setGoldenUpperBounds(8.0002); mat beta = g.fit(); Crit q; q.D = c.D; q.kn = 0; double bw[2] = {c.b[0], c.b[1]};
  if (c.type == 0) for (uword p = 0; p < k; p++) { q.x = c.X.col(p); q.y = c.y; q.aic = c.crit[p] == M::AIC; bw[p] = best(q, bw[p], 8, 8.0002); }
  for (uword p = 0; p < k; p++) { q.x = c.X.col(p); q.y = vec(n); for (uword i = 0; i < n; i++) { q.y(i) = c.y(i); for (uword r = 0; r < k; r++) if (r != p) q.y(i) -= c.X(i, r) * beta(i, r); } q.aic = c.crit[p] == M::AIC; bw[p] = best(q, bw[p], 8, 8.0002); mat W = kw(c.D, 0, bw[p]); for (uword i = 0; i < n; i++) { double xx = 0, xy = 0; for (uword j = 0; j < n; j++) { xx += c.X(j, p) * W(j, i) * c.X(j, p); xy += c.X(j, p) * W(j, i) * q.y(j); } beta(i, p) = xy / xx; } eq(a.spatialWeights()[p].weight<BandwidthWeight>()->bandwidth(), bw[p], "the selected bandwidth of a variable minimises its own score"); }
  eqm(b, beta, "coefficients use the selected bandwidths"); }
SCENARIO(initial) { sym_opt("round", 1); uword n = 5; Cfg c = basic(n, 2); c.b0 = 0; c.type = 1; c.rounds = 1; c.kn = 0; c.hat = false; double f = sym_real("scale", 0.125, 8); for (uword i = 0; i < n; i++) c.y(i) = c.y(i) * f; auto pa = make(c); M& a = *pa; mat b; ok(!throws([&] { b = a.fit(); }), "an initial bandwidth is refined within the extent of the data"); for (int p = 0; p < 2; p++) { double w = a.spatialWeights()[p].weight<BandwidthWeight>()->bandwidth(); ok(w > 0 && w <= 16, "selected bandwidths lie within the extent of the data"); } }
SCENARIO(threads) { sym_opt("ieee", 0); uword n = 4; Cfg c = basic(n, 2); c.rounds = 1; c.hat = sym_int("hat", 0, 1); c.type = sym_int("init", 0, 1) * 2; c.crit = BS(2, sym_int("criterion", 0, 1) ? M::AIC : M::CV); c.y(1) = sym_real("y", -10, 10); c.par = 1; if (c.type == 0) c.b = {16, 16}; par_omp_mode(1, 1, 1); par_race_enable(1); auto pa = make(c); M& a = *pa; mat b = a.fit(); ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); check(a, b, c, reference(c, all(c), kw(c.D, c.kn, c.b0)), "threads: "); }
SCENARIO(singular) { uword n = 4; Cfg c = basic(n, 2); c.X(0, 1) = 0; c.b[1] = 1; c.rounds = 1; c.hat = sym_int("hat", 0, 1); c.par = sym_int("par", 0, 1); c.y(1) = sym_real("y", -10, 10); auto pa = make(c); M& a = *pa; ok(throws([&] { a.fit(); }), "a variable without local solution is refused"); }
// candidates without local solution are never selected
SCENARIO(reject) { uword n = 6; Cfg c = basic(n, 2); c.type = 0; c.kn = 4; c.kn0 = 0; c.par = sym_int("par", 0, 1); c.rounds = 1; c.hat = false; c.b = {30, 30}; bool aic = sym_int("criterion", 0, 1); c.crit = BS(2, aic ? M::AIC : M::CV); c.b0 = 0; static const double x[6] = {0, -1, 2, -2, 1.5, -1.5}, v[6] = {1, 1.5, 2, 2, 1.75, 1.75}; for (uword i = 0; i < n; i++) { c.X(i, 1) = x[i]; c.y(i) = v[i]; } auto pa = make(c); M& a = *pa; a.setGoldenLowerBounds(0.5); a.setGoldenUpperBounds(aic ? 6 : 9); { sym_opt("round", 1); double f = sym_int("scale", 1, 2); for (uword i = 0; i < n; i++) c.y(i) = c.y(i) * f; } a.setDependentVariable(c.y); mat b; bool t = throws([&] { b = a.fit(); }); ok(!t, "a bandwidth with local solutions is found"); if (!t) { double w = a.spatialWeights()[1].weight<BandwidthWeight>()->bandwidth(); ok(w >= (aic ? 3 : 5), "a bandwidth without local solutions is not selected"); } }
SCENARIO(history) { sym_opt("ieee", 0); uword n = 4; int what = sym_int("what", 0, 2); Cfg c = basic(n, 2), d = c; c.rounds = d.rounds = 1; c.center = d.center = {false, true}; c.y(1) = sym_real("y", -10, 10); if (what == 1) d.hat = false; auto pa = make(d); M& a = *pa; if (what == 2) a.setMaxIteration(3); a.fit(); a.setHasHatMatrix(true); a.setMaxIteration(1); a.setIndependentVariables(c.X); a.setDependentVariable(c.y); mat b = a.fit(); check(a, b, c, reference(c, all(c), kw(c.D, c.kn, c.b0)), "second fit: "); }

// bandwidths are searched within the extent of the data as the variable's own distance measures it
SCENARIO(extents) { uword n = 16; int first = sym_int("first", 0, 1), type = sym_int("type", 0, 1), par = sym_int("par", 0, 1); mat X(n, 2), c(n, 2); vec y(n); double f = 1 + sym_int("scale", 0, 1); for (uword i = 0; i < n; i++) { X(i, 0) = 1; X(i, 1) = double((i * 5) % 7) + 0.5; c(i, 0) = 3 * double(i % 4); c(i, 1) = 4 * double(i / 4); y(i) = (1 + 2 * X(i, 1) + 0.5 * std::sin(double(i * i * 5 + 3 * i + 5))) * f; }
  std::vector<SpatialWeight> sw; double far[2]; for (int m = 0; m < 2; m++) { BandwidthWeight w(8, false, BandwidthWeight::Gaussian); bool euclid = (m == 0) == (first == 0); far[m] = euclid ? 15 : 21; MinkwoskiDistance d(euclid ? 2.0 : 1.0, 0); sw.push_back(SpatialWeight(&w, &d)); }
  M a(X, y, c, sw); a.setHasHatMatrix(false); a.setCriterionType(M::dCVR); a.setCriterionThreshold(1e-3); a.setMaxIteration(2); a.setBandwidthInitilize(BI(2, type ? M::BandwidthInitilizeType::Null : M::BandwidthInitilizeType::Initial)); a.setBandwidthSelectionApproach(BS(2, M::CV)); a.setPreditorCentered({false, false}); a.setBandwidthSelectThreshold({1e-5, 1e-5}); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } a.fit(); double b = a.spatialWeights()[1].weight<BandwidthWeight>()->bandwidth(); ok(b <= far[1], "the search ends at the extent of the variable's own distance"); ok(b > far[1] * 0.9, "the search covers the extent of the variable's own distance"); }
// a bandwidth settled by one fit is selected anew by the next
SCENARIO(reselect) { uword n = 6; int type = sym_int("init", 0, 1), aic = sym_int("criterion", 0, 1), par = sym_int("par", 0, 1); Cfg c = basic(n, 2); c.b0 = 0; c.kn = 0; c.type = type; c.rounds = 2; c.hat = false; c.crit = BS(2, aic ? M::AIC : M::CV); c.par = par; c.b = {8, 8}; Cfg d = c; d.y(3) = -4 + sym_int("y", 0, 1); auto pa = make(c), pf = make(d); for (M* m : {pa.get(), pf.get()}) { m->setGoldenLowerBounds(5); m->setGoldenUpperBounds(16); m->setBandwidthSelectRetryTimes(1); m->setBandwidthSelectThreshold({20, 20}); } std::vector<SpatialWeight> sw = pf->spatialWeights(); M& a = *pa; a.fit(); a.setSpatialWeights(sw); a.setIndependentVariables(d.X); a.setDependentVariable(d.y); mat b = a.fit(), e = pf->fit(); ok(a.bandwidthInitilize() == BI(2, M::BandwidthInitilizeType(type)), "a fit keeps the settings"); for (int p = 0; p < 2; p++) eq(a.spatialWeights()[p].weight<BandwidthWeight>()->bandwidth(), pf->spatialWeights()[p].weight<BandwidthWeight>()->bandwidth(), "second fit: bandwidths"); eqm(b, e, "second fit: coefficients"); }
