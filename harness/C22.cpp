// Multiscale GWR on several MPI processes.
// BOUNDS: 4..6 observations, 1..2 variables, 1..4 processes, 1..2 back-fitting rounds, one or two symbolic responses; distributed product of matrices with up to 6 rows on 1..4 processes with symbolic entries, every arrival order of messages
#include "ref.h"
#include "gwmodelpp/utils/armampi.h"
using namespace gwm;
typedef GWRMultiscale M; typedef std::vector<M::BandwidthInitilizeType> BI; typedef std::vector<M::BandwidthSelectionCriterionType> BS;
struct Cfg { mat X, D; vec y; std::vector<double> b{32, 16}; int kn = 2, type = 2, rounds = 1; bool hat = true, aic = false; double lo = 16, hi = 16; };
static Cfg basic(uword n, uword k) { Cfg c; c.X = design(n, k); mat p = line(n); c.D = dist_line(p, p); c.y = vec(n); static const double v[6] = {-1, 2.5, 0.5, -3, 2, 1.5}; for (uword i = 0; i < n; i++) c.y(i) = v[i]; c.b.resize(k); return c; }
static void setup(M& a, const Cfg& c, int rank, int np, int mp) {
  uword k = c.X.n_cols; std::vector<SpatialWeight> sw; for (uword i = 0; i < k; i++) sw.push_back(bw_sw(c.D, c.b[i], false, c.kn)); a.setCoords(coords2(c.X.n_rows)); a.setIndependentVariables(c.X); a.setDependentVariable(c.y); a.setSpatialWeights(sw); a.setBandwidthInitilize(BI(k, M::BandwidthInitilizeType(c.type))); a.setBandwidthSelectionApproach(BS(k, c.aic ? M::AIC : M::CV)); a.setPreditorCentered(std::vector<bool>(k, false)); a.setBandwidthSelectThreshold(std::vector<double>(k, 1e-5)); a.setMaxIteration(c.rounds); a.setCriterionThreshold(-1); a.setHasHatMatrix(c.hat); a.setGoldenLowerBounds(c.lo); a.setGoldenUpperBounds(c.hi);
  if (np > 0) { a.setWorkerId(rank); a.setWorkerNum(np); a.setParallelType(mp ? ParallelType::MPI_MP : ParallelType::MPI_Serial); if (mp) a.setOmpThreadNum(2); }
}
static void same(M& a, M& s, const mat& b, const std::string& m) { eqm(b, s.betas(), m + "coefficients"); eqm(a.betas(), s.betas(), m + "stored coefficients"); RegressionDiagnostic p = a.diagnostic(), q = s.diagnostic(); eq(p.RSS, q.RSS, m + "residual sum of squares"); eq(p.ENP, q.ENP, m + "effective parameters"); eq(p.EDF, q.EDF, m + "degrees of freedom"); eq(p.AICc, q.AICc, m + "AICc"); eq(p.RSquare, q.RSquare, m + "R2"); for (uword i = 0; i < s.betas().n_cols; i++) eq(a.spatialWeights()[i].weight<BandwidthWeight>()->bandwidth(), s.spatialWeights()[i].weight<BandwidthWeight>()->bandwidth(), m + "bandwidths"); }
static std::string who(int r) { return r ? "worker: " : "master: "; }
SCENARIO(fit) { sym_opt("ieee", 0); uword n = 4 + sym_int("n", 0, 2); int np = sym_int("processes", 1, 4), mp = sym_int("omp", 0, 1); par_mpi_mode(0, sym_int("rendezvous", 0, 1)); Cfg c = basic(n, 2); c.rounds = n == 4 ? 2 : 1; c.hat = sym_int("hat", 0, 1); c.y(n - 1) = sym_real("y", -10, 10); c.y(1) = sym_real("z", -10, 10); M s; setup(s, c, 0, 0, 0); s.fit(); int dead = par_mpi_run(np, [&](int r) { M a; setup(a, c, r, np, mp); mat b = a.fit(); same(a, s, b, who(r)); }); ok(!dead, "the fit ends on every process"); }
SCENARIO(select) { sym_opt("round", 1); uword n = 5; int np = 2 + sym_int("processes", 0, 1); Cfg c = basic(n, 2); c.kn = 0; c.type = sym_int("init", 0, 1); c.aic = sym_int("criterion", 0, 1); c.hat = false; c.b = {9, 9}; c.lo = 8; c.hi = 8.25; double f = c.aic || c.type == 0 ? sym_int("factor", 1, 2) : sym_real("factor", -8, -0.125); for (uword i = 0; i < n; i++) c.y(i) = c.y(i) * f; M s; setup(s, c, 0, 0, 0); s.fit(); int dead = par_mpi_run(np, [&](int r) { M a; setup(a, c, r, np, 0); mat b = a.fit(); for (uword i = 0; i < n; i++) for (uword p = 0; p < 2; p++) { double d = b(i, p) - s.betas()(i, p), u = f < 0 ? -f : f; ok(d <= 1e-6 * u, who(r) + "coefficients"); ok(d >= -1e-6 * u, who(r) + "coefficients"); } for (uword p = 0; p < 2; p++) { double d = a.spatialWeights()[p].weight<BandwidthWeight>()->bandwidth() - s.spatialWeights()[p].weight<BandwidthWeight>()->bandwidth(); ok(d < 1e-3 && d > -1e-3, who(r) + "selected bandwidths"); } }); ok(!dead, "the selection ends on every process"); }
SCENARIO(fail) { uword n = 4; int np = 1 + sym_int("processes", 0, 2), refused = 0; Cfg c = basic(n, 2); c.X(0, 1) = 0; c.b[1] = 1; c.hat = sym_int("hat", 0, 1); c.y(1) = sym_real("y", -10, 10); int dead = par_mpi_run(np, [&](int r) { M a; setup(a, c, r, np, 0); refused += throws([&] { a.fit(); }); }); ok(!dead, "a fit that fails ends on every process"); if (!dead) ok(refused == np, "the fit is refused on every process"); }
SCENARIO(history) { sym_opt("ieee", 0); uword n = 5; int np = 2; Cfg c = basic(n, 2); c.y(3) = sym_real("y", -10, 10); M s; setup(s, c, 0, 0, 0); s.fit(); int dead = par_mpi_run(np, [&](int r) { M a; setup(a, c, r, np, 0); a.fit(); mat b2 = a.fit(); same(a, s, b2, who(r) + "second fit: "); if (r == 0) { a.setParallelType(ParallelType::SerialOnly); mat b = a.fit(); same(a, s, b, "a serial fit after one with MPI: "); } }); ok(!dead, "the fits end on every process"); }
// distributed product: process r has rows [from, to) of A and B and gets these rows of A B
SCENARIO(product) { uword n = 1 + sym_int("n", 0, 5); int np = sym_int("processes", 1, 4); par_mpi_mode(sym_int("order", 0, 1), sym_int("rendezvous", 0, 1)); uword m = 1 + sym_int("columns", 0, 1), range = n / np + (n % np ? 1 : 0); mat A = sym_mat("a", n, n, -10, 10), B(n, m); for (uword i = 0; i < B.n_elem; i++) B[i] = double(int(i * 7 % 5) - 2); B(n - 1, 0) = sym_real("b", -10, 10); int dead = par_mpi_run(np, [&](int r) { uword from = std::min(uword(r) * range, n), to = std::min(from + range, n); mat a(to - from, n), b(to - from, m), c; for (uword i = from; i < to; i++) { for (uword j = 0; j < n; j++) a(i - from, j) = A(i, j); for (uword j = 0; j < m; j++) b(i - from, j) = B(i, j); } mat_mul_mpi(a, b, c, r, np, range); if (shape(c, to - from, m, who(r) + "product")) for (uword i = from; i < to; i++) for (uword j = 0; j < m; j++) { double s = 0; for (uword q = 0; q < n; q++) s += A(i, q) * B(q, j); eq(c(i - from, j), s, who(r) + "rows of the product"); } }); ok(!dead, "the product ends on every process"); }
