// Scalable regression: multiscale polynomial kernel over the nearest neighbours, pooled with the global moments.
// BOUNDS: 5..7 observations, 1..2 variables, polynomial degree 0..4; all responses or scale and penalty symbolic; the minimiser of the GNU Scientific Library replaced by one that ends at an arbitrary point
#include "ref.h"
#include "gwmodelpp/GWRScalable.h"
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_errno.h>
using namespace gwm;
static struct Min { gsl_multimin_fminimizer m; gsl_multimin_function* f; std::vector<vec> pts; size_t next; bool accept; std::vector<double> score; } MIN;
extern "C" {
gsl_multimin_fminimizer* gsl_multimin_fminimizer_alloc(const gsl_multimin_fminimizer_type*, size_t n) { MIN.m.x = gsl_vector_alloc(n); MIN.next = 0; MIN.score.clear(); return &MIN.m; }
void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer* s) { gsl_vector_free(s->x); }
int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer* s, gsl_multimin_function* f, const gsl_vector* x, const gsl_vector*) { MIN.f = f; for (size_t i = 0; i < f->n; i++) gsl_vector_set(s->x, i, gsl_vector_get(x, i)); s->fval = MIN.accept ? 1.0 : f->f(s->x, f->params); MIN.score.push_back(s->fval); return GSL_SUCCESS; }
int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer* s) { if (MIN.next >= MIN.pts.size()) return GSL_SUCCESS; gsl_vector* v = gsl_vector_alloc(2); vec& p = MIN.pts[MIN.next++]; for (size_t i = 0; i < 2; i++) gsl_vector_set(v, i, p(i)); double c = MIN.accept ? 1.0 : MIN.f->f(v, MIN.f->params); MIN.score.push_back(c); if (MIN.accept || c < s->fval) { s->fval = c; for (size_t i = 0; i < 2; i++) gsl_vector_set(s->x, i, p(i)); } gsl_vector_free(v); return GSL_SUCCESS; }
double gsl_multimin_fminimizer_size(const gsl_multimin_fminimizer*) { return MIN.next < MIN.pts.size() ? 1.0 : 0.0; }
int gsl_multimin_test_size(const double size, double eps) { return size < eps ? GSL_SUCCESS : GSL_CONTINUE; }
}
static void visit(double b, double a, bool more = false) { MIN.accept = true; MIN.pts.clear(); if (more) MIN.pts.push_back(vec({0.75, 0.25})); MIN.pts.push_back(vec({b, a})); }
static vec ys(uword n) { static const double v[8] = {1, 2.5, 0.5, 3, 2, 1.5, 2.25, 0.75}; vec y(n); for (uword i = 0; i < n; i++) y(i) = v[i]; return y; }
static std::vector<uword> nearest(const vec& d, uword m) { std::vector<uword> o; for (uword t = 0; t < m; t++) { int k = -1; for (uword j = 0; j < d.n_elem; j++) { bool used = false; for (uword q : o) if (q == j) used = true; if (!used && (k < 0 || d(j) < d(k))) k = j; } o.push_back(k); } return o; }
static double med(std::vector<double> v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]); }
// coefficients at the locations whose distances to the data are the columns of D
static mat coef(const mat& D, const mat& X, const vec& y, uword bw, int kernel, int P, double b, double a) {
  uword r = D.n_cols, n = X.n_rows, k = X.n_cols; if (bw >= n) bw = n - 1; std::vector<double> kth; std::vector<std::vector<uword>> nn; for (uword i = 0; i < r; i++) { nn.push_back(nearest(D.col(i), bw)); kth.push_back(D(nn[i][std::min<uword>(bw, 50) - 1], i)); } double band = med(kth) / (kernel ? 3.0 : std::sqrt(3.0)); vec R(P + 1); double s = 0, q = 1; for (int p = 0; p <= P; p++) { q = q * b; R(p) = q; s += q; } for (int p = 0; p <= P; p++) R(p) = R(p) / s;
  mat B(r, k); for (uword i = 0; i < r; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = a; for (uword j : nn[i]) { double u = D(j, i) / band, g = kernel ? std::exp(-u) : std::exp(-u * u), t = R(0); for (int p = 1; p <= P; p++) t += R(p) * std::pow(g, std::pow(2.0, P / 2.0) / std::pow(2.0, p)); w(j) += t; } B.row(i) = ref::wls(X, y, w).t(); } return B;
}
static void make(GWRScalable& a, const mat& X, const vec& y, const mat& c, double bw, int kernel, int P, int crit) { a.setCoords(c); a.setIndependentVariables(X); a.setDependentVariable(y); a.setSpatialWeight(crs_sw(bw, true, kernel)); a.setPolynomial(P); a.setParameterOptimizeCriterion(crit ? GWRScalable::AIC : GWRScalable::CV); }
static void close(const mat& b, const mat& e, const std::string& m) { if (!shape(b, e.n_rows, e.n_cols, m)) return; for (uword i = 0; i < e.n_elem; i++) { double d = b(i) - e(i); ok(d < 1e-6 && d > -1e-6, m); } }
static void rss(GWRScalable& a, const mat& X, const vec& y, const mat& b) { double s = ref::rss_of(X, y, b), d = a.diagnostic().RSS - s; ok(d < 1e-6 && d > -1e-6, "residual sum of squares"); }
SCENARIO(fit) { uword n = 6, k = 1 + sym_int("variables", 0, 1); int P = sym_int("degree", 0, 4), kn = sym_int("kernel", 0, 1), bw = sym_int("neighbours", 3, 8), crit = sym_int("criterion", 0, 1), first = sym_int("more", 0, 1); mat X = design(n, k), p = line(n); vec y = sym_vec("y", n, -10, 10); double b = first ? 1.25 : 0.5, a = first ? 0.25 : 1.5; visit(b, a, first); mat e = coef(dist_line(p, p), X, y, bw, kn, P, b * b, a * a); GWRScalable s; make(s, X, y, p, bw, kn, P, crit); mat r = s.fit(); close(r, e, "coefficients"); close(s.betas(), r, "stored coefficients"); eq(s.scale(), b * b, "scale"); eq(s.penalty(), a * a, "penalty"); rss(s, X, y, r); double d = s.diagnostic().RSquare - (1 - ref::rss_of(X, y, r) / ref::yss_of(y)); eq(s.diagnostic().RSquare * ref::yss_of(y), ref::yss_of(y) - s.diagnostic().RSS, "R2"); (void)d; }
SCENARIO(predict) { uword n = 6, k = 1 + sym_int("variables", 0, 1), r = 1 + sym_int("places", 0, 1) * 7; int P = sym_int("degree", 1, 4), kn = sym_int("kernel", 0, 1), bw = sym_int("neighbours", 3, 7), first = sym_int("fit first", 0, 1); mat X = design(n, k), p = line(n), q(r, 2, arma::fill::zeros); for (uword i = 0; i < r; i++) q(i, 0) = 2.0 + 2.25 * i; vec y = sym_vec("y", n, -10, 10); visit(1.25, 0.5); mat e = coef(dist_line(q, p), X, y, bw, kn, P, 1.5625, 0.25); GWRScalable s; make(s, X, y, p, bw, kn, P, 0); if (first) { s.fit(); visit(1.25, 0.5); } mat b = s.predict(q); close(b, e, "coefficients at new locations"); }
SCENARIO(parameters) { uword n = 5, k = 1; int P = sym_int("degree", 0, 2), where = sym_int("where", 0, 1), kn = sym_int("kernel", 0, 1); mat X = design(n, k), p = line(n); vec y = ys(n); double b = sym_real("scale", 0.5, 2), a = sym_real("penalty", 0.25, 2); visit(b, a); mat D = dist_line(p, p), e = coef(D, X, y, 4, kn, P, b * b, a * a); GWRScalable s; make(s, X, y, p, 4, kn, P, 0); mat r = where ? s.predict(p) : s.fit(); close(r, e, "coefficients, any scale and penalty"); eq(s.scale(), b * b, "scale"); eq(s.penalty(), a * a, "penalty"); }
// leave-one-out style score of given moments
SCENARIO(score) { sym_opt("ieee", 0); uword n = 5, k = 1 + sym_int("variables", 0, 1); int P = sym_int("degree", 0, 3); mat X = design(n, k); vec y = sym_vec("y", n, -10, 10); double b = 1.5, a = 0.5; mat Mx((P + 1) * k * k, n), My((P + 1) * k, n); std::vector<mat> G; for (int p = 0; p <= P; p++) { mat g(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) g(j, i) = i == j ? 0.0 : 1.0 / double(1 + (i * 3 + j * 5 + p * 2) % 7); G.push_back(g); }
  for (uword i = 0; i < n; i++) for (int p = 0; p <= P; p++) for (uword k1 = 0; k1 < k; k1++) { double t = 0; for (uword j = 0; j < n; j++) t += G[p](j, i) * X(j, k1) * y(j); My(p * k + k1, i) = t; for (uword k2 = 0; k2 < k; k2++) { double u = 0; for (uword j = 0; j < n; j++) u += G[p](j, i) * X(j, k1) * X(j, k2); Mx((k1 * (P + 1) + p) * k + k2, i) = u; } }
  double q = 1, sum = 0; vec R(P + 1); for (int p = 0; p <= P; p++) { q *= b * b; R(p) = q; sum += q; } double e = 0; for (uword i = 0; i < n; i++) { vec w(n); for (uword j = 0; j < n; j++) { w(j) = a * a; for (int p = 0; p <= P; p++) w(j) += R(p) / sum * G[p](j, i); } vec be = ref::wls(X, y, w); double f = 0; for (uword c = 0; c < k; c++) f += X(i, c) * be(c); e += (y(i) - f) * (y(i) - f); } eq(GWRScalable::Loocv(vec({b, a}), X, y, P, Mx, My), e, "squared errors of the pooled local fits"); }
SCENARIO(optimise) { uword n = 7; int pts = sym_int("points", 0, 3), order = sym_int("order", 0, 2), crit = sym_int("criterion", 0, 1), where = sym_int("where", 0, 1); static const double T[3][2] = {{1.25, 0.5}, {0.5, 1.5}, {2, 0.125}}; mat X = design(n, 2), p = line(n); vec y = ys(n); y(4) = sym_int("y", -2, 3); MIN.accept = false; MIN.pts.clear(); for (int q = 0; q < pts; q++) MIN.pts.push_back(vec({T[(q + order) % 3][0], T[(q + order) % 3][1]})); GWRScalable s; make(s, X, y, p, 5, 0, 4, crit); mat r = where ? s.predict(p) : s.fit(); double b = 1, a = 0.01, best = MIN.score[0]; for (int q = 0; q < pts; q++) if (MIN.score[q + 1] < best) { best = MIN.score[q + 1]; b = MIN.pts[q](0); a = MIN.pts[q](1); } double d = s.scale() - b * b, c = s.penalty() - a * a; ok(d < 1e-12 && d > -1e-12 && c < 1e-12 && c > -1e-12, "the best visited scale and penalty are used"); eq(s.cv(), best, "reported score"); close(r, coef(dist_line(p, p), X, y, 5, 0, 4, b * b, a * a), "coefficients use the chosen scale and penalty"); }
SCENARIO(again) { uword n = 6; int what = sym_int("what", 0, 5); mat X = design(n, 2), p = line(n), p2 = p; p2(1, 0) = 6; vec y = sym_vec("y", n, -10, 10); GWRScalable s; make(s, what == 1 ? design(n, 1) : X, what == 2 ? ys(n) : y, what == 3 ? p2 : p, what == 4 ? 3 : 8, what == 5, 4, 0); visit(0.5, 0.5); s.fit(); if (what == 0) s.predict(p2); make(s, X, y, p, 4, 0, 3, 0); visit(1.25, 0.5); mat r = s.fit(); close(r, coef(dist_line(p, p), X, y, 4, 0, 3, 1.5625, 0.25), "second fit: coefficients"); rss(s, X, y, r); }
SCENARIO(valid) { int kn = sym_int("kernel", 0, 4), bw = sym_int("bw", 0, 1); GWRScalable s; make(s, design(5, 2), ys(5), line(5), bw * 3, kn, 4, 0); ok(s.isValid() == (kn < 2 && bw), "Gaussian and exponential kernels with positive bandwidths are accepted"); }
// a bandwidth of all the data or more: the second fit of one object equals the first
SCENARIO(wide) { uword n = 5; int bw = sym_int("neighbours", 4, 7), crit = sym_int("criterion", 0, 1), kn = sym_int("kernel", 0, 1); static const double T[3][2] = {{1.25, 0.5}, {0.5, 1.5}, {2, 0.125}}; mat X = design(n, 2), p = line(n); vec y = ys(n); y(4) = sym_int("y", -2, 3); MIN.accept = false; MIN.pts.clear(); for (int q = 0; q < 3; q++) MIN.pts.push_back(vec({T[q][0], T[q][1]})); GWRScalable s; make(s, X, y, p, bw, kn, 2, crit); mat r = s.fit(); double cv = s.cv(), b = s.scale(), a = s.penalty(); mat r2 = s.fit(); eq(s.cv(), cv, "second fit: score"); eq(s.scale(), b, "second fit: scale"); eq(s.penalty(), a, "second fit: penalty"); close(r2, r, "second fit: coefficients"); }
