// Textbook reference of geographically weighted regression, in elementary arithmetic only.
#pragma once
#include "common.h"
namespace ref {
inline double det(const mat& a) {
  uword n = a.n_rows; if (n == 1) return a(0, 0); if (n == 2) return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
  double s = 0; for (uword j = 0; j < n; j++) { mat m(n - 1, n - 1); for (uword c = 0, cc = 0; c < n; c++) if (c != j) { for (uword r = 1; r < n; r++) m(r - 1, cc) = a(r, c); cc++; } double t = a(0, j) * det(m); s = j % 2 ? s - t : s + t; } return s;
}
inline mat inv(const mat& a) {   // adjugate over determinant
  uword n = a.n_rows; double d = det(a); mat r(n, n); if (n == 1) { r(0, 0) = 1.0 / d; return r; }
  for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { mat m(n - 1, n - 1); for (uword c = 0, cc = 0; c < n; c++) if (c != i) { for (uword q = 0, qq = 0; q < n; q++) if (q != j) m(qq++, cc) = a(q, c); cc++; } double t = det(m); r(i, j) = ((i + j) % 2 ? -t : t) / d; } return r;
}
inline mat xtwx(const mat& X, const vec& w) { uword k = X.n_cols; mat a(k, k); for (uword p = 0; p < k; p++) for (uword q = 0; q < k; q++) { double s = 0; for (uword i = 0; i < X.n_rows; i++) s += X(i, p) * w(i) * X(i, q); a(p, q) = s; } return a; }
// C = (X'WX)^-1 X'W
inline mat cmat(const mat& X, const vec& w) { mat a = inv(xtwx(X, w)); mat c(X.n_cols, X.n_rows); for (uword p = 0; p < X.n_cols; p++) for (uword i = 0; i < X.n_rows; i++) { double s = 0; for (uword q = 0; q < X.n_cols; q++) s += a(p, q) * X(i, q); c(p, i) = s * w(i); } return c; }
inline vec mv(const mat& a, const vec& y) { vec r(a.n_rows); for (uword i = 0; i < a.n_rows; i++) { double s = 0; for (uword j = 0; j < a.n_cols; j++) s += a(i, j) * y(j); r(i) = s; } return r; }
inline vec wls(const mat& X, const vec& y, const vec& w) { return mv(cmat(X, w), y); }
struct Gwr { mat beta, se2, S; vec q; double trS = 0, trStS = 0, rss = 0, yss = 0; cube C; };
// column i of W holds the weights around observation i
inline Gwr gwr(const mat& X, const vec& y, const mat& W) {
  uword n = X.n_rows, k = X.n_cols; Gwr g; g.beta.set_size(n, k); g.se2.set_size(n, k); g.S.set_size(n, n); g.q.zeros(n); g.C.set_size(k, n, n);
  for (uword i = 0; i < n; i++) { mat c = cmat(X, W.col(i)); g.C.slice(i) = c; vec b = mv(c, y); for (uword p = 0; p < k; p++) { g.beta(i, p) = b(p); double s = 0; for (uword j = 0; j < n; j++) s += c(p, j) * c(p, j); g.se2(i, p) = s; } for (uword j = 0; j < n; j++) { double s = 0; for (uword p = 0; p < k; p++) s += X(i, p) * c(p, j); g.S(i, j) = s; g.trStS += s * s; } g.trS += g.S(i, i); double f = 0; for (uword p = 0; p < k; p++) f += X(i, p) * b(p); g.rss += (y(i) - f) * (y(i) - f); }
  for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) { double e = (i == j ? 1.0 : 0.0) - g.S(i, j); g.q(j) += e * e; }
  double m = 0; for (uword i = 0; i < n; i++) m += y(i); m /= double(n); for (uword i = 0; i < n; i++) g.yss += (y(i) - m) * (y(i) - m); return g;
}
inline double rss_of(const mat& X, const vec& y, const mat& b) { double s = 0; for (uword i = 0; i < X.n_rows; i++) { double f = 0; for (uword p = 0; p < X.n_cols; p++) f += X(i, p) * b(i, p); s += (y(i) - f) * (y(i) - f); } return s; }
inline double aicc(double n, double rss, double trS) { return n * log(rss / n) + n * log(2 * M_PI) + n * ((n + trS) / (n - 2 - trS)); }
inline double aic(double n, double rss, double trS) { return n * log(rss / n) + n * log(2 * M_PI) + n + trS; }
inline double yss_of(const vec& y) { double m = 0, s = 0; for (uword i = 0; i < y.n_elem; i++) m += y(i); m /= double(y.n_elem); for (uword i = 0; i < y.n_elem; i++) s += (y(i) - m) * (y(i) - m); return s; }
// kernels (0 Gaussian, 1 exponential, 2 bisquare, 3 tricube, 4 boxcar)
inline double kernel(int k, double d, double b) { double u = d / b; if (k == 0) return exp(-0.5 * u * u); if (k == 1) return exp(-u); if (!(d < b)) return 0.0; if (k == 2) return (1 - u * u) * (1 - u * u); if (k == 3) return (1 - u * u * u) * (1 - u * u * u) * (1 - u * u * u); return 1.0; }
inline void diag(const gwm::RegressionDiagnostic& d, double n, double rss, double yss, double trS, double trStS, const std::string& m) {
  eq(d.RSS, rss, m + "residual sum of squares"); eq(d.AIC, aic(n, rss, trS), m + "AIC"); eq(d.AICc, aicc(n, rss, trS), m + "AICc"); eq(d.ENP, 2 * trS - trStS, m + "effective number of parameters"); eq(d.EDF, n - 2 * trS + trStS, m + "effective degrees of freedom"); eq(d.RSquare, 1 - rss / yss, m + "R2"); eq(d.RSquareAdjust, 1 - (rss / yss) * (n - 1) / (n - 2 * trS + trStS - 1), m + "adjusted R2");
}
}
static struct RegularMode { RegularMode() { sym_opt("regular", 1); } } regular_mode;
inline bool throws(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return true; } return false; }
inline gwm::SpatialWeight bw_sw(const mat& D, double b, bool adaptive, int kernel) { TableDistance d(D); gwm::BandwidthWeight k(b, adaptive, gwm::BandwidthWeight::KernelFunctionType(kernel)); return gwm::SpatialWeight(&k, &d); }
inline gwm::SpatialWeight crs_sw(double b, bool adaptive, int kernel) { gwm::CRSDistance d(false); gwm::BandwidthWeight k(b, adaptive, gwm::BandwidthWeight::KernelFunctionType(kernel)); return gwm::SpatialWeight(&k, &d); }
// exact integer distances between the points of coords_line
inline mat line(uword n) { static const double v[8] = {0, 3, 4, 9, 11, 16, 18, 25}; mat m(n, 2, arma::fill::zeros); for (uword i = 0; i < n; i++) m(i, 0) = v[i % 8]; return m; }
inline mat dist_line(const mat& f, const mat& p) { mat d(p.n_rows, f.n_rows); for (uword i = 0; i < f.n_rows; i++) for (uword j = 0; j < p.n_rows; j++) { double x = f(i, 0) - p(j, 0); d(j, i) = x < 0 ? -x : x; } return d; }
