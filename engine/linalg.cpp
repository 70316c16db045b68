// Exact models of the decompositions Armadillo delegates to LAPACK.
#include "rt_api.h"
#include <cmath>
#include <cstring>
#include <map>
#include <vector>
#include <algorithm>
#include <cstdlib>
typedef std::vector<double> V;
static double add(double a, double b) { return __sym_fadd(a, b); } static double sub(double a, double b) { return __sym_fsub(a, b); }
static double mul(double a, double b) { return __sym_fmul(a, b); } static double dv(double a, double b) { return __sym_fdiv(a, b); }
static bool bad(double v) { return !rt_issym(v) && !std::isfinite(v); }
static bool allconst(const double* a, size_t n) { double o; for (size_t i = 0; i < n; i++) if (!rt_const(a[i], &o)) return false; return true; }
// determinant of the submatrix of rows r.. (in order) and column set mask, Laplace with memo
static double detrec(const V& a, size_t n, size_t row, unsigned mask, std::map<unsigned, double>& memo) {
  if (row == n) return 1.0; auto it = memo.find(mask); if (it != memo.end()) return it->second; double r = 0; int s = 1;
  for (size_t j = 0; j < n; j++) if (mask >> j & 1) { double x = a[row + j * n]; if (!(!rt_issym(x) && x == 0)) { double t = mul(x, detrec(a, n, row + 1, mask & ~(1u << j), memo)); r = s > 0 ? add(r, t) : sub(r, t); } s = -s; }
  memo[mask] = r; return r;
}
static double determinant(const V& a, size_t n) {
  for (double x : a) if (bad(x)) return std::nan("");
  if (allconst(a.data(), n * n) && n > 3) { V m = a; double d = 1; for (size_t c = 0; c < n; c++) { size_t p = c; while (p < n && rt_is_zero(m[p + c * n])) p++; if (p == n) return 0; if (p != c) { for (size_t j = 0; j < n; j++) std::swap(m[p + j * n], m[c + j * n]); d = __sym_fneg(d); } d = mul(d, m[c + c * n]); for (size_t i = c + 1; i < n; i++) { double f = dv(m[i + c * n], m[c + c * n]); if (!rt_issym(f) && f == 0) continue; for (size_t j = c; j < n; j++) m[i + j * n] = sub(m[i + j * n], mul(f, m[c + j * n])); } } return d; }
  if (n > 6) rt_unsupported("symbolic determinant larger than 6");
  std::map<unsigned, double> memo; return detrec(a, n, 0, (1u << n) - 1, memo);
}
static V minorm(const V& a, size_t n, size_t r, size_t c) { V m; m.reserve((n - 1) * (n - 1)); for (size_t j = 0; j < n; j++) if (j != c) for (size_t i = 0; i < n; i++) if (i != r) m.push_back(a[i + j * n]); return m; }
static bool gauss_inv(V a, size_t n, double* out) {
  V e(n * n, 0.0); for (size_t i = 0; i < n; i++) e[i + i * n] = 1;
  for (size_t c = 0; c < n; c++) { size_t p = c; while (p < n && rt_is_zero(a[p + c * n])) p++; if (p == n) return false; if (p != c) for (size_t j = 0; j < n; j++) { std::swap(a[p + j * n], a[c + j * n]); std::swap(e[p + j * n], e[c + j * n]); }
    double f = a[c + c * n]; for (size_t j = 0; j < n; j++) { a[c + j * n] = dv(a[c + j * n], f); e[c + j * n] = dv(e[c + j * n], f); }
    for (size_t i = 0; i < n; i++) if (i != c) { double g = a[i + c * n]; if (!rt_issym(g) && g == 0) continue; for (size_t j = 0; j < n; j++) { a[i + j * n] = sub(a[i + j * n], mul(g, a[c + j * n])); e[i + j * n] = sub(e[i + j * n], mul(g, e[c + j * n])); } } }
  memcpy(out, e.data(), n * n * sizeof(double)); return true;
}
extern "C" int symla_inv(double* p, unsigned long n, int spd) {
  V a(p, p + n * n); for (double x : a) if (bad(x)) { return 0; }
  if (spd) {
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < j; i++) a[i + j * n] = a[j + i * n];  // lower triangle is referenced
    for (size_t k = 1; k <= n; k++) { V m; for (size_t j = 0; j < k; j++) for (size_t i = 0; i < k; i++) m.push_back(a[i + j * n]); double d = determinant(m, k); if (rt_sign(d) <= 0) return 0; }
  }
  if (allconst(p, n * n)) return gauss_inv(a, n, p);
  double d = determinant(a, n); if (!spd && rt_is_zero(d)) return 0;
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double c = n == 1 ? 1.0 : determinant(minorm(a, n, j, i), n - 1); if ((i + j) & 1) c = __sym_fneg(c); p[i + j * n] = dv(c, d); }
  return 1;
}
extern "C" double symla_det(const double* p, unsigned long n) { return determinant(V(p, p + n * n), n); }
extern "C" int symla_logdet(const double* p, unsigned long n, double* val, double* sign) { double d = determinant(V(p, p + n * n), n); int s = rt_sign(d); *sign = s; if (!s) { *val = -INFINITY; return 1; } *val = __sym_log(s > 0 ? d : __sym_fneg(d)); return 1; }
// pseudo-inverse from a full-rank factorisation a = c f
static void pinv(const V& a, size_t n, double* out) {
  V m = a; std::vector<size_t> pv; size_t r = 0;
  for (size_t c = 0; c < n && r < n; c++) { size_t p = r; while (p < n && rt_is_zero(m[p + c * n])) p++; if (p == n) continue; for (size_t j = 0; j < n; j++) std::swap(m[p + j * n], m[r + j * n]); double f = m[r + c * n]; for (size_t j = 0; j < n; j++) m[r + j * n] = dv(m[r + j * n], f); for (size_t i = 0; i < n; i++) if (i != r) { double g = m[i + c * n]; if (!rt_issym(g) && g == 0) continue; for (size_t j = 0; j < n; j++) m[i + j * n] = sub(m[i + j * n], mul(g, m[r + j * n])); } pv.push_back(c); r++; }
  for (size_t i = 0; i < n * n; i++) out[i] = 0; if (!r) return;
  V cc(r * r, 0.0), ff(r * r, 0.0); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) for (size_t k = 0; k < n; k++) { cc[i + j * r] = add(cc[i + j * r], mul(a[k + pv[i] * n], a[k + pv[j] * n])); ff[i + j * r] = add(ff[i + j * r], mul(m[i + k * n], m[j + k * n])); }
  if (!symla_inv(cc.data(), r, 0) || !symla_inv(ff.data(), r, 0)) rt_unsupported("solve(): pseudo-inverse");
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t p = 0; p < r; p++) for (size_t q = 0; q < r; q++) for (size_t t = 0; t < r; t++) s = add(s, mul(mul(m[p + i * n], ff[p + q * r]), mul(cc[q + t * r], a[j + pv[t] * n]))); out[i + j * n] = s; }
}
extern "C" int symla_solve(double* a, double* b, unsigned long n, unsigned long m) {
  for (size_t i = 0; i < n * n; i++) if (bad(a[i])) return 0; 
  for (size_t i = 0; i < n * m; i++) if (bad(b[i])) return 0;
  V a0(a, a + n * n); if (!symla_inv(a, n, 0)) pinv(a0, n, a);   // Armadillo falls back to the least-squares solution of least norm
  V r(n * m, 0.0); for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) { double s = 0; for (size_t k = 0; k < n; k++) s = add(s, mul(a[i + k * n], b[k + j * n])); r[i + j * n] = s; }
  memcpy(b, r.data(), n * m * sizeof(double)); return 1;
}
// concrete SVD: one-sided Jacobi on A (m x n)
static void jacobi(V a, size_t m, size_t n, double* u, double* s, double* v) {
  V w(n * n, 0.0); for (size_t i = 0; i < n; i++) w[i + i * n] = 1;
  for (int sweep = 0; sweep < 60; sweep++) { double off = 0; for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) { double al = 0, be = 0, ga = 0; for (size_t i = 0; i < m; i++) { al += a[i + p * m] * a[i + p * m]; be += a[i + q * m] * a[i + q * m]; ga += a[i + p * m] * a[i + q * m]; } if (std::fabs(ga) <= 1e-300 || std::fabs(ga) <= 1e-17 * std::sqrt(al * be)) continue; off = std::max(off, std::fabs(ga)); double z = (be - al) / (2 * ga), t = (z > 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), sn = c * t; for (size_t i = 0; i < m; i++) { double x = a[i + p * m], y = a[i + q * m]; a[i + p * m] = c * x - sn * y; a[i + q * m] = sn * x + c * y; } for (size_t i = 0; i < n; i++) { double x = w[i + p * n], y = w[i + q * n]; w[i + p * n] = c * x - sn * y; w[i + q * n] = sn * x + c * y; } } if (off == 0) break; }
  std::vector<std::pair<double, size_t>> o; for (size_t j = 0; j < n; j++) { double x = 0; for (size_t i = 0; i < m; i++) x += a[i + j * m] * a[i + j * m]; o.push_back({-std::sqrt(x), j}); } std::sort(o.begin(), o.end());
  size_t k = std::min(m, n); for (size_t j = 0; j < n; j++) { size_t c = o[j].second; if (j < k) s[j] = -o[j].first; if (v) for (size_t i = 0; i < n; i++) v[i + j * n] = w[i + c * n]; if (u && j < k) for (size_t i = 0; i < m; i++) u[i + j * m] = o[j].first != 0 ? a[i + c * m] / -o[j].first : 0; }
}
// eigenvalues (largest first) and unit eigenvectors of [a b; b c]
static void eig2(double a, double b, double c, double* e, double* v) {
  double q = sub(a, c), d = __sym_sqrt(add(mul(q, q), mul(4.0, mul(b, b)))); e[0] = mul(0.5, add(add(a, c), d)); e[1] = mul(0.5, sub(add(a, c), d));
  if (rt_is_zero(b)) { bool f = rt_sign(q) >= 0; e[0] = f ? a : c; e[1] = f ? c : a; v[0] = f; v[1] = !f; v[2] = !f; v[3] = f; return; }
  double t = sub(e[0], a), n = __sym_sqrt(add(mul(b, b), mul(t, t))); v[0] = dv(b, n); v[1] = dv(t, n); v[2] = __sym_fneg(v[1]); v[3] = v[0];
}
extern "C" int symla_eigsym(const double* p, unsigned long n, double* e, double* v) {   // ascending
  for (size_t i = 0; i < n * n; i++) if (bad(p[i])) return 0;
  if (allconst(p, n * n)) { V c(n * n), w(n * n); for (size_t i = 0; i < n * n; i++) rt_const(p[i], &c[i]); for (size_t i = 0; i < n * n; i++) w[i] = i % (n + 1) == 0; 
    for (int sweep = 0; sweep < 100; sweep++) { double off = 0; for (size_t x = 0; x < n; x++) for (size_t y = x + 1; y < n; y++) { double g = c[x + y * n]; if (std::fabs(g) <= 1e-300 || std::fabs(g) <= 1e-18 * (std::fabs(c[x + x * n]) + std::fabs(c[y + y * n]))) continue; off = 1; double z = (c[y + y * n] - c[x + x * n]) / (2 * g), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), co = 1 / std::sqrt(1 + t * t), si = co * t;
        for (size_t i = 0; i < n; i++) { double q = c[i + x * n], r = c[i + y * n]; c[i + x * n] = co * q - si * r; c[i + y * n] = si * q + co * r; } for (size_t i = 0; i < n; i++) { double q = c[x + i * n], r = c[y + i * n]; c[x + i * n] = co * q - si * r; c[y + i * n] = si * q + co * r; } for (size_t i = 0; i < n; i++) { double q = w[i + x * n], r = w[i + y * n]; w[i + x * n] = co * q - si * r; w[i + y * n] = si * q + co * r; } } if (off == 0) break; }
    std::vector<std::pair<double, size_t>> o; for (size_t j = 0; j < n; j++) o.push_back({c[j + j * n], j}); std::sort(o.begin(), o.end()); for (size_t j = 0; j < n; j++) { e[j] = o[j].first; if (v) for (size_t i = 0; i < n; i++) v[i + j * n] = w[i + o[j].second * n]; } return 1; }
  if (n == 1) { e[0] = p[0]; if (v) v[0] = 1; return 1; }
  if (n != 2) rt_unsupported("symbolic eigenvalues of more than two variables");
  double f[2], w[4]; eig2(p[0], p[2], p[3], f, w); for (int j = 0; j < 2; j++) { e[j] = f[1 - j]; if (v) for (int i = 0; i < 2; i++) v[i + 2 * j] = w[i + 2 * (1 - j)]; } return 1;
}
extern "C" void symla_svd(const double* p, unsigned long m, unsigned long n, double* u, double* s, double* v) {
  V a(p, p + m * n); if (allconst(p, m * n)) { V c(m * n); for (size_t i = 0; i < m * n; i++) rt_const(a[i], &c[i]); jacobi(c, m, n, u, s, v); return; }
  size_t k = std::min(m, n);
  // G = A'A
  V g(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double t = 0; for (size_t r = 0; r < m; r++) t = add(t, mul(a[r + i * m], a[r + j * m])); g[i + j * n] = t; }
  if (n == 1) { s[0] = __sym_sqrt(g[0]); if (v) v[0] = 1; if (u) { for (size_t i = 0; i < m * m; i++) u[i] = rt_fresh("svdU", -1, 1); } return; }
  if (n == 2 && m >= 2) {   // closed form
    double e[2], w[4]; eig2(g[0], g[2], g[3], e, w);
    for (int j = 0; j < 2; j++) { s[j] = __sym_sqrt(e[j]); if (v) for (int i = 0; i < 2; i++) v[i + 2 * j] = w[i + 2 * j]; }
    if (u) for (size_t c = 0; c < m; c++) for (size_t i = 0; i < m; i++) { if (c < 2 && !rt_is_zero(s[c])) u[i + c * m] = dv(add(mul(a[i], w[2 * c]), mul(a[i + m], w[1 + 2 * c])), s[c]); else u[i + c * m] = rt_fresh("svdU", -1, 1); }
    return;
  }
  // contract: singular values sorted, nonnegative; V orthogonal; A'A V = V diag(s^2)
  V vv(n * n), ss(n, 0.0);
  for (size_t j = 0; j < n; j++) { ss[j] = j < k ? rt_fresh("svdS", 0, 1e6) : 0.0; for (size_t i = 0; i < n; i++) vv[i + j * n] = rt_fresh("svdV", -1, 1); }
  for (size_t j = 0; j + 1 < k; j++) rt_assume_le(ss[j + 1], ss[j]);
  double fro = 0, tr = 0; for (size_t j = 0; j < n; j++) { fro = add(fro, mul(ss[j], ss[j])); tr = add(tr, g[j + j * n]); } rt_assume_eq(fro, tr);
  if (v) {
    for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { double t = 0; for (size_t r = 0; r < n; r++) t = add(t, mul(vv[r + i * n], vv[r + j * n])); rt_assume_eq(t, i == j ? 1.0 : 0.0); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double t = 0; for (size_t r = 0; r < n; r++) t = add(t, mul(g[i + r * n], vv[r + j * n])); rt_assume_eq(t, mul(mul(ss[j], ss[j]), vv[i + j * n])); }
    memcpy(v, vv.data(), n * n * sizeof(double));
  } else if (n == 2) { double d = determinant(g, 2); rt_assume_eq(mul(mul(ss[0], ss[0]), mul(ss[1], ss[1])), d); }
  for (size_t j = 0; j < k; j++) s[j] = ss[j];
  if (u) for (size_t i = 0; i < m * m; i++) u[i] = rt_fresh("svdU", -1, 1);
}
