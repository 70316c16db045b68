// Helpers shared by the harnesses.
#pragma once
#include "sym.h"
#include "par.h"
#include "gwmodel.h"
#include <vector>
#include <string>
#include <stdexcept>
using arma::mat; using arma::vec; using arma::uword; using arma::uvec; using arma::cube; using arma::rowvec;

// A distance whose columns are given by a matrix (focus -> column).
class TableDistance : public gwm::Distance {
public:
  mat D;
  TableDistance(const mat& d) : D(d) {}
  gwm::Distance* clone() const override { return new TableDistance(*this); }
  gwm::Distance::DistanceType type() override { return gwm::Distance::DistanceType::OneDimDistance; }
  void makeParameter(std::initializer_list<gwm::DistParamVariant>) override {}
  vec distance(uword focus) override { return D.col(focus); }
  double maxDistance() override { double m = 0; for (uword i = 0; i < D.n_elem; i++) if (D[i] > m) m = D[i]; return m; }
  double minDistance() override { double m = DBL_MAX; for (uword i = 0; i < D.n_elem; i++) if (D[i] > 0 && D[i] < m) m = D[i]; return m; }
};
// A weighting scheme that uses the distance values themselves as weights.
class IdentityWeight : public gwm::Weight {
public:
  gwm::Weight* clone() const override { return new IdentityWeight(*this); }
  vec weight(vec d) override { return d; }
};
inline gwm::SpatialWeight table_sw(const mat& w) { TableDistance d(w); IdentityWeight k; return gwm::SpatialWeight(&k, &d); }

inline mat sym_mat(const char* n, uword r, uword c, double lo, double hi) { mat m(r, c); for (uword j = 0; j < c; j++) for (uword i = 0; i < r; i++) m(i, j) = sym_real(nm(n, i, j).c_str(), lo, hi); return m; }
inline vec sym_vec(const char* n, uword r, double lo, double hi) { vec m(r); for (uword i = 0; i < r; i++) m(i) = sym_real(nm(n, i).c_str(), lo, hi); return m; }
inline void eq(double a, double b, const std::string& m) { sym_assert_eq(a, b, m.c_str()); }
inline void le(double a, double b, const std::string& m) { sym_assert_le(a, b, m.c_str()); }
inline void lt(double a, double b, const std::string& m) { sym_assert_lt(a, b, m.c_str()); }
inline void ok(bool c, const std::string& m) { sym_assert(c, m.c_str()); }
inline bool ok2(bool c, const std::string& m) { ok(c, m); return c; }
inline void eqm(const mat& a, const mat& b, const std::string& m) {
  if (a.n_rows != b.n_rows || a.n_cols != b.n_cols) { ok(false, m + ": shape"); return; }
  for (uword j = 0; j < a.n_cols; j++) for (uword i = 0; i < a.n_rows; i++) eq(a(i, j), b(i, j), m);
}
inline void obs(const char* n, const mat& m) { for (uword i = 0; i < m.n_elem; i++) sym_observe((std::string(n) + std::to_string(i)).c_str(), m[i]); }
inline bool shape(const mat& a, uword r, uword c, const std::string& m) { bool g = a.n_rows == r && a.n_cols == c; ok(g, m + ": shape"); return g; }
// weighted least squares residual of the normal equations  X'W(y - X b) = 0
inline void normal_eq(const mat& X, const vec& y, const vec& w, const vec& b, const std::string& m) {
  for (uword k = 0; k < X.n_cols; k++) {
    double l = 0, r = 0; for (uword i = 0; i < X.n_rows; i++) { double f = 0; for (uword j = 0; j < X.n_cols; j++) f += X(i, j) * b(j); l += X(i, k) * w(i) * y(i); r += X(i, k) * w(i) * f; }
    eq(r, l, m);
  }
}
// small fixed design: intercept and a regressor in general position
inline mat design(uword n, uword k) { mat X(n, k); static const double v[8][4] = {{1, 2, -1, 0.5}, {1, -1, 3, 1}, {1, 4, 1, -2}, {1, 0.5, -2, 3}, {1, 3, 2, 1.5}, {1, -2, 0.5, 2}, {1, 1.5, -3, -1}, {1, -3, 1.5, 0.25}}; for (uword i = 0; i < n; i++) for (uword j = 0; j < k; j++) X(i, j) = v[i % 8][j % 4]; return X; }
inline mat coords2(uword n) { static const double c[8][2] = {{0, 0}, {3, 4}, {-4, 3}, {8, 6}, {5, 12}, {-3, -4}, {6, -8}, {-12, 5}}; mat m(n, 2); for (uword i = 0; i < n; i++) { m(i, 0) = c[i % 8][0]; m(i, 1) = c[i % 8][1]; } return m; }
// concrete positive weights (column = focus)
inline mat weights_fixed(uword n, uword r) { mat w(n, r); for (uword j = 0; j < r; j++) for (uword i = 0; i < n; i++) w(i, j) = i == j ? 1.0 : 1.0 / double(1u << ((i * 3 + j * 5) % 4)); return w; }
