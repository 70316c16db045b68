// Hat matrix, standard errors and diagnostics of geographically weighted regression.
// BOUNDS: n = 4, k = 2 with all weights of any one focus symbolic in [1e-2,1]; n = 5..6, k = 2..3 with all responses symbolic in [-100,100]; all storage options
#include "ref.h"
using namespace gwm;
static void check(GWRBasic& a, const mat& X, const vec& y, const mat& W, bool full) {
  uword n = X.n_rows, k = X.n_cols; ref::Gwr g = ref::gwr(X, y, W);
  if (!shape(a.sHat(), 2, 1, "traces")) return; eq(a.sHat()(0), g.trS, "trace of S"); eq(a.sHat()(1), g.trStS, "trace of S'S");
  if (!shape(a.qDiag(), n, 1, "residual variances")) return; for (uword i = 0; i < n; i++) eq(a.qDiag()(i), g.q(i), "diagonal of (I-S)'(I-S)");
  if (a.isStoreS()) { if (!shape(a.s(), n, n, "hat matrix")) return; eqm(a.s(), g.S, "hat matrix"); }
  if (a.isStoreC()) { ok(a.c().n_slices == n, "one operator per observation"); if (a.c().n_slices == n) for (uword i = 0; i < n; i++) eqm(a.c().slice(i), g.C.slice(i), "local coefficient operator"); }
  if (!full) return;
  double edf = double(n) - 2 * g.trS + g.trStS; if (!shape(a.betasSE(), n, k, "standard errors")) return;
  for (uword i = 0; i < n; i++) for (uword p = 0; p < k; p++) { le(0.0, a.betasSE()(i, p), "standard errors not negative"); eq(a.betasSE()(i, p) * a.betasSE()(i, p), g.rss / edf * g.se2(i, p), "standard error"); }
  ref::diag(a.diagnostic(), double(n), g.rss, g.yss, g.trS, g.trStS, ""); 
}
SCENARIO(weights) {
  uword n = 4, k = 2; mat X = design(n, k), W = weights_fixed(n, n); int f = sym_int("focus", 0, 3); for (uword i = 0; i < n; i += 2) W(i, f) = sym_real(nm("w", i).c_str(), 1e-2, 1); vec y = {1, 2, -1, 3};
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); a.fit(); check(a, X, y, W, true);
}
SCENARIO(weights_all) {
  uword n = 4, k = 2; mat X = design(n, k), W = weights_fixed(n, n); int f = sym_int("focus", 0, 3); for (uword i = 0; i < n; i++) W(i, f) = sym_real(nm("w", i).c_str(), 1e-2, 1); vec y = {1, 2, -1, 3};
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); a.setStoreC(true); a.fit(); check(a, X, y, W, false);
}
SCENARIO(weights3) {
  uword n = 5, k = 3; mat X = design(n, k), W = weights_fixed(n, n); int f = sym_int("focus", 0, 4); W((f + 1) % n, f) = sym_real("w", 1e-2, 1); vec y = {1, 2, -1, 3, 5};
  GWRBasic a(X, y, coords2(n), table_sw(W), true, true); a.setStoreC(true); a.fit(); check(a, X, y, W, true);
}
SCENARIO(responses) {
  uword n = 5 + sym_int("n", 0, 1), k = 2 + sym_int("k", 0, 1); mat X = design(n, k), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100); int opt = sym_int("options", 0, 3);
  GWRBasic a(X, y, coords2(n), table_sw(W), opt & 1, true); if (opt & 2) { a.setStoreS(true); a.setStoreC(true); } mat b = a.fit(); check(a, X, y, W, true); obs("b", b);
}
// S turns the responses into the fitted values, whatever they are
SCENARIO(projection) {
  uword n = 5; mat X = design(n, 2), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100); GWRBasic a(X, y, coords2(n), table_sw(W), true, true); mat b = a.fit(); mat S = a.s(); double e = 0, t = 0;
  for (uword i = 0; i < n; i++) { double f = 0, s = 0; for (uword p = 0; p < 2; p++) f += X(i, p) * b(i, p); for (uword j = 0; j < n; j++) { s += S(i, j) * y(j); t += S(i, j) * S(i, j); } eq(s, f, "S y are the fitted values"); e += S(i, i); } eq(a.sHat()(0), e, "trace of the stored S"); eq(a.sHat()(1), t, "trace of S'S of the stored S");
}
// scaling the responses scales the residuals; diagnostics after a second fit belong to the second fit
SCENARIO(reuse) {
  uword n = 5; mat X = design(n, 2), W = weights_fixed(n, n); vec y = sym_vec("y", n, -100, 100), z = {1, 2, -1, 3, 5}; GWRBasic a(X, z, coords2(n), table_sw(W), true, true); a.fit(); int what = sym_int("what", 0, 1); mat X2 = what ? design(n, 3) : X; a.setDependentVariable(y); a.setIndependentVariables(X2); a.fit(); check(a, X2, y, W, true);
}
SCENARIO(kernel) {
  uword n = 4; int kn = sym_int("kernel", 0, 1); mat p = line(n), D = dist_line(p, p), X = design(n, 2); vec y = {1, 2, -1, 3}; double b = 6; mat W(n, n); double t = sym_real("d", 1, 10); D(1, 0) = t;
  GWRBasic a(X, y, p, bw_sw(D, b, false, kn), true, true); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) W(j, i) = ref::kernel(kn, D(j, i), b); a.fit(); check(a, X, y, W, true);
}
