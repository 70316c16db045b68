// Generalized linear models: the Poisson and binomial families and the global fit.
// BOUNDS: means above the machine epsilon; 1..4 observations, 1..2 variables, 1..2 reweighting iterations with symbolic responses and regressors; to convergence with chosen responses
#include "ref.h"
#include "gwmodelpp/GeneralizedLinearModel.h"
#include "gwmodelpp/PoissonModel.h"
#include "gwmodelpp/BinomialModel.h"
using namespace gwm;
struct Glm : GeneralizedLinearModel { Glm(int it = 0, double eps = 0) { if (it) { mMaxit = it; mEpsilon = eps; } } };
static double dv(int bin, double y, double m, double w) { if (bin) return 2 * w * ((y != 0 ? y * std::log(y / m) : 0) + (1 - y != 0 ? (1 - y) * std::log((1 - y) / (1 - m)) : 0)); return 2 * w * (y > 0 ? y * std::log(y / m) - (y - m) : m); }
struct R { double dev, null, aic; };
static R glm(int bin, const mat& X, const vec& y, int iters, double eps) {
  uword n = X.n_rows, k = X.n_cols; vec mu(n), eta(n), one(n); one.ones(); R r; double old = 0; for (uword i = 0; i < n; i++) { mu(i) = bin ? (y(i) + 0.5) / 2 : y(i) + 0.1; eta(i) = bin ? std::log(mu(i) / (1 - mu(i))) : std::log(mu(i)); old += dv(bin, y(i), mu(i), 1); }
  for (int t = 0; t < iters; t++) { vec w(n), z(n); for (uword i = 0; i < n; i++) { w(i) = bin ? mu(i) * (1 - mu(i)) : mu(i); z(i) = eta(i) + (y(i) - mu(i)) / w(i); } vec b = ref::wls(X, z, w); r.dev = 0; for (uword i = 0; i < n; i++) { eta(i) = 0; for (uword c = 0; c < k; c++) eta(i) += X(i, c) * b(c); mu(i) = std::exp(eta(i)); if (bin) mu(i) = mu(i) / (1 + mu(i)); else sym_assume(mu(i) > 2.220446e-16); r.dev += dv(bin, y(i), mu(i), 1); } if (eps > 0) { double d = r.dev - old, a = r.dev; if (d < 0) d = -d; if (a < 0) a = -a; d = d / (0.1 + a); sym_assume(d - eps > 1e-9 || eps - d > 1e-9); if (d < eps) break; } old = r.dev; }
  double m = 0; for (uword i = 0; i < n; i++) m += y(i); m /= double(n); r.null = 0; for (uword i = 0; i < n; i++) r.null += dv(bin, y(i), m, 1); double ll = 0; for (uword i = 0; i < n; i++) ll += bin ? y(i) * std::log(mu(i)) + (1 - y(i)) * std::log(1 - mu(i)) : y(i) * std::log(mu(i)) - mu(i) - std::lgamma(y(i) + 1); r.aic = -2 * ll + 2.0 * k; return r;
}
SCENARIO(poisson) { PoissonModel m; vec e = sym_vec("eta", 2, -20, 20), y(2), mu = sym_vec("mu", 2, 0.01, 20), w = sym_vec("w", 2, 0.5, 2); int z = sym_int("zeros", 0, 3); for (uword i = 0; i < 2; i++) y(i) = (z >> i) & 1 ? 0.0 : sym_real(nm("y", i).c_str(), 0.5, 9); m.setY(y); m.setWeight(w); mat li = m.linkinv(e), me = m.muEta(e), lf = m.linkfun(mu), va = m.variance(mu), dr = m.devResids(y, mu, w), n = m.initialize(), ms = m.muStart(); if (!(shape(li, 2, 1, "inverse link") & shape(dr, 2, 1, "deviance residuals") & shape(ms, 2, 1, "start"))) return; double ll = 0; for (uword i = 0; i < 2; i++) { eq(li(i), std::exp(e(i)), "inverse link"); eq(me(i), std::exp(e(i)), "derivative of the inverse link"); eq(lf(i), std::log(mu(i)), "link"); eq(m.linkinv(lf)(i), mu(i), "the links are inverse"); eq(va(i), mu(i), "variance"); eq(dr(i), dv(0, y(i), mu(i), w(i)), "deviance residuals"); eq(ms(i), y(i) + 0.1, "starting mean"); ll += w(i) * (y(i) * std::log(mu(i)) - mu(i) - std::lgamma(y(i) + 1)); } eq(m.aic(y, n, mu, w), -2 * ll, "twice the negative log-likelihood"); ok(m.validmu(mu), "positive means are valid"); vec bad = mu; bad(1) = sym_real("bad", -5, 0); ok(!m.validmu(bad), "other means are not"); }
SCENARIO(binomial) { BinomialModel m; vec e = sym_vec("eta", 2, -20, 20), mu = sym_vec("mu", 2, 0.01, 0.99), w = sym_vec("w", 2, 0.5, 2), y(2); int z = sym_int("values", 0, 8); for (uword i = 0; i < 2; i++) { int q = i ? z / 3 : z % 3; y(i) = q == 2 ? sym_real(nm("y", i).c_str(), 0.05, 0.95) : double(q); } m.setY(y); m.setWeight(w); mat li = m.linkinv(e), me = m.muEta(e), lf = m.linkfun(mu), va = m.variance(mu), dr = m.devResids(y, mu, w), n = m.initialize(), ms = m.muStart(), one = m.devResids(y, mat(1, 1).fill(mu(0)), w); for (uword i = 0; i < 2; i++) { double x = std::exp(e(i)); eq(li(i), x / (1 + x), "inverse link"); eq(me(i), x / ((1 + x) * (1 + x)), "derivative of the inverse link"); eq(lf(i), std::log(mu(i) / (1 - mu(i))), "link"); eq(va(i), mu(i) * (1 - mu(i)), "variance"); eq(dr(i), dv(1, y(i), mu(i), w(i)), "deviance residuals"); eq(one(i), dv(1, y(i), mu(0), w(i)), "deviance residuals of a common mean"); eq(ms(i), (w(i) * y(i) + 0.5) / (w(i) + 1), "starting mean"); eq(m.linkinv(lf)(i), mu(i), "the links are inverse"); } ok(m.validmu(mu), "probabilities are valid"); vec bad = mu; bad(1) = sym_int("side", 0, 1) ? sym_real("bad", -5, 0) : sym_real("bad2", 1, 5); ok(!m.validmu(bad), "other means are not"); }
SCENARIO(steps) { sym_opt("ieee", 0); int bin = sym_int("family", 0, 1), k = 1 + sym_int("variables", 0, 1), it = bin || k == 2 ? 1 : sym_int("steps", 1, 2), n = it == 2 ? 2 + (k == 2) : 4; if (bin) n = 3; mat X = design(n, k); vec y(n); if (bin) { for (int i = 0; i < n; i++) y(i) = 0.5; int at = sym_int("at", 0, 1); y(at) = sym_real("y", 0.0625, 0.9375); y(2) = sym_real("z", 0.0625, 0.9375); } else { for (int i = 0; i < n; i++) y(i) = 1 - 0.1 * X(0, 0); int at = sym_int("at", 0, 1); y(at) = sym_real("y", 0.5, 6); } R r = glm(bin, X, y, it, 0); Glm g(it, 0); g.setX(X); g.setY(y); g.setFamily(bin ? GWRGeneralized::Family::Binomial : GWRGeneralized::Family::Poisson); g.fit(); eq(g.dev(), r.dev, "deviance"); double d = g.nullDev() - r.null; (void)d; eq(g.nullDev(), r.null, "null deviance"); if (!bin) eq(g.aic(), r.aic, "AIC"); }
SCENARIO(converged) { int bin = sym_int("family", 0, 1), k = 1 + sym_int("variables", 0, 1), cut = sym_int("cut", 0, 1), n = 6; mat X = design(n, k); X(0, 0) = sym_int("x", 1, 2); vec y(n); for (int i = 0; i < n; i++) y(i) = bin ? (i * 5 % 3) % 2 : (i * 3) % 4; y(5) = sym_int("y", 0, bin ? 1 : 4); double eps = cut ? sym_real("epsilon", 1e-9, 0.5) : 1e-8; R r = glm(bin, X, y, 25, eps); Glm g(cut ? 25 : 0, eps); g.setX(X); g.setY(y); g.setFamily(bin ? GWRGeneralized::Family::Binomial : GWRGeneralized::Family::Poisson); g.fit(); double d = g.dev() - r.dev; ok(d < 1e-7 && d > -1e-7, "deviance"); d = g.nullDev() - r.null; ok(d < 1e-9 && d > -1e-9, "null deviance"); d = g.aic() - r.aic; ok(d < 1e-7 && d > -1e-7, "AIC"); }

// likelihood of grouped responses: y of m successes, prior weights w
static double prob(double q, int c, int N, double p) { for (int i = 0; i < c; i++) q *= p; for (int i = c; i < N; i++) q *= 1 - p; return q; }
SCENARIO(grouped) { BinomialModel m; uword n = 2; vec y(n), g(n), w(n), mu = sym_vec("mu", n, 0.01, 0.99); int big = sym_int("groups", 0, 1); double ll = 0; for (uword i = 0; i < n; i++) { int size = big ? sym_int(nm("size", i).c_str(), 1, 3) : 1, c = sym_int(nm("successes", i).c_str(), 0, 3), wt = big ? 0 : sym_int(nm("weight", i).c_str(), 0, 3), N = big ? size : wt; if (c > N) return; w(i) = big ? sym_real(nm("w", i).c_str(), 0, 3) : double(wt); g(i) = size; y(i) = N ? double(c) / double(N) : 0; static const double C[4][4] = {{1, 0, 0, 0}, {1, 1, 0, 0}, {1, 2, 1, 0}, {1, 3, 3, 1}}; if (N) ll += w(i) / double(N) * std::log(prob(C[N][c], c, N, mu(i))); } if (big && g(0) == 1 && g(1) == 1) return; m.setY(y); m.setWeight(w); eq(m.aic(y, g, mu, w), -2 * ll, "likelihood of grouped responses"); }
