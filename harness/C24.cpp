// Discriminant analysis: leave-one-out local classification.
// OPTIONS: race
// BOUNDS: 6..9 observations in 2..3 classes, 2 variables; one or two values symbolic, concrete weights
#include "ref.h"
#include "gwmodelpp/GWDA.h"
using namespace gwm;
typedef std::vector<std::string> Ys;
static mat data(uword n) { static const double v[9][2] = {{1, 2}, {3, 1}, {2, 4}, {5, 3}, {6, 7}, {8, 6}, {7, 9}, {9, 8}, {4, 8}}; mat x(n, 2); for (uword i = 0; i < n; i++) { x(i, 0) = v[i][0]; x(i, 1) = v[i][1]; } return x; }
static Ys groups(uword n, int m) { static const char* const v[4][9] = {{"a", "a", "a", "a", "b", "b", "b", "b", "a"}, {"b", "a", "b", "a", "b", "a", "b", "a", "b"}, {"x", "x", "y", "y", "z", "z", "x", "y", "z"}, {"a", "b", "b", "a", "a", "b", "a", "b", "b"}}; Ys y; for (uword i = 0; i < n; i++) y.push_back(v[m][i]); return y; }
static mat wts(uword n) { mat w(n, n); for (uword j = 0; j < n; j++) for (uword i = 0; i < n; i++) w(i, j) = i == j ? 1.0 : 1.0 / double(1 + (i * 3 + j * 5) % 4); return w; }
struct Ref { std::vector<std::string> lev; mat half, lp; bool regular = true; };   // half Mahalanobis distance, log prior odds; covariances (location, ., .) by class
static Ref reference(const mat& X, const Ys& y, mat W, bool qda, bool gc, bool gm, bool gp) {
  uword n = X.n_rows; Ref r; for (auto& s : y) if (std::find(r.lev.begin(), r.lev.end(), s) == r.lev.end()) r.lev.push_back(s); uword m = r.lev.size(); for (uword i = 0; i < n; i++) W(i, i) = 0; mat O(n, n, arma::fill::ones); r.half.set_size(n, m); r.lp.set_size(n, m);
  for (uword j = 0; j < n; j++) { std::vector<vec> mu(m); std::vector<mat> S(m); mat pool(2, 2, arma::fill::zeros);
    for (uword g = 0; g < m; g++) { double sw = 0, sc = 0, sc2 = 0, sp = 0, cnt = 0; vec u(2, arma::fill::zeros), v(2, arma::fill::zeros); for (uword i = 0; i < n; i++) if (y[i] == r.lev[g]) { double wm = (gm ? O : W)(i, j), wc = (gc ? O : W)(i, j); sw += wm; sc += wc; sc2 += wc * wc; sp += (gp ? O : W)(i, j); cnt += 1; for (uword p = 0; p < 2; p++) { u(p) += wm * X(i, p); v(p) += wc * X(i, p); } } for (uword p = 0; p < 2; p++) { u(p) /= sw; v(p) /= sc; } mat c(2, 2); for (uword p = 0; p < 2; p++) for (uword q = 0; q < 2; q++) { double s = 0; for (uword i = 0; i < n; i++) if (y[i] == r.lev[g]) s += (gc ? O : W)(i, j) * (X(i, p) - v(p)) * (X(i, q) - v(q)); c(p, q) = s * sc / (sc * sc - sc2); } mu[g] = u; S[g] = c; r.lp(j, g) = sp; for (uword p = 0; p < 2; p++) for (uword q = 0; q < 2; q++) pool(p, q) += cnt / double(n) * c(p, q); }
    for (uword g = 0; g < m; g++) { mat b = qda ? S[g] : pool; if (!(ref::det(b) > 1e-6)) { r.regular = false; return r; } mat a = ref::inv(b); double s = 0; for (uword p = 0; p < 2; p++) for (uword q = 0; q < 2; q++) s += (X(j, p) - mu[g](p)) * a(p, q) * (X(j, q) - mu[g](q)); r.half(j, g) = 0.5 * s; }
  } return r;
}
static void make(GWDA& a, const mat& X, Ys y, const mat& W, bool qda, int flags, int par) { a.setCoords(line(X.n_rows)); a.setVariables(X); a.setGroup(y); a.setSpatialWeight(table_sw(W)); a.setIsWqda(qda); a.setHascov(!(flags & 1)); a.setHasmean(!(flags & 2)); a.setHasprior(!(flags & 4)); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(2); } }
static void derived(GWDA& a, const Ys& y, const Ref& r, bool ent = true) {
  uword n = y.size(), m = r.lev.size(); const mat& res = a.res(); if (!shape(res, n, m, "scores") || !shape(a.probs(), n, m, "probabilities") || !shape(a.pmax(), n, 1, "largest probability") || !shape(a.entropy(), n, 1, "entropy")) return; ok(a.group().size() == n, "one class per location"); double right = 0;
  for (uword i = 0; i < n; i++) { uword g = 0; while (g < m && r.lev[g] != a.group()[i]) g++; ok(g < m, "a known class is assigned"); if (g == m) return; if (a.group()[i] == y[i]) right += 1; double tot = 0; for (uword q = 0; q < m; q++) { le(res(i, g), res(i, q), "the class with the best score is assigned"); le(a.probs()(i, q), a.probs()(i, g), "the assigned class is the most probable one"); eq(a.probs()(i, q) * exp(res(i, g) - res(i, g)), a.probs()(i, g) * exp(res(i, g) - res(i, q)), "probabilities are in the ratio of the scores"); tot += a.probs()(i, q); } eq(tot, 1.0, "probabilities sum to one"); eq(a.pmax()(i, 0), a.probs()(i, g), "largest probability");
    if (ent) { double e = 0; for (uword q = 0; q < m; q++) { double p = a.probs()(i, q); if (p > 0) e -= log2(p) * p; } double d = a.entropy()(i, 0) - e / log2(double(m)); ok(d < 1e-9 && d > -1e-9, "entropy relative to that of equal probabilities"); } }
  double d = a.correctRate() - right / double(n); ok(d < 1e-12 && d > -1e-12, "share of observations assigned to their own class");
}
static void lda(GWDA& a, const Ref& r, const std::string& t = "") { uword n = r.half.n_rows, m = r.lev.size(); if (!shape(a.res(), n, m, t + "scores")) return; for (uword j = 0; j < n; j++) for (uword g = 1; g < m; g++) eq(a.res()(j, g) - a.res()(j, 0), r.half(j, g) - r.half(j, 0) - log(r.lp(j, g)) + log(r.lp(j, 0)), t + "difference of two classes' scores"); }
SCENARIO(linear) { sym_opt("ieee", 0); int m = sym_int("groups", 0, 2), flags = sym_int("global", 0, 7), par = flags == 0 ? sym_int("par", 0, 1) : flags & 1; if (m == 2 && flags) return; uword n = m == 2 ? 9 : 6; mat X = data(n), W = wts(n); Ys y = groups(n, m); if (m == 0) y[1] = "b"; double d = sym_real("s", -2, 2); for (uword i = 0; i < n; i++) if (y[i] == y[0]) { X(i, 0) = X(i, 0) + d; X(i, 1) = X(i, 1) - 0.25 * d; } Ref r = reference(X, y, W, false, flags & 1, flags & 2, flags & 4); if (!r.regular) return; GWDA a; make(a, X, y, W, false, flags, par); a.run(); lda(a, r); }
// quadratic: the part of a score that is neither distance nor prior depends on the spread of the class alone
SCENARIO(quadratic) { sym_opt("ieee", 0); int m = sym_int("groups", 0, 1), flags = sym_int("global", 0, 7), par = flags == 0 ? sym_int("par", 0, 1) : flags & 1, shift = sym_int("shift", 0, 1); uword n = 8; mat X = data(n), W = wts(n), Z; Ys y = groups(n, m ? 3 : 0); Z = X; double d0 = sym_real("s0", -2, 2), d1 = (m ? -0.5 : 0.75) * d0; for (uword i = 0; i < n; i++) if (y[i] == (shift ? "b" : "a")) { Z(i, 0) = X(i, 0) + d0; Z(i, 1) = X(i, 1) + d1; } Ref r = reference(X, y, W, true, flags & 1, flags & 2, flags & 4), s = reference(Z, y, W, true, flags & 1, flags & 2, flags & 4); GWDA a, b; make(a, X, y, W, true, flags, par); make(b, Z, y, W, true, flags, par); a.run(); b.run(); if (!shape(a.res(), n, 2, "scores") || !shape(b.res(), n, 2, "scores")) return; for (uword j = 0; j < n; j++) for (uword g = 0; g < 2; g++) eq(b.res()(j, g) - a.res()(j, g), s.half(j, g) - r.half(j, g), "scores change with the distances to the class means"); }
SCENARIO(weights) { sym_opt("ieee", 0); int flags = sym_int("global", 0, 1) * 4, qda = sym_int("quadratic", 0, 1); uword n = 8; mat X = data(n), W = wts(n), V; Ys y = groups(n, 0); V = W; double f = sym_int("factor", 1, 8) * 0.5; for (uword i = 0; i < n; i++) if (y[i] == "b") for (uword j = 0; j < n; j++) V(i, j) = W(i, j) * f; GWDA a, b; make(a, X, y, W, qda, flags, 0); make(b, X, y, V, qda, flags, 0); a.run(); b.run(); for (uword j = 0; j < n; j++) { double d = (b.res()(j, 1) - b.res()(j, 0)) - (a.res()(j, 1) - a.res()(j, 0)); if (!(flags & 4)) d += log(f); ok(d < 1e-9 && d > -1e-9, "a class weighted more is more probable by just that factor"); } }
SCENARIO(classes) { int m = sym_int("groups", 0, 2), qda = sym_int("quadratic", 0, 1), par = sym_int("par", 0, 1); if (qda && m == 2) return; uword n = m == 2 ? 9 : 8; mat X = data(n), W = wts(n); Ys y = groups(n, m == 1 ? 3 : m); int where = sym_int("where", 0, 3); X(where * 2, 0) += sym_int("move", -3, 3); Ref r = reference(X, y, W, qda, 0, 0, 0); if (!r.regular) return; GWDA a; make(a, X, y, W, qda, 0, par); a.run(); derived(a, y, r); }
SCENARIO(assign) { sym_opt("ieee", 0); uword n = 6; mat X = data(n), W = wts(n); Ys y = groups(n, 1); X(0, 0) = sym_real("x", 0, 2); Ref r = reference(X, y, W, false, 0, 0, 0); if (!r.regular) return; GWDA a; make(a, X, y, W, false, 0, 0); a.run(); lda(a, r); derived(a, y, r, false); }
SCENARIO(own) { sym_opt("ieee", 0); int par = sym_int("par", 0, 1), qda = sym_int("quadratic", 0, 1), i = sym_int("i", 0, 7); uword n = 8; mat X = data(n), W = wts(n), V = W; V(i, i) = sym_real("w", 0, 9); Ys y = groups(n, 3); GWDA a, b; make(a, X, y, W, qda, 0, par); make(b, X, y, V, qda, 0, par); a.run(); b.run(); eqm(b.res(), a.res(), "the weight of the observation being classified has no influence"); }
SCENARIO(threads) { sym_opt("ieee", 0); int qda = sym_int("quadratic", 0, 1), flags = sym_int("global", 0, 7); uword n = 8; mat X = data(n), W = wts(n); Ys y = groups(n, 3); double d = sym_int("s", -1, 1); for (uword i = 0; i < n; i++) if (y[i] == "b") X(i, 0) = X(i, 0) + d; par_omp_mode(1, 1, 1); GWDA a, s; make(a, X, y, W, qda, flags, 1); make(s, X, y, W, qda, flags, 0); par_race_enable(1); mat wt; try { a.run(); s.run(); } catch (std::exception&) { ok(false, "analysis fails"); } ok(par_race_count() == 0, std::string("threads access memory without ordering: ") + par_race_text()); par_race_enable(0); eqm(a.res(), s.res(), "threads: scores"); ok(a.group() == s.group(), "threads: classes"); }
SCENARIO(again) { sym_opt("ieee", 0); int what = sym_int("what", 0, 3), qda = sym_int("quadratic", 0, 1), par = sym_int("par", 0, 1); uword n = 8; mat X = data(n), X0 = X, W = wts(n), W0 = W; Ys y = groups(n, 3), y0 = y; if (what == 1) X0(2, 1) = 6; if (what == 2) y0 = groups(n, 0); if (what == 3) W0(2, 5) = 3; X(4, 0) = 7.5; GWDA a, b; make(a, X0, y0, W0, qda, 0, par); a.run(); make(a, X, y, W, qda, 0, par); a.run(); make(b, X, y, W, qda, 0, par); b.run(); eqm(a.res(), b.res(), "a repeated analysis gives the same scores"); ok(a.group() == b.group(), "a repeated analysis gives the same classes"); ok(a.correctRate() == b.correctRate(), "a repeated analysis gives the same rate"); }
SCENARIO(one_variable) { uword n = 6; mat X = data(n).eval().cols(0, 0); GWDA a; make(a, X, groups(n, 0), wts(n), sym_int("quadratic", 0, 1), 0, sym_int("par", 0, 1)); ok(throws([&] { a.run(); }), "fewer than two variables are refused"); }
static vec colsum(const mat& w) { vec r(w.n_cols, arma::fill::zeros); for (uword j = 0; j < w.n_cols; j++) for (uword i = 0; i < w.n_rows; i++) r(j) += w(i, j); return r; }
SCENARIO(moments) { uword n = 3, r = 2; mat x = sym_mat("x", n, 2, -10, 10), w(n, r); for (uword i = 0; i < n; i++) for (uword j = 0; j < r; j++) w(i, j) = (i == 1) != (j == 1) ? sym_real(nm("w", i, j).c_str(), 0.125, 4) : 0.5 * double(1 + i + j); GWDA a; mat m = a.wMean(x, w); cube c = a.wVarCov(x, w); vec s = colsum(w), p = a.wPrior(w, 7.0); if (!shape(m, r, 2, "local means")) return; for (uword j = 0; j < r; j++) { eq(p(j), s(j) / 7, "share of a class"); double q = 0; for (uword i = 0; i < n; i++) q += w(i, j) * w(i, j); vec u(2); for (uword k = 0; k < 2; k++) { double t = 0; for (uword i = 0; i < n; i++) t += w(i, j) * x(i, k); u(k) = t / s(j); eq(m(j, k), u(k), "local mean of a class"); } for (uword k = 0; k < 2; k++) for (uword l = 0; l < 2; l++) { double t = 0; for (uword i = 0; i < n; i++) t += w(i, j) * (x(i, k) - u(k)) * (x(i, l) - u(l)); eq(c(j, k, l), t * s(j) / (s(j) * s(j) - q), "local covariance of a class"); } } }
SCENARIO(split) { uword n = 5; Ys y; static const char* const v[3] = {"p", "q", "pq"}; for (uword i = 0; i < n; i++) y.push_back(v[sym_int(nm("g", i).c_str(), 0, 2)]); mat x = sym_mat("x", n, 2, -10, 10); GWDA a; Ys lev = a.levels(y); auto parts = a.splitX(x, y); auto tab = a.ytable(y); ok(parts.size() == lev.size() && tab.size() == lev.size(), "one part per class"); uword all = 0; for (uword g = 0; g < lev.size(); g++) { uword at = 0; for (uword h = 0; h < g; h++) ok(lev[h] != lev[g], "classes are listed once"); for (uword i = 0; i < n; i++) if (y[i] == lev[g]) { ok(at < parts[g].n_rows, "no member of a class is missing"); if (at >= parts[g].n_rows) return; for (uword k = 0; k < 2; k++) eq(parts[g](at, k), x(i, k), "members of a class"); at++; } ok(at == parts[g].n_rows && tab[lev[g]] == at, "size of a class"); all += at; } ok(all == n, "every observation belongs to a class"); }
