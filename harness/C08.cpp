// Forward selection of variables for any criterion.
// OPTIONS: asan
// BOUNDS: up to 3 (thorough 4) candidate variables, one symbolic criterion value in [0,1e3] per variable set, symbolic or concrete threshold, failing criterion at any call; GWR fits with 3 candidate variables
#include "ref.h"
#include <map>
#include <set>
using namespace gwm;
typedef std::vector<size_t> Vars;
struct Any : IVarialbeSelectable {
  std::map<std::set<size_t>, double> score; std::vector<Vars> asked; std::vector<double> given; int failat = -1, reject = -1;
  Status getCriterion(const Vars& v, double& c) override { int id = asked.size(); asked.push_back(v); if (id == failat) { given.push_back(DBL_MAX); return Status::Terminated; } std::set<size_t> k(v.begin(), v.end()); if (!score.count(k)) score[k] = id == reject ? DBL_MAX : sym_real(nm("f", score.size()).c_str(), 0, 1e3); c = score[k]; given.push_back(c); return Status::Success; }
  Vars selectedVariables() override { return {}; }
};
static bool subset(const Vars& a, const Vars& b) { std::set<size_t> s(b.begin(), b.end()); for (size_t v : a) if (!s.count(v)) return false; return true; }
static void check(Any& a, VariableForwardSelector& s, const Vars& cand, const Vars& r, double th) {
  size_t k = cand.size();
  if (a.failat >= 0 && a.asked.size() > size_t(a.failat)) { ok(r == cand, "a stopped selection returns all candidates"); return; }
  ok(a.asked.size() == k * (k + 1) / 2, "every extension of the current set is scored"); if (a.asked.size() != k * (k + 1) / 2) return;
  // greedy: each level extends the best set of the level before by each remaining variable
  size_t p = 0; Vars cur; std::vector<double> sorted; 
  for (size_t l = 0; l < k; l++) { size_t m = k - l; size_t best = p; for (size_t j = 0; j < m; j++) { const Vars& v = a.asked[p + j]; ok(v.size() == l + 1 && subset(cur, v) && subset(v, cand) && std::set<size_t>(v.begin(), v.end()).size() == l + 1, "a candidate extends the current set by one variable"); for (size_t i = 0; i < j; i++) ok(std::set<size_t>(v.begin(), v.end()) != std::set<size_t>(a.asked[p + i].begin(), a.asked[p + i].end()), "no extension is scored twice"); }
    if (l + 1 < k) { const Vars& nx = a.asked[p + m]; Vars c(nx.begin(), nx.end() - 1); size_t q = p; for (size_t j = 0; j < m; j++) if (a.asked[p + j] == c) q = p + j; ok(a.asked[q] == c, "the next level extends a scored set"); for (size_t j = 0; j < m; j++) le(a.given[q], a.given[p + j], "the best extension is kept"); best = q; } cur = a.asked[best]; p += m; }
  VariablesCriterionList l = s.indepVarsCriterion(); ok(l.size() == a.asked.size(), "the list has every scored set"); if (l.size() != a.asked.size()) return;
  std::multiset<Vars> in(a.asked.begin(), a.asked.end()), out; for (auto& x : l) out.insert(x.first); ok(in == out, "the list has every scored set");
  for (size_t i = 0; i < l.size(); i++) { for (size_t j = 0; j < a.asked.size(); j++) if (a.asked[j] == l[i].first) eq(l[i].second, a.given[j], "listed score"); if (i) { ok(l[i - 1].first.size() <= l[i].first.size(), "the list is ordered by size"); if (l[i - 1].first.size() == l[i].first.size()) le(l[i].second, l[i - 1].second, "sets of one size are ordered from worst to best"); } }
  // the result is the last listed set that improves on its predecessor by the threshold
  size_t pick = l.size() - 1; for (size_t i = l.size() - 1; i > 0; i--) if (l[i - 1].second - l[i].second >= th) { pick = i; break; }
  ok(r == l[pick].first, "the last set improving by the threshold is selected, all variables when there is none");
}
static void run(size_t k, bool symth, int failat, int reject, bool setters) {
  Vars cand; for (size_t i = 0; i < k; i++) cand.push_back(3 + 2 * i); double th = symth ? sym_real("threshold", 0, 1e3) : 3.0; Any a; a.failat = failat; a.reject = reject; VariableForwardSelector s; if (setters) { s.setIndepVars(cand); s.setThreshold(th); } else s = VariableForwardSelector(cand, th);
  Vars r = s.optimize(&a); ok(s.indepVars() == cand, "candidates are kept"); check(a, s, cand, r, th);
}
SCENARIO(two) { run(2, true, -1, -1, sym_int("setters", 0, 1)); }
SCENARIO(three) { run(3, true, -1, -1, false); }
SCENARIO(rejected) { run(3, false, -1, sym_int("rejected", 0, 5), false); }
SCENARIO(stopped) { run(3, false, sym_int("stopped", 0, 5), -1, false); }
SCENARIO(small) { int k = sym_int("k", 0, 1); Vars cand(k, 7); Any a; VariableForwardSelector s(cand, 3.0); ok(s.optimize(&a) == cand, "no or one candidate"); ok(s.indepVarsCriterion().size() == size_t(k), "list"); }
SCENARIO_T(four) { run(4, false, -1, -1, false); }
SCENARIO(index) { int ic = sym_int("intercept", 0, 1); Vars v = {3, 1, 2}; arma::uvec u = VariableForwardSelector::index2uvec(v, ic); ok(u.n_elem == 3u + ic, "count"); if (ic) ok(u(0) == 0, "intercept first"); for (int i = 0; i < 3; i++) ok(u(i + ic) == v[i], "order is kept"); }
// whole fits use the selected variables
SCENARIO(fit) {
  uword n = 7; int ic = sym_int("intercept", 0, 1); mat X = design(n, 4); X.col(3) = vec{1, 0, 2, 5, 3, 1, 4}; mat p = line(n), D = dist_line(p, p); vec y = {1, 2, -1, 3, 5, 0, 2}; y(3) = sym_real("y", -20, 20); if (!ic) X = X.cols(1, 3);
  GWRBasic a(X, y, p, crs_sw(12.0, false, 0), true, ic); a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(3.0); mat b = a.fit(); Vars v = a.selectedVariables(); ok(v.size() >= 1 && v.size() <= 3, "selected variables");
  for (size_t q : v) ok(q >= size_t(ic) && q < X.n_cols, "the intercept is not a candidate"); VariablesCriterionList l = a.indepVarsSelectionCriterionList(); ok(l.size() == 6, "criterion list"); bool in = false; for (auto& x : l) if (x.first == v) in = true; ok(in, "the selected set was scored");
  std::vector<uword> cols; if (ic) cols.push_back(0); for (size_t q : v) cols.push_back(q); mat x(n, cols.size()); for (uword j = 0; j < cols.size(); j++) x.col(j) = X.col(cols[j]);
  GWRBasic e(x, y, p, crs_sw(12.0, false, 0), true, ic); eqm(e.fit(), b, "the fit uses the selected variables"); eq(a.diagnostic().RSS, e.diagnostic().RSS, "and so do the diagnostics");
}
