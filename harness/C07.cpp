// Bandwidth selection for any criterion.
// BOUNDS: any criterion function (one symbolic real in [0,1e3] per distinct bandwidth tried, optionally rejected or failing) on adaptive ranges up to 8 wide and fixed ranges up to 1e-3 wide; V-shaped criteria with symbolic minimiser on wider fixed ranges; criteria that change by steep steps; GWR fits with 7 observations
#include "ref.h"
#include <map>
using namespace gwm;
struct Any : IBandwidthSelectable {
  std::map<double, double> seen; std::vector<double> order; int reject = -1, failat = -1, calls = 0; bool kinds = true; BandwidthWeight::KernelFunctionType k; bool ad; double lo, hi, clo = 0;
  Status getCriterion(BandwidthWeight* w, double& c) override {
    double b = w->bandwidth(); kinds = kinds && w->kernel() == k && w->adaptive() == ad; int id = calls++; if (id == failat) return Status::Terminated;
    auto i = seen.find(b); if (i != seen.end()) { c = i->second; return Status::Success; }
    order.push_back(b); c = (id == reject || reject == 100) ? DBL_MAX : sym_real(nm("f", order.size() - 1).c_str(), clo, 1e3); seen[b] = c; return Status::Success; }
};
static void check(Any& a, BandwidthSelector& s, BandwidthWeight& w0, BandwidthWeight* r, double lo, double hi) {
  ok(r != nullptr, "a bandwidth is returned"); if (!r) return; ok(a.kinds, "candidates have the configured kernel and kind");
  if (a.failat >= 0 && a.calls > a.failat) { ok(r == &w0, "a stopped selection returns the original bandwidth"); return; }
  ok(r->kernel() == a.k && r->adaptive() == a.ad, "the result keeps kernel and kind"); double b = r->bandwidth(); ok(b >= lo && b <= hi, "the result lies in the search range"); if (a.ad) ok(b == floor(b), "an adaptive result is a whole number");
  auto i = a.seen.find(b); ok(i != a.seen.end(), "the result was scored"); if (i == a.seen.end()) return;
  for (auto& q : a.seen) { ok(q.first >= lo && q.first <= hi, "candidates lie in the search range"); le(i->second, q.second, "no scored bandwidth is better than the result"); }
  ok(a.calls <= 110, "the search ends"); BandwidthCriterionList l = s.bandwidthCriterion(); size_t fin = 0; for (auto& q : a.seen) if (q.second < DBL_MAX) fin++; ok(l.size() == fin, "the list has every accepted candidate once");
  for (size_t j = 0; j < l.size(); j++) { if (j) ok(l[j - 1].first < l[j].first, "the list is sorted by bandwidth"); auto q = a.seen.find(l[j].first); ok(q != a.seen.end(), "listed candidates were scored"); if (q != a.seen.end()) eq(l[j].second, q->second, "listed score"); }
}
static void run(bool ad, double lo, double hi, int reject, int failat, int setters, double clo = 0) {
  Any a; a.clo = clo; a.k = BandwidthWeight::KernelFunctionType(sym_int("kernel", 2, 3)); a.ad = ad; a.lo = lo; a.hi = hi; a.reject = reject; a.failat = failat; BandwidthWeight w(4.0, ad, a.k); BandwidthSelector s; if (setters) { s.setBandwidth(&w); s.setLower(lo); s.setUpper(hi); } else s = BandwidthSelector(&w, lo, hi);
  BandwidthWeight* r = nullptr; bool t = throws([&] { r = s.optimize(&a); }); bool none = true; for (auto& q : a.seen) if (q.second < DBL_MAX) none = false; ok(t == (none && a.failat < 0), "refused only when no start is acceptable"); if (t) return; check(a, s, w, r, lo, hi); ok(w.bandwidth() == 4.0, "the given bandwidth is not changed"); if (r != &w) delete r;
}
SCENARIO(adaptive) { int from = sym_int("from", 2, 4), width = sym_int("width", 1, 6); run(true, from, from + width, -1, -1, from == 3); }
SCENARIO(adaptive_rejects) { int width = sym_int("width", 2, 6), rj = sym_int("rejected", 0, 4); run(true, 20, 20 + width, rj == 4 ? 100 : rj, -1, 0); }
SCENARIO(adaptive_stops) { int width = sym_int("width", 2, 6); run(true, 20, 20 + width, -1, sym_int("stopped", 0, 4), 1); }
SCENARIO_T(adaptive_wide) { int width = sym_int("width", 7, 20); run(true, 20, 20 + width, -1, -1, 0); }
SCENARIO(fixed) { int w = sym_int("width", 1, 2); run(false, 2.0, 2.0 + 0.0004 * w, -1, -1, w == 2); }
SCENARIO(fixed_rejects) { int rj = sym_int("rejected", 0, 4); run(false, 2.0, 2.001, rj == 4 ? 100 : rj, -1, 0); }
SCENARIO(fixed_stops) { run(false, 2.0, 2.001, -1, sym_int("stopped", 0, 4), 1); }
// V-shaped criteria: the minimiser is found
struct Vee : IBandwidthSelectable { double c, s; int calls = 0; Status getCriterion(BandwidthWeight* w, double& v) override { calls++; double d = w->bandwidth() - c; v = d < 0 ? -s * d : d; return Status::Success; } };
// the search stops when two scores differ by 1e-4: with slopes 1 and s the two candidates then lie about the minimiser, so that the error is bounded by the last bracket
SCENARIO(vee_fixed) { double lo = 0, hi = 0.01; Vee a; a.s = 3; a.c = sym_real("minimiser", lo, hi); BandwidthWeight w(4.0, false, BandwidthWeight::Bisquare); BandwidthSelector q(&w, lo, hi); BandwidthWeight* r = q.optimize(&a); double b = r->bandwidth(), best = b < a.c ? 3 * (a.c - b) : b - a.c; BandwidthCriterionList l = q.bandwidthCriterion();
  // the minimiser lies between the neighbours of the result among all scored candidates
  double left = lo, right = hi; for (auto& x : l) { le(best, x.second, "no scored bandwidth is better than the result"); if (x.first < b && x.first > left) left = x.first; if (x.first > b && x.first < right) right = x.first; } le(left, a.c, "the minimiser is next to the result"); le(a.c, right, "the minimiser is next to the result"); delete r; }
// the search goes on while the compared scores differ by more than 1e-4 and the bracket is wide, however large the scores are
struct Steep : IBandwidthSelectable { double c, off; Status getCriterion(BandwidthWeight* w, double& v) override { double d = w->bandwidth() - c; v = off + (d < 0 ? -2 * d : d); return Status::Success; } };
static void steep(bool ad, double lo, double hi, double gap) {
  Steep a; a.off = sym_int("magnitude", 0, 1) * 1e13; a.c = sym_real("minimiser", lo, hi); BandwidthWeight w(4.0, ad, BandwidthWeight::Bisquare); BandwidthSelector q(&w, lo, hi); BandwidthWeight* r = q.optimize(&a); double b = r->bandwidth(), best = a.off + (b < a.c ? 2 * (a.c - b) : b - a.c); BandwidthCriterionList l = q.bandwidthCriterion();
  double left = lo, right = hi; bool close = false; for (auto& x : l) { if (x.first < b && x.first > left) left = x.first; if (x.first > b && x.first < right) right = x.first; if (x.first != b && x.second - best <= 1.001e-4) close = true; }
  ok(close || right - left <= gap, "the search goes on until the scores agree or the bracket is small"); delete r; }
SCENARIO(steep_adaptive) { int k = sym_int("range", 0, 1); steep(true, k ? 20 : 2, k ? 50 : 33, 8); }
SCENARIO(steep_fixed) { steep(false, 0, 0.004, 3e-4); }
// whole fits: the selected bandwidth is used, lies in the given bounds and scores best
static void fit(bool ad, double lo, double hi, bool bounds, int crit) {
  uword n = 7; mat X = design(n, 2), p = line(n), D = dist_line(p, p); vec y = {1, 2, -1, 3, 5, 0, 2}; y(3) = sym_real("y", -20, 20);
  GWRBasic a(X, y, p, crs_sw(3.0, ad, 0), true, true); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(crit ? GWRBasic::CV : GWRBasic::AIC); if (bounds) { a.setGoldenLowerBounds(lo); a.setGoldenUpperBounds(hi); }
  mat b = a.fit(); double bw = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); ok(a.spatialWeight().weight<BandwidthWeight>()->adaptive() == ad && a.spatialWeight().weight<BandwidthWeight>()->kernel() == BandwidthWeight::Gaussian, "kernel and kind are kept"); ok(bw >= lo && bw <= hi, "selected bandwidth lies in the bounds");
  BandwidthCriterionList l = a.bandwidthSelectionCriterionList(); ok(l.size() > 0, "criterion list"); double own = DBL_MAX; for (auto& q : l) if (q.first == bw) own = q.second; ok(own < DBL_MAX, "the selected bandwidth is in the list"); for (auto& q : l) le(own, q.second, "no scored bandwidth is better");
  GWRBasic e(X, y, p, crs_sw(bw, ad, 0), true, true); eqm(e.fit(), b, "the fit uses the selected bandwidth"); eq(a.diagnostic().RSS, e.diagnostic().RSS, "and so do the diagnostics"); e.setBandwidthSelectionCriterion(crit ? GWRBasic::CV : GWRBasic::AIC); double c; for (auto& q : l) { BandwidthWeight w(q.first, ad, BandwidthWeight::Gaussian); e.getCriterion(&w, c); eq(c, q.second, "listed scores are the criterion"); }
}
SCENARIO(fit_adaptive) { fit(true, 2, 9, true, 1); }
SCENARIO(fit_fixed) { fit(false, 5.0, 5.0005, true, 1); }
