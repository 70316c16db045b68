// The weighting scheme as a value.
// OPTIONS: asan
// BOUNDS: 3 points on a line with symbolic coordinates in [-100,100], symbolic bandwidths in [0.5,200] (exponential kernel), sequences of 2 (thorough 3) copy, move, assign and set operations chosen symbolically
#include "common.h"
using namespace gwm;
static double ab(double x) { return x < 0 ? -x : x; }

struct Ref { double c, b; };
static mat pts(double c) { return mat{{c, 0.0}, {0.0, 0.0}, {0.0, 7.0}}; }
static mat focus() { return mat{{0.0, 0.0}}; }
static SpatialWeight make(const Ref& r) { CRSDistance d(false); d.makeParameter({focus(), pts(r.c)}); BandwidthWeight w(r.b, false, BandwidthWeight::Exponential); return SpatialWeight(&w, &d); }
static void is(const SpatialWeight& s, const Ref& r, const char* m) { vec w = s.weightVector(0); if (!shape(w, 3, 1, m)) return; eq(w(0), exp(-r.c / r.b), m); eq(w(1), 1.0, m); eq(w(2), exp(-7.0 / r.b), m); eq(s.weight<BandwidthWeight>()->bandwidth(), r.b, std::string(m) + ": bandwidth"); ok(s.weight<BandwidthWeight>()->kernel() == BandwidthWeight::Exponential && !s.weight<BandwidthWeight>()->adaptive(), "kernel"); ok(s.distance<CRSDistance>() == s.distance() && s.weight<BandwidthWeight>() == s.weight(), "typed access"); }
static Ref ref_(const char* n) { return Ref{sym_real((std::string(n) + "c").c_str(), 0, 100), sym_real((std::string(n) + "b").c_str(), 0.5, 200)}; }
// weights are the kernel of the distances
SCENARIO(compose) {
  int kn = sym_int("kernel", 0, 4), ad = sym_int("adaptive", 0, 1); vec p = {3.0, sym_real("p1", -100, 100), sym_real("p2", -100, 100)}; vec f = {0.0}; OneDimDistance o; o.makeParameter({f, p}); BandwidthWeight w(ad ? 2.0 : 50.0, ad, BandwidthWeight::KernelFunctionType(kn)); SpatialWeight s(w, o);
  ok(s.isValid(), "valid"); vec a = s.weightVector(0), d = o.distance(0), e = w.weight(d); for (uword i = 0; i < 3; i++) eq(d(i), ab(p(i)), "distance"); eqm(a, e, "weights are the kernel of the distances"); obs("w", a);
}
// any short sequence of copying and moving; each of three schemes always is what it was last set to
static void sequences(int LEN) {
  Ref r[3] = {Ref{sym_real("xc", 0, 100), 6}, Ref{2, 8}, Ref{3, 5}}; SpatialWeight s[3] = {make(r[0]), make(r[1]), make(r[2])}; bool alive[3] = {true, true, true};
  for (int k = 0; k < LEN; k++) {
    int op = sym_int(nm("op", k).c_str(), 0, 6), to = sym_int(nm("to", k).c_str(), 0, 1), from = sym_int(nm("from", k).c_str(), 0, 2); if (!alive[from]) return;
    if (op == 0) { s[to] = s[from]; r[to] = r[from]; alive[to] = true; }
    else if (op == 1) { if (to == from) { s[to] = std::move(s[from]); } else { s[to] = std::move(s[from]); r[to] = r[from]; alive[to] = true; alive[from] = false; ok(!s[from].isValid(), "a moved-from scheme is empty"); } }
    else if (op == 2) { if (!alive[to]) return; SpatialWeight t(s[from]); t.weight<BandwidthWeight>()->setBandwidth(11.0); is(t, Ref{r[from].c, 11.0}, "changed copy"); }
    else if (op == 3) { if (!alive[to]) return; s[to].setWeight(s[from].weight()); r[to].b = r[from].b; }
    else if (op == 4) { if (!alive[to]) return; s[to].setDistance(s[from].distance()); r[to].c = r[from].c; }
    else if (op == 5) { if (!alive[to]) return; SpatialWeight t(std::move(s[from])); if (from != to) { s[to] = t; r[to] = r[from]; } else s[to] = std::move(t); if (from != to) alive[from] = false; }
    else { if (!alive[to]) return; s[to].weight<BandwidthWeight>()->setBandwidth(13.0); r[to].b = 13.0; }
  }
  for (int i = 0; i < 3; i++) { if (alive[i]) { ok(s[i].isValid(), "valid"); is(s[i], r[i], "every scheme is what it was last set to"); } else ok(!s[i].isValid(), "empty"); }
}
SCENARIO(sequences2) { sequences(2); }
SCENARIO_T(sequences3) { sequences(3); }
// the pieces may be given by pointer, reference or temporary, and may be the scheme's own
SCENARIO(pieces) {
  Ref a = ref_("x"); double b = sym_real("b", 0.5, 200), c = sym_real("c", 0, 100); SpatialWeight s = make(a); BandwidthWeight w(b, false, BandwidthWeight::Exponential); CRSDistance d(false); d.makeParameter({focus(), pts(c)}); int hw = sym_int("how_weight", 0, 4), hd = sym_int("how_distance", 0, 4); Ref r{c, b};
  if (hw == 0) s.setWeight(&w); else if (hw == 1) s.setWeight(w); else if (hw == 2) s.setWeight(BandwidthWeight(w)); else if (hw == 3) { s.setWeight(*s.weight()); r.b = a.b; } else { s.setWeight(s.weight()); r.b = a.b; }
  if (hd == 0) s.setDistance(&d); else if (hd == 1) s.setDistance(d); else if (hd == 2) s.setDistance(CRSDistance(d)); else if (hd == 3) { s.setDistance(*s.distance()); r.c = a.c; } else { s.setDistance(s.distance()); r.c = a.c; }
  w.setBandwidth(17.0); d.makeParameter({focus(), pts(23.0)}); is(s, r, "the scheme keeps its own copy of the pieces");
}
// empty schemes can be copied, moved, assigned and filled
SCENARIO(empty) {
  Ref a = ref_("x"); SpatialWeight e, full = make(a); ok(!e.isValid(), "an empty scheme is not valid"); int how = sym_int("how", 0, 4); SpatialWeight t = make(Ref{1, 2});
  if (how == 0) { SpatialWeight c(e); ok(!c.isValid(), "copy of an empty scheme"); c = full; is(c, a, "filled by assignment"); }
  else if (how == 1) { t = e; ok(!t.isValid(), "assigned from an empty scheme"); t = full; is(t, a, "filled by assignment"); }
  else if (how == 2) { t = std::move(e); ok(!t.isValid(), "moved from an empty scheme"); t = std::move(full); is(t, a, "filled by moving"); }
  else if (how == 3) { e.setWeight(full.weight()); ok(!e.isValid(), "half a scheme"); SpatialWeight h(e); ok(!h.isValid() && h.weight() && !h.distance(), "copy of half a scheme"); e.setDistance(full.distance()); is(e, a, "filled by pieces"); }
  else { e.setWeight((Weight*)nullptr); e.setDistance((Distance*)nullptr); ok(!e.isValid(), "null pieces are ignored"); full.setWeight((Weight*)nullptr); full.setDistance((Distance*)nullptr); is(full, a, "null pieces are ignored"); }
}
// every kind of distance survives copying
SCENARIO(kinds) {
  int kind = sym_int("kind", 0, 3); double x = sym_real("x", 0, 100), b = sym_real("b", 0.5, 200); mat f = focus(), p = pts(x); vec tf(1, arma::fill::zeros), tp = {0.0, -1.0, -2.0}; BandwidthWeight w(b, false, BandwidthWeight::Gaussian); SpatialWeight s; s.setWeight(w);
  if (kind == 0) { CRSDistance d(false); d.makeParameter({f, p}); s.setDistance(d); } else if (kind == 1) { MinkwoskiDistance d(1.0, 0.0); d.makeParameter({f, p}); s.setDistance(d); } else if (kind == 2) { OneDimDistance d; d.makeParameter({tf, vec(p.col(0))}); s.setDistance(d); } else { CRSDistance c(false); OneDimDistance o; CRSSTDistance d(&c, &o, 1.0); vec t3(3, arma::fill::zeros); mat f3(3, 2, arma::fill::zeros); d.makeParameter({f3, p, t3, tp}); s.setDistance(d); }
  vec u = s.weightVector(0); SpatialWeight t(s), v; v = t; SpatialWeight z(std::move(t)); eqm(v.weightVector(0), u, "assigned scheme gives the same weights"); eqm(z.weightVector(0), u, "moved scheme gives the same weights"); eq(u(0), exp(-0.5 * x * x / b / b), "weights"); ok(v.distance()->type() == s.distance()->type(), "kind of distance");
}
