// Planar, one-dimensional and Minkowski distances.
// BOUNDS: 3 data points and 2 focus points with all coordinates symbolic in [-1e6,1e6] (Euclidean, Manhattan, chessboard), 20 data points with one symbolic; Minkowski orders 1, -1, 2, 3, 4 and rotation angles 0, symbolic (fixed points) and fixed (symbolic points) for every order
#include "common.h"
using namespace gwm;
static double ab(double x) { return x < 0 ? -x : x; }
static void check_eu(double d, double dx, double dy, const char* m) { le(0.0, d, std::string(m) + " not negative"); eq(d * d, dx * dx + dy * dy, m); }
SCENARIO(euclid) {
  mat f = sym_mat("f", 2, 2, -1e6, 1e6), p = sym_mat("p", 3, 2, -1e6, 1e6);
  CRSDistance c(false); c.makeParameter({f, p});
  for (uword i = 0; i < 2; i++) { vec d = c.distance(i); if (!shape(d, 3, 1, "distances")) return; for (uword j = 0; j < 3; j++) check_eu(d(j), p(j, 0) - f(i, 0), p(j, 1) - f(i, 1), "Euclidean distance"); obs("d", d); }
}
SCENARIO(euclid_metric) {
  double x = sym_real("x", -1e6, 1e6), y = sym_real("y", -1e6, 1e6); mat a = {{x, y}, {3.0, -2.0}};
  CRSDistance c(false); c.makeParameter({a, a});
  vec d0 = c.distance(0), d1 = c.distance(1); eq(d0(1), d1(0), "symmetric"); eq(d0(0), 0.0, "zero on the diagonal"); eq(d1(1), 0.0, "zero on the diagonal");
  if (x != 3.0 || y != -2.0) lt(0.0, d0(1), "positive between different points");
}
// smallest and largest distance over all pairs
SCENARIO(extremes_line) {
  // points on a line keep the distances linear
  double s = sym_real("s", -1e3, 1e3), t = sym_real("t", -1e3, 1e3); mat f = {{s, 0.0}, {t, 0.0}}, p = {{0.0, 0.0}, {5.0, 0.0}, {-7.0, 0.0}};
  int kind = sym_int("kind", 0, 2); Distance* c; CRSDistance e(false); MinkwoskiDistance m(1.0, 0.0); OneDimDistance o;
  if (kind == 0) { e.makeParameter({f, p}); c = &e; } else if (kind == 1) { m.makeParameter({f, p}); c = &m; } else { o.makeParameter({vec(f.col(0)), vec(p.col(0))}); c = &o; }
  double mx = c->maxDistance(), mn = c->minDistance(); bool hx = false, hn = false;
  for (uword i = 0; i < 2; i++) { vec d = c->distance(i); for (uword j = 0; j < 3; j++) { le(d(j), mx, "largest distance bounds all"); le(mn, d(j), "smallest distance bounds all"); if (d(j) == mx) hx = true; if (d(j) == mn) hn = true; } }
  ok(hx, "largest distance is attained"); ok(hn, "smallest distance is attained");
}
SCENARIO(extremes_planar) {
  mat f = {{0.0, 0.0}, {sym_real("a", -1e3, 1e3), 3.0}}, p = {{4.0, 0.0}, {1.0, 1.0}, {0.0, sym_real("b", -1e3, 1e3)}};
  CRSDistance c(false); c.makeParameter({f, p}); double mx = c.maxDistance(), mn = c.minDistance();
  for (uword i = 0; i < 2; i++) { vec d = c.distance(i); for (uword j = 0; j < 3; j++) { le(d(j), mx, "largest distance bounds all"); le(mn, d(j), "smallest distance bounds all"); } }
}
SCENARIO(onedim) {
  vec f = sym_vec("f", 2, -1e6, 1e6), p = sym_vec("p", 3, -1e6, 1e6); OneDimDistance c; c.makeParameter({f, p});
  for (uword i = 0; i < 2; i++) { vec d = c.distance(i), s = c.noAbsdistance(i); if (!shape(d, 3, 1, "distances") || !shape(s, 3, 1, "signed")) return; for (uword j = 0; j < 3; j++) { eq(d(j), ab(p(j) - f(i)), "one-dimensional distance"); eq(s(j), f(i) - p(j), "signed difference"); } }
}
SCENARIO(manhattan_chess) {
  int ch = sym_int("chess", 0, 1); mat f = sym_mat("f", 1, 2, -1e6, 1e6), p = sym_mat("p", 2, 2, -1e6, 1e6);
  MinkwoskiDistance c(ch ? -1.0 : 1.0, 0.0); c.makeParameter({f, p}); vec d = c.distance(0); if (!shape(d, 2, 1, "distances")) return;
  for (uword j = 0; j < 2; j++) { double a = ab(p(j, 0) - f(0, 0)), b = ab(p(j, 1) - f(0, 1)); eq(d(j), ch ? (a < b ? b : a) : a + b, ch ? "chessboard distance" : "Manhattan distance"); }
}
SCENARIO(minkowski_p) {
  int p = sym_int("p", 2, 4); mat f = {{0.0, 0.0}}, q = {{sym_real("x", -100, 100), sym_real("y", -100, 100)}};
  MinkwoskiDistance c(double(p), 0.0); c.makeParameter({f, q}); vec d = c.distance(0); if (!shape(d, 1, 1, "distances")) return;
  double a = ab(q(0, 0)), b = ab(q(0, 1)), s = 0; if (p == 2) s = a * a + b * b; else if (p == 3) s = a * a * a + b * b * b; else s = a * a * a * a + b * b * b * b;
  le(0.0, d(0), "Minkowski distance not negative"); if (p == 2) eq(d(0) * d(0), s, "Minkowski distance, order 2"); else eq(d(0), pow(s, 1.0 / p), "Minkowski distance of order p");
}
// rotation: the axes turn, so that the Manhattan distance is that of the rotated coordinates; the Euclidean one does not change
SCENARIO(rotation) {
  double th = sym_real("theta", 0.125, 3.0); mat f = {{1.0, 2.0}}, q = {{sym_real("x", -10, 10), sym_real("y", -10, 10)}}; double c0 = cos(th), s0 = sin(th);
  double dx = q(0, 0) - 1.0, dy = q(0, 1) - 2.0;
  MinkwoskiDistance c(1.0, th); c.makeParameter({f, q}); vec d = c.distance(0);
  eq(d(0), ab(dx * c0 - dy * s0) + ab(dx * s0 + dy * c0), "Manhattan distance in rotated axes");
  c.setPoly(2.0); vec e = c.distance(0); check_eu(e(0), dx, dy, "order 2 does not depend on the rotation");
  mat r = MinkwoskiDistance::CoordinateRotate(q, th); eq(r(0, 0), q(0, 0) * c0 - q(0, 1) * s0, "rotated x"); eq(r(0, 1), q(0, 0) * s0 + q(0, 1) * c0, "rotated y");
}
// every order turns its axes, from every focus: symbolic angle and concrete points, concrete angle and symbolic points
static void turned(double o, double th, const mat& f, const mat& q, bool cp) {
  double c0 = cos(th), s0 = sin(th); MinkwoskiDistance c(o, th), k(c); c.makeParameter({f, q}); k.makeParameter({f, q});
  for (uword i = 0; i < f.n_rows; i++) { vec d = cp ? k.distance(i) : c.distance(i); if (!shape(d, q.n_rows, 1, "distances")) return;
    for (uword j = 0; j < q.n_rows; j++) { double a = ab((q(j, 0) * c0 - q(j, 1) * s0) - (f(i, 0) * c0 - f(i, 1) * s0)), b = ab((q(j, 0) * s0 + q(j, 1) * c0) - (f(i, 0) * s0 + f(i, 1) * c0));
      eq(d(j), o == 1.0 ? a + b : o == -1.0 ? (a < b ? b : a) : pow(pow(a, o) + pow(b, o), 1.0 / o), "distance in rotated axes"); } }
}
static const std::vector<double> orders = {1.0, -1.0, 3.0, 4.0, 1.5, 0.5};
SCENARIO(rotation_orders) { double o = orders[sym_int("order", 0, 5)], th = sym_real("theta", -6.0, 6.0); sym_assume(th > 0.125 || th < -0.125); turned(o, th, mat{{1.0, 2.0}}, mat{{-2.0, 3.0}, {5.0, 1.0}}, false); }
SCENARIO(rotation_points) { double o = orders[sym_int("order", 0, 5)]; turned(o, sym_int("angle", 0, 1) ? 0.7 : -2.0, mat{{1.0, 2.0}}, mat{{sym_real("x", -10, 10), sym_real("y", -10, 10)}}, true); }
// many points, one of them symbolic
SCENARIO(many) {
  uword n = 20; mat p(n, 2); for (uword i = 0; i < n; i++) { p(i, 0) = double((i * 7) % 13); p(i, 1) = double((i * 5) % 11); } int k = sym_int("pos", 0, 3) * 6; p(k, 0) = sym_real("x", -1e3, 1e3);
  CRSDistance c(false); c.makeParameter({p, p}); MinkwoskiDistance m(1.0, 0.0); m.makeParameter({p, p});
  for (uword i = 0; i < n; i += 3) { vec d = c.distance(i), e = m.distance(i); if (!shape(d, n, 1, "distances")) return; for (uword j = 0; j < n; j++) { check_eu(d(j), p(j, 0) - p(i, 0), p(j, 1) - p(i, 1), "Euclidean distance, many points"); eq(e(j), ab(p(j, 0) - p(i, 0)) + ab(p(j, 1) - p(i, 1)), "Manhattan distance, many points"); } }
}
// copies and clones are independent of the original; a new parameter replaces the old one
SCENARIO(copies) {
  int kind = sym_int("kind", 0, 2), how = sym_int("how", 0, 1); double x = sym_real("x", -1e6, 1e6), z = sym_real("z", -1e6, 1e6); mat f = {{x, 0.0}}, p = {{1.0, 0.0}, {-2.0, 0.0}}, g = {{z, 0.0}};
  CRSDistance a(false); MinkwoskiDistance b(1.0, 0.0); OneDimDistance o; Distance* c = kind == 0 ? (Distance*)&a : kind == 1 ? (Distance*)&b : (Distance*)&o;
  auto set = [&](Distance* d, const mat& ff) { if (kind == 2) d->makeParameter({vec(ff.col(0)), vec(p.col(0))}); else d->makeParameter({ff, p}); };
  set(c, f); Distance* k = c->clone(); set(how ? c : k, g);
  vec u = (how ? k : c)->distance(0), v = (how ? c : k)->distance(0);
  for (uword j = 0; j < 2; j++) { eq(u(j), ab(x - p(j, 0)), "the other object is untouched"); eq(v(j), ab(z - p(j, 0)), "the new points are used"); }
  eq((how ? k : c)->maxDistance(), ab(x - 1.0) < ab(x + 2.0) ? ab(x + 2.0) : ab(x - 1.0), "largest distance of the copy"); delete k;
}
// misuse is refused
static bool throws(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return true; } return false; }
SCENARIO(misuse) {
  int kind = sym_int("kind", 0, 2); CRSDistance a(false); MinkwoskiDistance b(1.0, 0.0); OneDimDistance o; Distance* c = kind == 0 ? (Distance*)&a : kind == 1 ? (Distance*)&b : (Distance*)&o;
  ok(throws([&] { c->distance(0); }), "no points: distance refused"); ok(throws([&] { c->maxDistance(); }), "no points: largest refused"); ok(throws([&] { c->minDistance(); }), "no points: smallest refused");
  mat f = {{1.0, 2.0}, {2.0, 3.0}}, p = {{0.0, 0.0}, {1.0, 1.0}, {4.0, 4.0}}, w = {{1.0, 2.0, 3.0}};
  if (kind == 2) { ok(throws([&] { c->makeParameter({vec(f.col(0))}); }), "one parameter refused"); c->makeParameter({vec(f.col(0)), vec(p.col(0))}); }
  else { ok(throws([&] { c->makeParameter({f}); }), "one parameter refused"); ok(throws([&] { c->makeParameter({w, p}); }), "three columns refused"); ok(throws([&] { c->makeParameter({f, w}); }), "three columns refused"); ok(throws([&] { c->distance(0); }), "refused points are not used"); c->makeParameter({f, p}); }
  int i = sym_int("focus", 0, 3); bool t = throws([&] { vec d = c->distance(i); ok(d.n_elem == 3, "one distance per data point"); }); ok(t == (i >= 2), "focus out of range is refused, others accepted");
}
