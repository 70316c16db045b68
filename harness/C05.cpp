// Space-time distances.
// BOUNDS: 3 symbolic spatial separations in [0,1e5] on a line, symbolic times in [-1e3,1e3], lambda symbolic in [0,1], angle pi/2 and symbolic
#include "common.h"
using namespace gwm;
static double ab(double x) { return x < 0 ? -x : x; }
static const double FAR_ = 10000000000000.0;
struct St { mat c; vec t; CRSSTDistance* d; ~St() { delete d; } };
static void points(mat& c, vec& t) { c = mat(3, 2, arma::fill::zeros); c(1, 0) = 3; c(2, 0) = 3; c(2, 1) = 4; t = vec(3); t(0) = 0; t(1) = sym_real("t1", -1e3, 1e3); t(2) = 7; }
static void check(const vec& d, const mat& c, const vec& t, uword i, double lam, double ca, const char* m) {
  static const double S[3][3] = {{0, 3, 5}, {3, 0, 4}, {5, 4, 0}};
  if (!shape(d, 3, 1, "distances")) return;
  for (uword j = 0; j < 3; j++) { double s = S[i][j], e = t(i) - t(j); if (e < 0) { eq(d(j), FAR_, "later observations are out of reach"); continue; }
    // x = lam s + (1-lam) e + 2 ca sqrt(lam (1-lam) s e)
    double r = d(j) - lam * s - (1 - lam) * e; eq(r * r, 4 * ca * ca * lam * (1 - lam) * s * e, m); if (s > 0 && e > 0 && lam > 0 && lam < 1) { if (ca >= 0) le(0.0, r, "sign of the cross term"); else le(r, 0.0, "sign of the cross term"); } }
}
SCENARIO(orthogonal) {
  mat c; vec t; points(c, t); double lam = sym_real("lambda", 0, 0.999999999); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, lam); d.makeParameter({c, c, t, t});
  for (uword i = 0; i < 3; i++) check(d.distance(i), c, t, i, lam, 1.0, "orthogonal space-time distance");
}
SCENARIO(oblique) {
  mat c; vec t; points(c, t); double lam = sym_real("lambda", 0, 0.999999999), a = sym_real("angle", -1.5, 1.5); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, lam, a); d.makeParameter({c, c, t, t});
  double ca = cos(atan(tan(a))); vec x = d.distance(0); check(x, c, t, 0, lam, ca, "oblique space-time distance"); 
}
// pure space and pure time
SCENARIO(lambda_ends) {
  mat c; vec t; points(c, t); int one = sym_int("one", 0, 1); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, one ? 1.0 : 0.0); d.makeParameter({c, c, t, t});
  static const double S[3][3] = {{0, 3, 5}, {3, 0, 4}, {5, 4, 0}};
  for (uword i = 0; i < 3; i++) { vec x = d.distance(i); if (!shape(x, 3, 1, "distances")) return; for (uword j = 0; j < 3; j++) { double e = t(i) - t(j); if (one) eq(x(j), S[i][j], "lambda one: spatial distance"); else eq(x(j), e < 0 ? FAR_ : e, "lambda zero: time since"); } }
}
SCENARIO(lambda_range) {
  double lam = sym_real("lambda", -2, 3); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, 0.25); bool th = false; try { d.setLambda(lam); } catch (std::exception&) { th = true; } ok(th == (lam < 0 || lam > 1), "lambda outside [0,1] is refused, inside accepted");
  mat c; vec t; c = mat(3, 2, arma::fill::zeros); c(1, 0) = 3; c(2, 0) = 3; c(2, 1) = 4; t = vec({0.0, 1.0, 7.0}); d.makeParameter({c, c, t, t});
  double l = th ? 0.25 : lam; if (l < 1) check(d.distance(2), c, t, 2, l, 1.0, "the accepted lambda is used, a refused one is not");
  bool tc = false; CRSSTDistance e(&s, &o, lam); try { Distance* k = e.clone(); delete k; } catch (std::exception&) { tc = true; } ok(tc == (lam < 0 || lam > 1), "an object with lambda outside [0,1] cannot be copied");
}
SCENARIO(copies) {
  mat c; vec t; points(c, t); double lam = sym_real("lambda", 0, 0.9375), l2 = sym_real("lambda2", 0, 0.9375); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, lam); d.makeParameter({c, c, t, t});
  Distance* k = d.clone(); d.setLambda(l2); check(k->distance(1), c, t, 1, lam, 1.0, "the copy keeps its lambda"); check(d.distance(1), c, t, 1, l2, 1.0, "the original uses the new lambda"); double m = k->maxDistance(); for (uword i = 0; i < 3; i++) { vec x = k->distance(i); for (uword j = 0; j < 3; j++) le(x(j), m, "largest distance of a copy"); } delete k;
}
SCENARIO(copies_oblique) {
  mat c; vec t; points(c, t); double lam = 0.5, a = sym_real("angle", -1.5, 1.5); int how = sym_int("how", 0, 3); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, lam, a); if (how & 1) d.makeParameter({c, c, t, t});
  Distance* k = how & 2 ? d.clone() : new CRSSTDistance(d); d.makeParameter({c, c, t, t}); if (!(how & 1)) k->makeParameter({c, c, t, t}); vec x = d.distance(2), z = k->distance(2); check(z, c, t, 2, lam, cos(atan(tan(a))), "the copy keeps its angle"); eqm(z, x, "the copy measures like the original"); delete k;
}
SCENARIO(extremes) {
  mat c; vec t; points(c, t); double lam = 0.25; CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, lam); d.makeParameter({c, c, t, t}); double mx = d.maxDistance(), mn = d.minDistance(); bool hx = false, hn = false;
  for (uword i = 0; i < 3; i++) { vec x = d.distance(i); for (uword j = 0; j < 3; j++) { le(x(j), mx, "largest bounds all"); le(mn, x(j), "smallest bounds all"); if (x(j) == mx) hx = true; if (x(j) == mn) hn = true; } } ok(hx && hn, "extremes attained");
}
SCENARIO(misuse) {
  mat c(3, 2, arma::fill::ones), c2(2, 2, arma::fill::ones); vec t(3, arma::fill::ones), t2(2, arma::fill::ones); int k = sym_int("k", 0, 5); CRSDistance s(false); OneDimDistance o; CRSSTDistance d(&s, &o, 0.5); bool th = false;
  try { if (k == 0) d.makeParameter({c2, c, t, t}); else if (k == 1) d.makeParameter({c, c2, t, t}); else if (k == 2) d.makeParameter({c, c, t2, t}); else if (k == 3) d.makeParameter({c, c, t, t2}); else if (k == 4) d.makeParameter({c, c, t}); else d.maxDistance(); } catch (std::exception&) { th = true; } ok(th, "inconsistent points are refused");
}
