// Great-circle distance.
// BOUNDS: points closer together than any tolerance included; longitudes in [-180,180], latitudes in [-90,90], all real values; sine, cosine and arc tangent are uninterpreted up to sign, range, parity and the Pythagorean identity
#include "common.h"
using namespace gwm;
static double P2(double x) { return x * x; }
// the published ellipsoidal (Andoyer-Lambert) formula
static double ref(double lon1, double lon2, double lat1, double lat2) {
  double k = M_PI / 180, F = (lat1 * k + lat2 * k) / 2, G = (lat1 * k - lat2 * k) / 2, L = (lon1 * k - lon2 * k) / 2, f = 1.0 / 298.257223563, a = 6378.137;
  double sg = P2(sin(G)), cg = P2(cos(G)), sf = P2(sin(F)), cf = P2(cos(F)), sl = P2(sin(L)), cl = P2(cos(L)), S = sg * cl + cf * sl, C = cg * cl + sf * sl;
  double w = atan(sqrt(S / C)), R = sqrt(S * C) / w, D = 2 * w * a;
  return D * (1 + f * ((3 * R - 1) / (2 * C)) * sf * cg - f * ((3 * R + 1) / (2 * S)) * cf * sg);
}
static bool degenerate(double lon1, double lon2, double lat1, double lat2) { return lat1 == lat2 && (lon1 == lon2); }
SCENARIO(formula) {
  double lon1 = sym_real("lon1", -179, 179), lon2 = sym_real("lon2", -179, 179), lat1 = sym_real("lat1", -89, 89), lat2 = sym_real("lat2", -89, 89);
  sym_assume_lt(lat1 + 1e-3, lat2); sym_assume_lt(lon1 + 1e-3, lon2); sym_assume_lt(lon2 - lon1, 170);
  double d = CRSDistance::SpGcdist(lon1, lon2, lat1, lat2);
  eq(d, ref(lon1, lon2, lat1, lat2), "great-circle formula");
}
// distinct points are apart by the formula however close they are, on one parallel, on one meridian or in general position
SCENARIO(close) {
  int kind = sym_int("kind", 0, 3); double lon = sym_real("lon", -170, 170), lat = sym_real("lat", -80, 80), a = sym_real("dlon", -1, 1), b = sym_real("dlat", -1, 1);
  if (kind == 0) { sym_assume(a > 1e-7 || a < -1e-7); b = 0; } else if (kind == 1) { sym_assume(b > 1e-7 || b < -1e-7); a = 0; } else if (kind == 2) sym_assume(b > 1e-7 || b < -1e-7); else sym_assume(a > 1e-7 || a < -1e-7);
  double d = CRSDistance::SpGcdist(lon, lon + a, lat, lat + b);
  eq(d, ref(lon, lon + a, lat, lat + b), "distance of close points");
}
SCENARIO(symmetric) {
  double lon1 = sym_real("lon1", -180, 180), lon2 = sym_real("lon2", -180, 180), lat1 = sym_real("lat1", -90, 90), lat2 = sym_real("lat2", -90, 90);
  sym_assume_lt(lat1 + 1e-3, lat2);
  eq(CRSDistance::SpGcdist(lon1, lon2, lat1, lat2), CRSDistance::SpGcdist(lon2, lon1, lat2, lat1), "swapping the points");
}
SCENARIO(mirror) {
  double lon1 = sym_real("lon1", -170, 170), lon2 = sym_real("lon2", -170, 170), lat1 = sym_real("lat1", -89, 89), lat2 = sym_real("lat2", -89, 89); sym_assume_lt(lat1 + 1e-3, lat2);
  double d = CRSDistance::SpGcdist(lon1, lon2, lat1, lat2), s = sym_real("shift", -10, 10);
  eq(CRSDistance::SpGcdist(lon1 + s, lon2 + s, lat1, lat2), d, "turning the globe"); eq(CRSDistance::SpGcdist(lon1, lon2, -lat1, -lat2), d, "mirroring at the equator"); eq(CRSDistance::SpGcdist(-lon1, -lon2, lat1, lat2), d, "mirroring at the meridian");
}
SCENARIO(zero) {
  double lon = sym_real("lon", -180, 180), lat = sym_real("lat", -90, 90); eq(CRSDistance::SpGcdist(lon, lon, lat, lat), 0.0, "a point and itself"); eq(CRSDistance::SpGcdist(180.0, -180.0, lat, lat), 0.0, "the date line"); eq(CRSDistance::SpGcdist(-180.0, 180.0, lat, lat), 0.0, "the date line");
}
// one point per row, argument order of the vector form, and the class
SCENARIO(vector_form) {
  int pos = sym_int("pos", 0, 3); mat p = {{10.0, 20.0}, {11.0, 21.5}, {-70.0, 45.0}, {100.0, -33.0}}, f = {{12.0, 48.0}, {-3.0, 40.0}}; p(pos, 0) = sym_real("lon", 20, 120); p(pos, 1) = sym_real("lat", 50, 80);
  CRSDistance c(true); c.makeParameter({f, p}); int how = sym_int("how", 0, 2);
  for (uword i = 0; i < 2; i++) { CRSDistance q(c), s(false); if (how == 2) { s.makeParameter({f, p}); s.setGeographic(true); } vec d = how == 0 ? c.distance(i) : how == 1 ? q.distance(i) : s.distance(i); if (!shape(d, 4, 1, "distances")) return; for (uword j = 0; j < 4; j++) eq(d(j), CRSDistance::SpGcdist(p(j, 0), f(i, 0), p(j, 1), f(i, 1)), "distance from focus to data point"); obs("d", d); }
}
SCENARIO(not_geographic) { double x = sym_real("x", -100, 100); mat p = {{x, 3.0}}, f = {{0.0, 0.0}}; CRSDistance c(true); c.makeParameter({f, p}); c.setGeographic(false); double d = c.distance(0)(0); eq(d * d, x * x + 9.0, "planar after switching"); ok(!c.geographic(), "accessor"); }
SCENARIO(extremes) {
  int k = sym_int("k", 0, 5); mat p = {{0.0, 0.0}, {90.0, 0.0}, {20.0 + 10 * k, 5.0 - k}}, f = {{0.0, 10.0}, {5.0, -20.0}}; CRSDistance c(true); c.makeParameter({f, p}); double mx = c.maxDistance(), mn = c.minDistance();
  bool hx = false, hn = false; for (uword i = 0; i < 2; i++) { vec d = c.distance(i); for (uword j = 0; j < 3; j++) { le(d(j), mx, "largest bounds all"); le(mn, d(j), "smallest bounds all"); if (d(j) == mx) hx = true; if (d(j) == mn) hn = true; } } ok(hx && hn, "extremes attained");
}
