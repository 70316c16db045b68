// Symbolic runtime.  A double is either an ordinary IEEE value or a boxed handle
// (quiet NaN, upper word TAG) of a symbolic real: a canonical rational function
// with exact rational coefficients over atoms (inputs, sqrt/exp/... applications).
// Branches on symbolic conditions ask the SMT solver for feasibility and fork().
#include "sym.h"
#include <gmpxx.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <spawn.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <poll.h>
using std::string; using std::vector; using std::pair; using std::map;
extern char** environ;
#include "rt_api.h"

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<long> assumed, queries, q_sat, q_unsat, q_unknown, q_us, forks, paths, killed, asserts, assert_q, normal_form, violations, inconclusive, crashes, branches, timeouts, witness, obs, tokens, depthmax, cons, unsupported, decided_nosolver;
};
static Shared* SH;
static string OUTDIR, SCN; static int LOGFD = -1; static double DEADLINE = 0;
static int MAXWIT = 3;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void logline(const string& s) { string l = s + "\n"; ssize_t r = write(LOGFD, l.data(), l.size()); (void)r; }
static string esc(const string& s) { string o; for (char c : s) { if (c == '\n' || c == '\t') o += ' '; else o += c; } return o; }

static vector<pid_t> CHILDREN; static vector<pid_t> TOKCHILDREN; static bool HAVE_TOKEN = false, RELEASED = false;
static void reap_status(pid_t p, int st, bool tok) {
  if (WIFSIGNALED(st)) {
    if (tok) SH->tokens++;
    if (WTERMSIG(st) == SIGKILL) { SH->timeouts++; logline("INCONC\tkilled child (SIGKILL: memory or time)"); }
    else { SH->inconclusive++; logline("INCONC\tchild died on signal " + std::to_string(WTERMSIG(st))); }
  }
  (void)p;
}
static void release_token() { if (HAVE_TOKEN) { HAVE_TOKEN = false; RELEASED = true; SH->tokens++; } }
static void finish_children() {
  if (TOKCHILDREN.empty()) return; bool lend = !HAVE_TOKEN && !RELEASED; if (lend) SH->tokens++;   // the slot is idle while waiting
  for (pid_t p : TOKCHILDREN) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); reap_status(p, st, true); }
  TOKCHILDREN.clear(); if (lend) SH->tokens--;
}
[[noreturn]] static void path_exit(const char* why) {
  if (why) { SH->killed++; }
  release_token(); finish_children();
  _exit(0);
}
[[noreturn]] static void unsupported(const string& s) { SH->unsupported++; logline("INCONC\tunsupported: " + esc(s)); path_exit("unsupported"); }

// ---------------------------------------------------------------- monomials, polynomials
typedef vector<pair<int,int>> MonoV;   // (atom, exp), sorted by atom
struct VecHash { size_t operator()(const MonoV& v) const { size_t h = 1469598103934665603ull; for (auto& p : v) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; } return h; } };
static std::deque<MonoV> MONO; static std::unordered_map<MonoV, int, VecHash> MONOIX; static std::deque<char> MONOSQ;
struct Atom;
static bool atom_reducible(int a);
static int mono_intern(const MonoV& m) {
  auto it = MONOIX.find(m); if (it != MONOIX.end()) return it->second;
  int id = MONO.size(); MONO.push_back(m); MONOIX[m] = id;
  char sq = 0; for (auto& p : m) if (p.second >= 2 && atom_reducible(p.first)) sq = 1;
  MONOSQ.push_back(sq);
  return id;
}
static std::unordered_map<uint64_t, int> MMUL;
static int mono_mul(int a, int b) {
  if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b; auto it = MMUL.find(k); if (it != MMUL.end()) return it->second;
  const MonoV &x = MONO[a], &y = MONO[b]; MonoV r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  int id = mono_intern(r); MMUL[k] = id; return id;
}
typedef vector<pair<int, mpq_class>> Poly;  // sorted by mono id, nonzero coefficients
static Poly p_const(const mpq_class& c) { Poly p; if (c != 0) p.push_back({0, c}); return p; }
static bool p_isconst(const Poly& p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
static mpq_class p_cval(const Poly& p) { return p.empty() ? mpq_class(0) : p[0].second; }
static int ROUND = 0;   // coefficients rounded to doubles; a sum that cancels to 1e-12 of its terms is zero
static bool snapped(const mpq_class& c, const mpq_class& a) { return ROUND && std::fabs(c.get_d()) < 1e-12 * std::fabs(a.get_d()); }
static Poly p_add(const Poly& a, const Poly& b, int s = 1) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back(b[j]); if (s < 0) r.back().second = -r.back().second; j++; }
    else { mpq_class c = s > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (c != 0 && !snapped(c, a[i].second)) r.push_back({a[i].first, c}); i++; j++; }
  }
  return r;
}
static Poly p_scale(const Poly& a, const mpq_class& c) { if (c == 0) return {}; Poly r = a; for (auto& t : r) t.second *= c; return r; }
static int MAXTERMS = 60000;
static Poly p_reduce(Poly p);
static Poly p_mul_raw(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return {};
  if (p_isconst(a)) return p_scale(b, a[0].second);
  if (p_isconst(b)) return p_scale(a, b[0].second);
  std::map<int, mpq_class> m;
  for (auto& x : a) for (auto& y : b) { mpq_class c = x.second * y.second; auto r = m.emplace(mono_mul(x.first, y.first), c); if (!r.second) r.first->second += c; }
  Poly r; r.reserve(m.size()); for (auto& t : m) if (t.second != 0) r.push_back({t.first, t.second}); return r;
}
static Poly p_mul(const Poly& a, const Poly& b) { return p_reduce(p_mul_raw(a, b)); }
static Poly p_pow(const Poly& a, int n) { Poly r = p_const(1); for (int i = 0; i < n; i++) r = p_mul(r, a); return r; }
static Poly p_atom(int a) { Poly p; p.push_back({mono_intern({{a, 1}}), 1}); return p; }

// interned polynomials
struct PHash { size_t operator()(const Poly& p) const { size_t h = 88172645463325252ull; for (auto& t : p) { h = (h ^ t.first) * 1099511628211ull; h = (h ^ mpz_get_ui(t.second.get_num_mpz_t())) * 1099511628211ull; h = (h ^ mpz_get_ui(t.second.get_den_mpz_t())) * 1099511628211ull; if (sgn(t.second) < 0) h = ~h; } return h; } };
static std::deque<Poly> POLY; static std::unordered_map<Poly, int, PHash> POLYIX;
static int poly_intern(const Poly& p) { auto it = POLYIX.find(p); if (it != POLYIX.end()) return it->second; int id = POLY.size(); POLY.push_back(p); POLYIX[p] = id; return id; }
// monic normal form: returns (id of p/lc, lc)
static pair<int, mpq_class> poly_norm(const Poly& p) { mpq_class lc = p.back().second; if (lc == 1) return {poly_intern(p), lc}; return {poly_intern(p_scale(p, 1 / lc)), lc}; }

// rational functions
struct RF { Poly num; vector<pair<int,int>> den; };  // den: (poly id, exponent), sorted
struct ValKey { int num; vector<pair<int,int>> den; bool operator==(const ValKey& o) const { return num == o.num && den == o.den; } };
struct VKHash { size_t operator()(const ValKey& v) const { size_t h = v.num * 1099511628211ull; for (auto& p : v.den) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; } return h; } };
static std::deque<ValKey> VALS; static std::unordered_map<ValKey, int, VKHash> VALIX;

static const uint32_t TAG = 0x7FFCADDAu;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool issym(double d) { return (uint32_t)(bits(d) >> 32) == TAG; }
static inline double mk(uint32_t id) { uint64_t u = ((uint64_t)TAG << 32) | id; double d; memcpy(&d, &u, 8); return d; }
static inline uint32_t hid(double d) { return (uint32_t)bits(d); }

static double from_rf(const RF& r0) {
  RF rr; if (ROUND) { rr = r0; for (auto& t : rr.num) { double d = t.second.get_d(); if (std::isfinite(d) && d != 0) t.second = mpq_class(d); } } const RF& r = ROUND ? rr : r0;
  if (r.den.empty() && p_isconst(r.num)) {
    mpq_class c = p_cval(r.num);
    double d = c.get_d();
    if (std::isfinite(d) && mpq_class(d) == c) return d;
  }
  ValKey k{poly_intern(r.num), r.den};
  auto it = VALIX.find(k); if (it != VALIX.end()) return mk(it->second);
  int id = VALS.size(); VALS.push_back(k); VALIX[k] = id; return mk(id);
}
static RF to_rf(double d) {
  RF r;
  if (issym(d)) { const ValKey& k = VALS[hid(d)]; r.num = POLY[k.num]; r.den = k.den; return r; }
  r.num = p_const(mpq_class(d)); return r;
}
static bool rf_isconst(const RF& r) { return r.den.empty() && p_isconst(r.num); }
static bool symconst(double d, mpq_class* c) { if (!issym(d)) { if (!std::isfinite(d)) return false; if (c) *c = mpq_class(d); return true; } const ValKey& k = VALS[hid(d)]; if (!k.den.empty() || !p_isconst(POLY[k.num])) return false; if (c) *c = p_cval(POLY[k.num]); return true; }

// exact division p / f (f monic in our sense); returns false when not divisible
static int mono_cmp(int a, int b) {  // deg-lex
  if (a == b) return 0; const MonoV &x = MONO[a], &y = MONO[b]; int dx = 0, dy = 0; for (auto& p : x) dx += p.second; for (auto& p : y) dy += p.second;
  if (dx != dy) return dx < dy ? -1 : 1;
  size_t i = 0; for (; i < x.size() && i < y.size(); i++) { if (x[i].first != y[i].first) return x[i].first < y[i].first ? 1 : -1; if (x[i].second != y[i].second) return x[i].second < y[i].second ? -1 : 1; }
  return 0;
}
struct MonoLess { bool operator()(int a, int b) const { return mono_cmp(a, b) < 0; } };
static int mono_div(int a, int b) {  // -1 when not divisible
  if (!b) return a; const MonoV &x = MONO[a], &y = MONO[b]; MonoV r; size_t i = 0, j = 0;
  while (i < x.size()) { if (j < y.size() && y[j].first < x[i].first) return -1; if (j < y.size() && y[j].first == x[i].first) { int e = x[i].second - y[j].second; if (e < 0) return -1; if (e) r.push_back({x[i].first, e}); i++; j++; } else r.push_back(x[i++]); }
  if (j < y.size()) return -1; return mono_intern(r);
}
static map<int,int> p_degs(const Poly& p) { map<int,int> d; for (auto& t : p) for (auto& q : MONO[t.first]) { int& e = d[q.first]; if (q.second > e) e = q.second; } return d; }
static bool has_reducible(const map<int,int>& d) { for (auto& x : d) if (atom_reducible(x.first)) return true; return false; }
static bool p_divexact(const Poly& p, const Poly& f, Poly& q) {
  if (p.empty()) { q.clear(); return true; }
  if (p.size() > 1500 || f.size() > 80 || f.size() > p.size() * 4) return false;
  auto dp = p_degs(p), df = p_degs(f);
  for (auto& x : df) { auto it = dp.find(x.first); if (it == dp.end() || it->second < x.second) return false; }
  if (f.size() > 1 && has_reducible(df)) return false;
  if (f.size() == 1) { q.clear(); map<int,mpq_class> m; for (auto& t : p) { int r = mono_div(t.first, f[0].first); if (r < 0) return false; m[r] = t.second / f[0].second; } for (auto& t : m) q.push_back(t); return true; }
  int lf = f[0].first; mpq_class lc = f[0].second; for (auto& t : f) if (mono_cmp(t.first, lf) > 0) { lf = t.first; lc = t.second; }
  std::map<int, mpq_class, MonoLess> rem; for (auto& t : p) rem[t.first] = t.second;
  map<int, mpq_class> quo; int steps = 0;
  while (!rem.empty()) {
    if (++steps > 3000) return false;
    auto it = std::prev(rem.end()); int m = mono_div(it->first, lf); if (m < 0) return false;
    mpq_class c = it->second / lc; quo[m] += c;
    for (auto& t : f) { int mm = mono_mul(m, t.first); auto r = rem.emplace(mm, 0); r.first->second -= c * t.second; if (r.first->second == 0) rem.erase(r.first); }
  }
  q.clear(); for (auto& t : quo) if (t.second != 0) q.push_back(t); return true;
}
static void rf_cancel(RF& r) {
  if (r.num.empty()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size();) {
    Poly q; bool any = false;
    while (r.den[i].second > 0 && p_divexact(r.num, POLY[r.den[i].first], q)) { r.num = q; r.den[i].second--; any = true; }
    (void)any;
    if (r.den[i].second == 0) r.den.erase(r.den.begin() + i); else i++;
  }
}
// ---------------------------------------------------------------- atoms
enum AK { A_VAR, A_SQRT, A_ABS, A_DEF, A_FUN };
struct Atom { AK kind; string name; mpq_class lo, hi; bool bounded = false; double arg = 0, arg2 = 0; int mask = 7; bool red = false; Poly sq; bool input = false; };
static std::deque<Atom> ATOMS;
static map<string, int> VARIX; static map<pair<string, pair<uint64_t, uint64_t>>, int> FUNIX;
static bool atom_reducible(int a) { return ATOMS[a].red; }
static Poly p_reduce(Poly p) {
  for (int it = 0; it < 50; it++) {
    bool any = false; for (auto& t : p) if (MONOSQ[t.first]) { any = true; break; }
    if (!any) return p;
    Poly keep, acc;
    for (auto& t : p) {
      if (!MONOSQ[t.first]) { keep.push_back(t); continue; }
      MonoV m = MONO[t.first]; Poly f = p_const(t.second);
      for (auto& x : m) if (x.second >= 2 && ATOMS[x.first].red) { int h = x.second / 2; x.second %= 2; for (int k = 0; k < h; k++) f = p_mul_raw(f, ATOMS[x.first].sq); }
      MonoV mm; for (auto& x : m) if (x.second) mm.push_back(x);
      Poly mp; mp.push_back({mono_intern(mm), 1}); acc = p_add(acc, p_mul_raw(f, mp));
    }
    p = p_add(keep, acc);
  }
  return p;
}
static int new_atom(Atom a) { int id = ATOMS.size(); ATOMS.push_back(a); return id; }
static double atom_val(int id) { RF r; r.num = p_atom(id); return from_rf(r); }
// name a large value
static RF rf_name(const RF& r) {
  double v = from_rf(r); auto key = std::make_pair(string("def"), std::make_pair(bits(v), (uint64_t)0)); auto it = FUNIX.find(key); int id;
  if (it == FUNIX.end()) { Atom a; a.kind = A_DEF; a.name = "def"; a.arg = v; id = new_atom(a); FUNIX[key] = id; } else id = it->second;
  RF o; o.num = p_atom(id); return o;
}
static RF rf_shrink(const RF& r, size_t lim) { size_t n = r.num.size(); for (auto& d : r.den) n += POLY[d.first].size(); return n > lim ? rf_name(r) : r; }
static Poly den_poly(const vector<pair<int,int>>& d) { Poly p = p_const(1); for (auto& x : d) p = p_mul(p, p_pow(POLY[x.first], x.second)); return p; }
static size_t est(const Poly& p) { return p.size(); }
static RF rf_add(RF a, RF b, int s) {
  if (a.den == b.den) { RF r; r.num = p_add(a.num, b.num, s); r.den = a.den; if (!r.den.empty()) rf_cancel(r); return r; }
  if (est(a.num) * est(b.num) > (size_t)MAXTERMS) { a = rf_shrink(a, 60); b = rf_shrink(b, 60); }
  map<int,int> l; for (auto& x : a.den) l[x.first] = x.second; for (auto& x : b.den) l[x.first] = std::max(l[x.first], x.second);
  auto mult = [&](const RF& r) { Poly p = r.num; map<int,int> h; for (auto& x : r.den) h[x.first] = x.second; for (auto& x : l) for (int k = h[x.first]; k < x.second; k++) p = p_mul(p, POLY[x.first]); return p; };
  RF r; r.num = p_add(mult(a), mult(b), s); for (auto& x : l) r.den.push_back(x); rf_cancel(r); return r;
}
static RF rf_mul(RF a, RF b) {
  if (a.num.empty() || b.num.empty()) return RF();
  if (est(a.num) * est(b.num) > (size_t)MAXTERMS) { a = rf_shrink(a, 60); b = rf_shrink(b, 60); }
  // cross cancellation
  RF x; x.num = a.num; x.den = b.den; rf_cancel(x); RF y; y.num = b.num; y.den = a.den; rf_cancel(y);
  RF r; r.num = p_mul(x.num, y.num); map<int,int> l; for (auto& t : x.den) l[t.first] += t.second; for (auto& t : y.den) l[t.first] += t.second;
  for (auto& t : l) r.den.push_back(t);
  return r;
}
// square root of a polynomial that is a perfect square
static bool p_root(const Poly& p, Poly& q) {
  if (p.size() < 3 || p.size() > 120) return false; for (auto& x : p_degs(p)) if (x.second & 1) return false; if (has_reducible(p_degs(p))) return false;
  std::map<int, mpq_class, MonoLess> rem; for (auto& t : p) rem[t.first] = t.second; auto it = std::prev(rem.end()); MonoV h; for (auto& e : MONO[it->first]) { if (e.second & 1) return false; h.push_back({e.first, e.second / 2}); }
  mpq_class c = it->second; if (sgn(c) <= 0) return false; mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n != c.get_num() || d * d != c.get_den()) return false;
  int lm = mono_intern(h); mpq_class lc(n, d); lc.canonicalize(); map<int, mpq_class> acc; acc[lm] = lc;
  auto subtract = [&](int m, const mpq_class& v) { auto r = rem.emplace(m, 0); r.first->second -= v; if (r.first->second == 0) rem.erase(r.first); };
  subtract(mono_mul(lm, lm), lc * lc);
  for (int k = 0; !rem.empty(); k++) { if (k > 40) return false; auto t = std::prev(rem.end()); int m = mono_div(t->first, lm); if (m < 0 || mono_cmp(m, lm) >= 0 || acc.count(m)) return false; mpq_class v = t->second / (2 * lc); for (auto& a : acc) subtract(mono_mul(a.first, m), 2 * a.second * v); subtract(mono_mul(m, m), v * v); acc[m] = v; }
  q.clear(); for (auto& t : acc) q.push_back(t); return true;
}
// reciprocal of nonzero value
static RF rf_inv(RF a) {
  a = rf_shrink(a, 400);
  RF r; r.num = den_poly(a.den);
  Poly p = a.num; map<int,int> l;
  // monomial content
  if (!p_isconst(p)) {
    map<int,int> c; bool first = true;
    for (auto& t : p) { map<int,int> e; for (auto& q : MONO[t.first]) e[q.first] = q.second; if (first) { c = e; first = false; } else { for (auto it = c.begin(); it != c.end();) { auto f = e.find(it->first); if (f == e.end()) it = c.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } } if (c.empty()) break; }
    if (!c.empty()) { MonoV m; for (auto& x : c) { m.push_back(x); l[poly_intern(p_atom(x.first))] += x.second; } Poly f; f.push_back({mono_intern(m), 1}); Poly q; if (p_divexact(p, f, q)) p = q; else l.clear(); }
  }
  if (p_isconst(p)) r.num = p_scale(r.num, 1 / p_cval(p));
  else { auto n = poly_norm(p); r.num = p_scale(r.num, 1 / n.second); int id = n.first, e = 1; Poly root; while (p_root(POLY[id], root)) { auto m = poly_norm(root); mpq_class f = 1; for (int k = 0; k < 2 * e; k++) f *= m.second; r.num = p_scale(r.num, 1 / f); id = m.first; e *= 2; } l[id] += e; }
  for (auto& x : l) r.den.push_back(x);
  rf_cancel(r);
  return r;
}

// ---------------------------------------------------------------- path condition
struct Con { vector<int> ps; int mask; };   // sign(prod ps) in mask; ps monic ids
static vector<Con> PC; static std::unordered_map<int, int> KNOWN;
static vector<pair<string,string>> CHOICES; static vector<int> INPUTS;
static int flipm(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static int mulmask(int a, int b) { int r = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((a >> i & 1) && (b >> j & 1)) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); } return r; }
static int atom_mask(int a) { const Atom& t = ATOMS[a]; int m = t.mask; if (t.bounded) { if (t.lo > 0) m &= 4; else if (t.lo == 0) m &= 6; if (t.hi < 0) m &= 1; else if (t.hi == 0) m &= 3; } auto it = KNOWN.find(poly_intern(p_atom(a))); if (it != KNOWN.end()) m &= it->second; return m; }
static int poly_mask_raw(const Poly& p) {
  if (p.empty()) return 2; if (p_isconst(p)) return sgn(p_cval(p)) < 0 ? 1 : 4;
  int all = 0; bool strict = false;
  for (auto& t : p) { int m = sgn(t.second) < 0 ? 1 : 4; for (auto& q : MONO[t.first]) { int am = atom_mask(q.first); if (q.second % 2 == 0) am = ((am & 5) ? 4 : 0) | (am & 2); m = mulmask(m, am); } all |= m; if (!(m & 2)) strict = true; if ((all & 5) == 5) return 7; }
  if ((all & 2) && strict) all &= ~2; return all;
}
static int poly_mask(int id) { int m = poly_mask_raw(POLY[id]); auto it = KNOWN.find(id); if (it != KNOWN.end()) m &= it->second; return m ? m : 7; }
// equalities established on the path, solved for one atom
static vector<pair<int, Poly>> EQS;
static Poly p_subst(const Poly& p) {
  if (EQS.empty()) return p; Poly r = p;
  for (auto& e : EQS) {
    bool any = false; for (auto& t : r) { for (auto& q : MONO[t.first]) if (q.first == e.first) { any = true; break; } if (any) break; } if (!any) continue;
    if (r.size() > 2000) return p; Poly keep, acc; vector<Poly> pw{p_const(1)};
    for (auto& t : r) { int k = 0; MonoV m; for (auto& q : MONO[t.first]) if (q.first == e.first) k = q.second; else m.push_back(q); if (!k) { keep.push_back(t); continue; } while ((int)pw.size() <= k) pw.push_back(p_mul(pw.back(), e.second)); Poly mp; mp.push_back({mono_intern(m), t.second}); acc = p_add(acc, p_mul_raw(mp, pw[k])); if (acc.size() > 6000) return p; }
    r = p_reduce(p_add(keep, acc));
  }
  return r;
}
static void learn_eq(int pid) {
  Poly p = p_subst(POLY[pid]); if (p.empty() || p_isconst(p)) return; auto dg = p_degs(p); int best = -1; mpq_class co;
  for (auto& t : p) { const MonoV& m = MONO[t.first]; if (m.size() == 1 && m[0].second == 1 && dg[m[0].first] == 1) { int x = m[0].first, n = 0; for (auto& u : p) for (auto& q : MONO[u.first]) if (q.first == x) n++; if (n == 1 && x > best && !atom_reducible(x)) { best = x; co = t.second; } } }
  if (best < 0) return; Poly r; for (auto& t : p) { const MonoV& m = MONO[t.first]; if (m.size() == 1 && m[0].first == best) continue; r.push_back({t.first, -t.second / co}); }
  // keep the replacements idempotent
  vector<pair<int, Poly>> old; old.swap(EQS); EQS.push_back({best, r}); for (auto& e : old) e.second = p_subst(e.second); old.push_back({best, r}); EQS.swap(old);
}
// canonicalise sign condition on value: returns Con over undetermined factors
static Con make_con(RF v, int mask) {
  if (!EQS.empty()) v.num = p_subst(v.num);
  Con c; c.mask = mask; if (v.num.empty()) { return c.mask = (mask & 2) ? 7 : 0, c; }
  if (p_isconst(v.num)) { if (sgn(p_cval(v.num)) < 0) c.mask = flipm(c.mask); }
  else { auto n = poly_norm(v.num); if (n.second < 0) c.mask = flipm(c.mask); c.ps.push_back(n.first); }
  for (auto& d : v.den) if (d.second & 1) c.ps.push_back(d.first);
  // zero factors only possible for the numerator (denominators are nonzero on this path)
  vector<int> keep; int num = p_isconst(v.num) ? -1 : c.ps[0];
  if (num < 0) { if (v.num.empty()) {} c.mask = (c.mask & 5); }
  for (int p : c.ps) { int m = poly_mask(p); if (p != num) m &= 5; if (m == 4) continue; if (m == 1) { c.mask = flipm(c.mask); continue; } if (m == 2) { c.mask = (c.mask & 2) ? 7 : 0; c.ps.clear(); return c; } keep.push_back(p); }
  c.ps = keep; std::sort(c.ps.begin(), c.ps.end());
  // a squared factor p*p
  for (size_t i = 0; i + 1 < c.ps.size();) { if (c.ps[i] == c.ps[i + 1]) { c.ps.erase(c.ps.begin() + i, c.ps.begin() + i + 2); i = 0; } else i++; }
  if (c.ps.empty()) { c.mask = (c.mask & 4) ? 7 : 0; return c; }
  if (c.mask == 2 || c.mask == 5) { if (num >= 0 && std::find(c.ps.begin(), c.ps.end(), num) != c.ps.end()) c.ps = {num}; }
  if (c.ps.size() == 1) { int m = poly_mask(c.ps[0]); if (c.ps[0] != num) m &= 5; if ((m & ~c.mask) == 0) c.mask = 7; else if ((m & c.mask) == 0) c.mask = 0; }
  return c;
}
static void add_con(const Con& c) {
  if (c.mask == 7) return; PC.push_back(c); SH->cons++;
  if (c.ps.size() == 1) { auto it = KNOWN.find(c.ps[0]); int m; if (it == KNOWN.end()) m = KNOWN[c.ps[0]] = c.mask; else m = it->second &= c.mask; if (m == 2) learn_eq(c.ps[0]); }
}
// ---------------------------------------------------------------- SMT
static string q2s(const mpq_class& c) { mpq_class a = abs(c); string s = a.get_den() == 1 ? a.get_num().get_str() + ".0" : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)"; return sgn(c) < 0 ? "(- " + s + ")" : s; }
static string p2s(const Poly& p) {
  if (p.empty()) return "0.0"; string s; 
  for (auto& t : p) { string m; int n = 0; if (t.second != 1 || !t.first) { m += " " + q2s(t.second); n++; } for (auto& q : MONO[t.first]) for (int k = 0; k < q.second; k++) { m += " a" + std::to_string(q.first); n++; } s += n == 1 ? m : " (*" + m + ")"; }
  return p.size() == 1 ? s.substr(1) : "(+" + s + ")";
}
static string rel(const string& t, int mask) { switch (mask) { case 0: return "false"; case 7: return "true"; case 1: return "(< " + t + " 0.0)"; case 2: return "(= " + t + " 0.0)"; case 4: return "(> " + t + " 0.0)"; case 3: return "(<= " + t + " 0.0)"; case 6: return "(>= " + t + " 0.0)"; default: return "(not (= " + t + " 0.0))"; } }
static string con2s(const Con& c) { if (c.mask == 7) return "true"; if (c.mask == 0) return "false"; if (c.ps.size() == 1) return rel(p2s(POLY[c.ps[0]]), c.mask);
  // product of few factors: case split over signs keeps the degree low
  if (c.ps.size() <= 3) { string o = "(or"; int n = c.ps.size(), tot = 1; for (int i = 0; i < n; i++) tot *= 3; bool any = false;
    for (int k = 0; k < tot; k++) { int x = k, s = 1; string cj = "(and"; for (int i = 0; i < n; i++) { int g = x % 3 - 1; x /= 3; s *= g; cj += " " + rel(p2s(POLY[c.ps[i]]), 1 << (g + 1)); } if (c.mask >> (s + 1) & 1) { o += " " + cj + ")"; any = true; } }
    return any ? o + ")" : "false"; }
  string t = "(*"; for (int p : c.ps) t += " " + p2s(POLY[p]); return rel(t + ")", c.mask); }
static string val_cmp(double a, double b, int mask) {  // textual constraint sign(a-b) in mask
  RF d = rf_add(to_rf(a), to_rf(b), -1); return con2s(make_con(d, mask));
}
static void poly_atoms(const Poly& p, std::set<int>& s) { for (auto& t : p) for (auto& q : MONO[t.first]) s.insert(q.first); }
static void val_atoms(double v, std::set<int>& s) { if (!issym(v)) return; const ValKey& k = VALS[hid(v)]; poly_atoms(POLY[k.num], s); for (auto& d : k.den) poly_atoms(POLY[d.first], s); }
static std::set<int> con_atoms(const Con& c) { std::set<int> s; for (int p : c.ps) poly_atoms(POLY[p], s); return s; }
static void close_atoms(std::set<int>& s) { vector<int> w(s.begin(), s.end()); while (!w.empty()) { int a = w.back(); w.pop_back(); const Atom& t = ATOMS[a]; if (t.kind == A_VAR) continue; std::set<int> n; val_atoms(t.arg, n); if (t.kind == A_FUN) val_atoms(t.arg2, n); for (int x : n) if (s.insert(x).second) w.push_back(x); } }
static string an(int a) { return "a" + std::to_string(a); }
static double neg(double v) { RF r = to_rf(v); r.num = p_scale(r.num, -1); return from_rf(r); }
static bool eval_fun(const string& f, long double x, long double y, long double& r) { if (f == "exp") r = expl(x); else if (f == "log") r = logl(x); else if (f == "log2") r = log2l(x); else if (f == "log10") r = log10l(x); else if (f == "sin") r = sinl(x); else if (f == "cos") r = cosl(x); else if (f == "tan") r = tanl(x); else if (f == "atan") r = atanl(x); else if (f == "atan2") r = atan2l(x, y); else if (f == "asin") r = asinl(x); else if (f == "acos") r = acosl(x); else if (f == "pow") r = powl(x, y); else if (f == "lgamma") r = lgammal(x); else if (f == "expm1") r = expm1l(x); else if (f == "log1p") r = log1pl(x); else if (f == "cbrt") r = cbrtl(x); else if (f == "tanh") r = tanhl(x); else if (f == "erf") r = erfl(x); else return false; return true; }
static const char* PI_LO = "3.14159265"; static const char* PI_HI = "3.14159266";
static void atom_axioms(int a, const std::set<int>& all, vector<string>& out) {
  const Atom& t = ATOMS[a]; string x = an(a);
  auto defeq = [&](const string& lhs) { RF v = to_rf(t.arg); Poly d = den_poly(v.den); out.push_back("(= (* " + lhs + " " + p2s(d) + ") " + p2s(v.num) + ")"); };
  switch (t.kind) {
    case A_VAR: if (t.bounded) { out.push_back("(<= " + q2s(t.lo) + " " + x + ")"); out.push_back("(<= " + x + " " + q2s(t.hi) + ")"); } break;
    case A_SQRT: out.push_back("(>= " + x + " 0.0)"); defeq("(* " + x + " " + x + ")"); break;
    case A_DEF: defeq(x); break;
    case A_ABS: { out.push_back("(>= " + x + " 0.0)"); RF v = to_rf(t.arg); Poly d = den_poly(v.den); string n = p2s(v.num), dd = p2s(d); out.push_back("(or (= (* " + x + " " + dd + ") " + n + ") (= (* " + x + " " + dd + ") (- " + n + ")))"); break; }
    case A_FUN: {
      const string& f = t.name;
      { auto sub = [](RF v) { v.num = p_subst(v.num); vector<pair<int,int>> dd; for (auto& d : v.den) { Poly q = p_subst(POLY[d.first]); if (!q.empty() && p_isconst(q)) { for (int k = 0; k < d.second; k++) v.num = p_scale(v.num, 1 / p_cval(q)); } else dd.push_back(d); } v.den = dd; return v; };
        RF v = sub(to_rf(t.arg)), u = sub(to_rf(t.arg2)); // constant argument on this path: the value itself, to 1e-12
        if (v.den.empty() && p_isconst(v.num) && u.den.empty() && p_isconst(u.num)) { map<int, long double> env; long double r; Atom c = t; c.arg = p_cval(v.num).get_d(); c.arg2 = p_cval(u.num).get_d(); if (eval_fun(c.name, c.arg, c.arg2, r) && std::isfinite((double)r)) { double w = 1e-12 * std::max(1.0, std::fabs((double)r)); out.push_back("(<= " + q2s(mpq_class((double)r) - mpq_class(w)) + " " + x + ")"); out.push_back("(<= " + x + " " + q2s(mpq_class((double)r) + mpq_class(w)) + ")"); } } }
      if (t.mask != 7) out.push_back(rel(x, t.mask));
      auto arg0 = [&](int mask, const string& r) { out.push_back("(=> " + val_cmp(t.arg, 0.0, mask) + " " + r + ")"); };
      if (f == "exp") { arg0(1, "(< " + x + " 1.0)"); arg0(2, "(= " + x + " 1.0)"); arg0(4, "(> " + x + " 1.0)");
        RF v = to_rf(t.arg); if (v.den.empty()) out.push_back("(>= " + x + " (+ 1.0 " + p2s(v.num) + "))");
        out.push_back("(=> " + val_cmp(t.arg, -1.0, 3) + " (<= " + x + " 0.36787945))"); out.push_back("(=> " + val_cmp(t.arg, -1.0, 6) + " (>= " + x + " 0.36787944))");
      }
      else if (f == "log" || f == "log2" || f == "log10") { out.push_back("(=> " + val_cmp(t.arg, 1.0, 1) + " (< " + x + " 0.0))"); out.push_back("(=> " + val_cmp(t.arg, 1.0, 2) + " (= " + x + " 0.0))"); out.push_back("(=> " + val_cmp(t.arg, 1.0, 4) + " (> " + x + " 0.0))");
        RF v = to_rf(t.arg); if (f == "log" && v.den.empty()) out.push_back("(<= " + x + " (- " + p2s(v.num) + " 1.0))"); }
      else if (f == "sin" || f == "cos") { out.push_back("(<= " + x + " 1.0)"); out.push_back("(>= " + x + " (- 1.0))"); if (f == "cos") arg0(2, "(= " + x + " 1.0)"); else arg0(2, "(= " + x + " 0.0)");
        for (int b : all) if (b > a && ATOMS[b].kind == A_FUN && (ATOMS[b].name == "sin" || ATOMS[b].name == "cos") && ATOMS[b].name != f && bits(ATOMS[b].arg) == bits(t.arg)) out.push_back("(= (+ (* " + x + " " + x + ") (* " + an(b) + " " + an(b) + ")) 1.0)");
        if (f == "cos") { out.push_back("(=> (and " + val_cmp(t.arg, 1.5707963267, 1) + " " + val_cmp(t.arg, -1.5707963267, 4) + ") (> " + x + " 0.0))"); }
        else { arg0(4, "(=> " + val_cmp(t.arg, 3.1415926535, 1) + " (> " + x + " 0.0))"); arg0(1, "(=> " + val_cmp(t.arg, -3.1415926535, 4) + " (< " + x + " 0.0))"); } }
      else if (f == "atan") { out.push_back(string("(< ") + x + " (/ " + PI_HI + " 2.0))"); out.push_back(string("(> ") + x + " (- (/ " + PI_HI + " 2.0)))"); arg0(1, "(< " + x + " 0.0)"); arg0(2, "(= " + x + " 0.0)"); arg0(4, "(> " + x + " 0.0)"); }
      else if (f == "tan") { arg0(2, "(= " + x + " 0.0)"); }
      else if (f == "pow") { }
      bool mono = f == "exp" || f == "log" || f == "log2" || f == "log10" || f == "atan";
      for (int b : all) if (b > a && ATOMS[b].kind == A_FUN && ATOMS[b].name == f) {
        const Atom& u = ATOMS[b]; string y = an(b);
        if (mono) { out.push_back("(=> " + val_cmp(t.arg, u.arg, 1) + " (< " + x + " " + y + "))"); out.push_back("(=> " + val_cmp(t.arg, u.arg, 2) + " (= " + x + " " + y + "))"); out.push_back("(=> " + val_cmp(t.arg, u.arg, 4) + " (> " + x + " " + y + "))"); }
        else if (f == "pow") { out.push_back("(=> (and " + val_cmp(t.arg, u.arg, 2) + " " + val_cmp(t.arg2, u.arg2, 2) + ") (= " + x + " " + y + "))");
          if (bits(t.arg2) == bits(u.arg2)) { mpq_class e; if (symconst(t.arg2, &e)) { int up = sgn(e) > 0; out.push_back("(=> (and " + val_cmp(t.arg, 0.0, 6) + " " + val_cmp(u.arg, 0.0, 6) + " " + val_cmp(t.arg, u.arg, 1) + ") (" + (up ? "<" : ">") + " " + x + " " + y + "))"); out.push_back("(=> (and " + val_cmp(t.arg, 0.0, 6) + " " + val_cmp(u.arg, 0.0, 6) + " " + val_cmp(t.arg, u.arg, 4) + ") (" + (up ? ">" : "<") + " " + x + " " + y + "))"); } } }
        else out.push_back("(=> (and " + val_cmp(t.arg, u.arg, 2) + " " + val_cmp(t.arg2, u.arg2, 2) + ") (= " + x + " " + y + "))");
      }
      break;
    }
  }
}
static long QN = 0;
static string run_proc(vector<string> av, double tmo, const string& infile) {
  int pf[2]; if (pipe(pf)) return ""; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, pf[1], 1); posix_spawn_file_actions_adddup2(&fa, pf[1], 2); posix_spawn_file_actions_addclose(&fa, pf[0]); posix_spawn_file_actions_addclose(&fa, pf[1]);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  av.push_back(infile); vector<char*> a; for (auto& s : av) a.push_back((char*)s.c_str()); a.push_back(nullptr); pid_t pid;
  if (posix_spawnp(&pid, a[0], &fa, nullptr, a.data(), environ)) { close(pf[0]); close(pf[1]); posix_spawn_file_actions_destroy(&fa); return ""; }
  posix_spawn_file_actions_destroy(&fa); close(pf[1]); string out; double t0 = now();
  for (;;) { double left = tmo + 1 - (now() - t0); if (left <= 0) { kill(pid, SIGKILL); break; } pollfd p{pf[0], POLLIN, 0}; int r = poll(&p, 1, (int)(left * 1000) + 1); if (r < 0 && errno == EINTR) continue; if (r == 0) { kill(pid, SIGKILL); break; } char b[8192]; ssize_t n = read(pf[0], b, sizeof b); if (n <= 0) break; out.append(b, n); }
  close(pf[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR); return out;
}
enum Res { UNSAT, SAT, UNK };
static std::unordered_map<string, int> QCACHE;
static string build_query(const vector<string>& extra, const vector<Con>& cons, std::set<int> atoms, bool slice, bool model, bool nlsat, bool cvc) {
  close_atoms(atoms);
  vector<char> in(PC.size(), !slice);
  if (!slice) { for (auto& c : PC) for (int a : con_atoms(c)) atoms.insert(a); for (int a : INPUTS) atoms.insert(a); close_atoms(atoms); }
  else for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!in[i]) { auto s = con_atoms(PC[i]); close_atoms(s); bool hit = s.empty(); for (int a : s) if (atoms.count(a)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; atoms.insert(s.begin(), s.end()); } } }
  // function atoms: add denominators' nonzero conditions are already part of PC
  string q; if (cvc) q += "(set-logic QF_NRA)\n"; if (model) q += cvc ? "(set-option :produce-models true)\n" : "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n";
  for (int a : atoms) q += "(declare-const a" + std::to_string(a) + " Real)\n";
  vector<string> ax; for (int a : atoms) atom_axioms(a, atoms, ax);
  for (auto& s : ax) if (s != "true") q += "(assert " + s + ")\n";
  for (size_t i = 0; i < PC.size(); i++) if (in[i]) q += "(assert " + con2s(PC[i]) + ")\n";
  for (auto& c : cons) q += "(assert " + con2s(c) + ")\n";
  for (auto& s : extra) q += "(assert " + s + ")\n";
  q += nlsat ? "(check-sat-using (then simplify propagate-values qfnra-nlsat))\n" : "(check-sat)\n";
  if (model) { q += "(get-value ("; bool any = false; for (int a : INPUTS) if (atoms.count(a)) { q += " a" + std::to_string(a); any = true; } q += "))\n"; if (!any) { q.resize(q.rfind("(get-value")); } }
  return q;
}
static Res parse_res(const string& o) { if (o.find("(error") != string::npos && o.find("model is not available") == string::npos) return UNK; size_t e = o.find('\n'); string l = o.substr(0, e); if (l == "unsat") return UNSAT; if (l == "sat") return SAT; return UNK; }
static int KEEPQ = -1;
static void check_deadline(); static bool IN_REPORT = false;
static Res solve(const vector<Con>& cons, const vector<string>& extra, const std::set<int>& at, bool slice, double tmo, bool portfolio, string* modelout = nullptr) {
  std::set<int> atoms = at; for (auto& c : cons) { if (c.mask == 0) return UNSAT; auto s = con_atoms(c); atoms.insert(s.begin(), s.end()); }
  if (!IN_REPORT) check_deadline(); double t0 = now(); string q = build_query(extra, cons, atoms, slice, modelout != nullptr, false, false);
  if (!modelout) { auto it = QCACHE.find(q); if (it != QCACHE.end()) return (Res)it->second; }
  string base = OUTDIR + "/q." + std::to_string(getpid()) + "." + std::to_string(QN++); string f = base + ".smt2";
  auto put = [&](const string& s) { FILE* fp = fopen(f.c_str(), "w"); if (!fp) return; fputs(s.c_str(), fp); fclose(fp); };
  put(q); string o = run_proc({"z3-new", "-T:" + std::to_string((int)std::ceil(tmo))}, tmo, f); Res r = parse_res(o);
  if (r == UNK && portfolio) {
    put(build_query(extra, cons, atoms, slice, modelout != nullptr, true, false)); o = run_proc({"z3-new", "-T:" + std::to_string((int)std::ceil(tmo))}, tmo, f); r = parse_res(o);
    if (r == UNK && !modelout) { put(build_query(extra, cons, atoms, slice, false, false, true)); o = run_proc({"cvc5", "--tlimit=" + std::to_string((int)(tmo * 1000))}, tmo, f); r = parse_res(o); }
    if (r == UNK) { put(q); o = run_proc({"z3", "-T:" + std::to_string((int)std::ceil(tmo))}, tmo, f); r = parse_res(o); }
  }
  if ((r == UNK && getenv("SYM_KEEPUNK")) || (IN_REPORT && getenv("SYM_KEEPVIOL"))) { } else unlink(f.c_str());
  SH->queries++; SH->q_us += (long)((now() - t0) * 1e6); if (r == SAT) SH->q_sat++; else if (r == UNSAT) SH->q_unsat++; else SH->q_unknown++;
  if (modelout) *modelout = o; else QCACHE[q] = r;
  return r;
}
static Res solve_text(const string& q, double tmo) {
  double t0 = now(); string f = OUTDIR + "/q." + std::to_string(getpid()) + "." + std::to_string(QN++) + ".smt2"; FILE* fp = fopen(f.c_str(), "w"); if (!fp) return UNK; fputs(q.c_str(), fp); fclose(fp);
  Res r = parse_res(run_proc({"z3-new", "-T:" + std::to_string((int)std::ceil(tmo))}, tmo, f)); unlink(f.c_str()); SH->queries++; SH->q_us += (long)((now() - t0) * 1e6); if (r == SAT) SH->q_sat++; else if (r == UNSAT) SH->q_unsat++; else SH->q_unknown++; return r;
}
static double BR_TMO = 3, AS_TMO = 8;
static void check_deadline() { if (DEADLINE && now() > DEADLINE) { SH->timeouts++; logline("INCONC\tdeadline"); path_exit("deadline"); } }
// ---------------------------------------------------------------- forking
static long DEPTH = 0;
static bool do_fork() {   // returns true in the child
  check_deadline(); SH->forks++; DEPTH++; if (DEPTH > SH->depthmax) SH->depthmax = DEPTH;
  bool tok = false; long t = SH->tokens.load(); while (t > 0) { if (SH->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; } }
  pid_t p = fork();
  if (p < 0) { if (tok) SH->tokens++; unsupported("fork failed"); }
  if (p == 0) { CHILDREN.clear(); TOKCHILDREN.clear(); HAVE_TOKEN = tok; RELEASED = false; return true; }
  if (tok) TOKCHILDREN.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); reap_status(p, st, false); }
  return false;
}
// a numeric model of the path condition answers one side of most branches
static map<int, long double> MODEL; static bool MODEL_OK = false;
static bool eval_poly(const Poly& p, map<int, long double>& env, long double& r);
static bool parse_model(const string& o, map<int, long double>& env);
static double mid(int a);
static int eval_con(const Con& c, map<int, long double>& env) {
  int sg = 1; for (int p : c.ps) { long double x; if (!eval_poly(POLY[p], env, x)) return -1; long double sc = 0; for (auto& t : POLY[p]) sc = std::max(sc, (long double)std::fabs(t.second.get_d())); if (fabsl(x) <= 1e-9L * std::max(1.0L, sc)) { if (x == 0 && POLY[p].size() <= 2) { sg = 0; continue; } return -1; } sg *= x > 0 ? 1 : -1; }
  return c.mask >> (sg + 1) & 1; }
static bool model_holds(map<int, long double> env) { for (auto& c : PC) if (eval_con(c, env) != 1) return false; return true; }
static bool take_model(const string& o, const Con& c, map<int, long double>& out) {
  map<int, long double> e; if (!parse_model(o, e)) return false; out.clear(); for (int a : INPUTS) { auto it = e.find(a); if (it != e.end()) out[a] = it->second; else { auto k = MODEL.find(a); out[a] = k != MODEL.end() ? k->second : (long double)mid(a); } }
  for (auto& k : MODEL) if (ATOMS[k.first].kind == A_VAR && !out.count(k.first)) out[k.first] = k.second;
  auto t = out; return eval_con(c, t) == 1 && model_holds(out); }
static bool decide(Con c) {
  if (c.mask == 7) return true; if (c.mask == 0) return false;
  SH->branches++;
  Con n = c; n.mask = 7 & ~c.mask; int side = -1;
  if (MODEL_OK) { for (int a : INPUTS) if (!MODEL.count(a)) MODEL[a] = mid(a); auto env = MODEL; side = eval_con(c, env); }
  map<int, long double> mc, mn; bool okc = false, okn = false; string o;
  if (side == 1) { mc = MODEL; okc = true; } else {
    Res r = solve({c}, {}, {}, true, BR_TMO, false, &o);
    if (r == UNSAT) { if (n.ps.size() == 1) { int& k = KNOWN.emplace(n.ps[0], 7).first->second; k &= n.mask; } return false; }
    okc = r == SAT && take_model(o, c, mc); }
  if (side == 0) { mn = MODEL; okn = true; } else {
    Res r2 = solve({n}, {}, {}, true, BR_TMO, false, &o);
    if (r2 == UNSAT) { if (c.ps.size() == 1) { int& k = KNOWN.emplace(c.ps[0], 7).first->second; k &= c.mask; } if (!MODEL_OK && okc) { MODEL = mc; MODEL_OK = true; } return true; }
    okn = r2 == SAT && take_model(o, n, mn); }
  if (do_fork()) { MODEL_OK = okc; if (okc) MODEL = mc; add_con(c); return true; }
  MODEL_OK = okn; if (okn) MODEL = mn; add_con(n); return false;
}
static int REGULAR = 0;
static bool decide_val(const RF& v, int mask);
// "regular" mode: a quotient's divisor is nonzero, the argument of a root or logarithm positive.  Assumed (and counted)
// when a model of the path agrees; decided as any other branch when the model disagrees.
static bool regular(const RF& v, int mask) {
  Con c = make_con(v, mask); if (c.mask == 7) return true; if (c.mask == 0) return false;
  if (REGULAR) {
    if (!MODEL_OK && PC.empty()) { MODEL.clear(); MODEL_OK = true; }
    if (MODEL_OK) { for (int a : INPUTS) if (!MODEL.count(a)) MODEL[a] = mid(a); auto env = MODEL; if (eval_con(c, env) != 1) MODEL_OK = false; }
    for (int k = 0; k < 24 && !MODEL_OK; k++) { map<int, long double> m; uint64_t h = 88172645463325252ull + k * 7919; for (int a : INPUTS) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; double f = double(h >> 11) / 9007199254740992.0; m[a] = (ATOMS[a].lo.get_d() + (ATOMS[a].hi.get_d() - ATOMS[a].lo.get_d()) * f); } auto env = m; if (eval_con(c, env) == 1 && model_holds(m)) { MODEL = m; MODEL_OK = true; } }
    if (!MODEL_OK) { map<int, long double> m; string o; Res r = solve({c}, {}, {}, true, BR_TMO, false, &o); if (r == SAT && take_model(o, c, m)) { MODEL = m; MODEL_OK = true; } }
    if (MODEL_OK) { for (int a : INPUTS) if (!MODEL.count(a)) MODEL[a] = mid(a); auto env = MODEL; if (eval_con(c, env) == 1) { SH->assumed++; add_con(c); return true; } }
  }
  return decide(c);
}
static bool decide_val(const RF& v, int mask) { Con c = make_con(v, mask); return decide(c); }
static int sign_of(double v) { // forks until sign known
  if (!issym(v)) return v > 0 ? 1 : v < 0 ? -1 : 0; RF r = to_rf(v); if (decide_val(r, 2)) return 0; return decide_val(r, 4) ? 1 : -1; }
int rt_sign(double v) { return sign_of(v); }
static bool is_zero(double v) { if (!issym(v)) return v == 0; return decide_val(to_rf(v), 2); }
bool rt_is_zero(double v) { return is_zero(v); }
bool rt_issym(double v) { return issym(v); }

// ---------------------------------------------------------------- numeric evaluation
static bool eval_atom(int a, map<int, long double>& env, long double& r);
static bool eval_poly(const Poly& p, map<int, long double>& env, long double& r) { r = 0; for (auto& t : p) { long double m = t.second.get_d(); for (auto& q : MONO[t.first]) { long double x; if (!eval_atom(q.first, env, x)) return false; for (int k = 0; k < q.second; k++) m *= x; } r += m; } return true; }
static bool eval_val(double v, map<int, long double>& env, long double& r) { if (!issym(v)) { r = v; return true; } const ValKey& k = VALS[hid(v)]; if (!eval_poly(POLY[k.num], env, r)) return false; for (auto& d : k.den) { long double x; if (!eval_poly(POLY[d.first], env, x) || x == 0) return false; for (int i = 0; i < d.second; i++) r /= x; } return true; }
static bool eval_atom(int a, map<int, long double>& env, long double& r) {
  auto it = env.find(a); if (it != env.end()) { r = it->second; return true; }
  const Atom& t = ATOMS[a]; if (t.kind == A_VAR) return false; long double x, y = 0; if (!eval_val(t.arg, env, x)) return false; if (t.kind == A_FUN && !eval_val(t.arg2, env, y)) return false;
  if (t.kind == A_SQRT) { if (x < 0) { if (x > -1e-9) x = 0; else return false; } r = sqrtl(x); } else if (t.kind == A_ABS) r = fabsl(x); else if (t.kind == A_DEF) r = x;
  else if (!eval_fun(t.name, x, y, r)) return false;
  env[a] = r; return std::isfinite((double)r);
}
// ---------------------------------------------------------------- models
static double mid(int a) { mpq_class m = (ATOMS[a].lo + ATOMS[a].hi) / 2; return m.get_d(); }
static bool parse_model(const string& o, map<int, long double>& env) {
  size_t i = o.find("(("); if (i == string::npos) return INPUTS.empty(); 
  // tokens: ((a1 v) (a2 v))
  std::function<bool(size_t&, long double&)> val = [&](size_t& p, long double& v) -> bool {
    while (p < o.size() && isspace(o[p])) p++; if (p >= o.size()) return false;
    if (o[p] == '(') { p++; while (isspace(o[p])) p++; if (o[p] == '-') { p++; long double x; if (!val(p, x)) return false; while (isspace(o[p])) p++; if (o[p] == ')') p++; v = -x; return true; } if (o[p] == '/') { p++; long double x, y; if (!val(p, x) || !val(p, y)) return false; while (isspace(o[p])) p++; if (o[p] == ')') p++; v = x / y; return true; }
      return false; }
    char* e; string s; size_t q = p; while (q < o.size() && !isspace(o[q]) && o[q] != ')') s += o[q++]; if (!s.empty() && s.back() == '?') s.pop_back(); v = strtold(s.c_str(), &e); if (e == s.c_str()) return false; p = q; return true; };
  size_t p = i + 1;
  while (p < o.size()) { while (p < o.size() && o[p] != '(' && o[p] != ')') p++; if (p >= o.size() || o[p] == ')') break; p++; while (isspace(o[p])) p++; if (o[p] != 'a') return false; int id = atoi(o.c_str() + p + 1); while (p < o.size() && !isspace(o[p])) p++; long double v; if (!val(p, v)) return false; env[id] = v; while (p < o.size() && o[p] != ')') p++; p++; }
  return true;
}
static string env2s(const map<int, long double>& env) { string s; char b[64]; for (auto& c : CHOICES) s += c.first + "=" + c.second + " "; for (int a : INPUTS) { auto it = env.find(a); if (it == env.end()) continue; snprintf(b, sizeof b, "%.17g", (double)it->second); s += ATOMS[a].name + "=" + b + " "; } return s; }
static vector<pair<string,double>> OBS; static long NSTEP = 0;
// make a model easy to reproduce: try progressively coarser grids for the inputs
static vector<map<int,long double>> models(const vector<Con>& cons, const vector<string>& extra, const std::set<int>& at, double tmo) {
  vector<map<int,long double>> res; string o;
  Res r = solve(cons, extra, at, false, tmo, true, &o); map<int,long double> env;
  if (r == SAT && parse_model(o, env)) {
    for (int a : INPUTS) if (!env.count(a)) env[a] = mid(a);
    res.push_back(env);
    // interior variant: keep away from the bounds
    vector<string> ex = extra; for (int a : INPUTS) { mpq_class w = (ATOMS[a].hi - ATOMS[a].lo) / 16; ex.push_back("(<= " + q2s(ATOMS[a].lo + w) + " " + an(a) + ")"); ex.push_back("(<= " + an(a) + " " + q2s(ATOMS[a].hi - w) + ")"); }
    if (solve(cons, ex, at, false, std::min(tmo, 5.0), false, &o) == SAT) { map<int,long double> e2; if (parse_model(o, e2)) { for (int a : INPUTS) if (!e2.count(a)) e2[a] = mid(a); res.push_back(e2); } }
  }
  return res;
}
// numeric points of the path, to find counterexamples before asking for one
static vector<map<int, long double>> GUESS; static size_t GUESS_PC = (size_t)-1, GUESS_IN = (size_t)-1;
static const vector<map<int, long double>>& guesses() {
  if (GUESS_PC == PC.size() && GUESS_IN == INPUTS.size()) return GUESS; GUESS_PC = PC.size(); GUESS_IN = INPUTS.size(); vector<map<int, long double>> old; old.swap(GUESS);
  if (MODEL_OK) { for (int a : INPUTS) if (!MODEL.count(a)) MODEL[a] = mid(a); if (model_holds(MODEL)) GUESS.push_back(MODEL); }
  uint64_t h = 0x9E3779B97F4A7C15ull; for (int k = 0; k < 40 && GUESS.size() < 4; k++) { map<int, long double> m; for (int a : INPUTS) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; double f = double((h >> 20) & 1023) / 1024.0; long double lo = ATOMS[a].lo.get_d(), w = mpq_class(ATOMS[a].hi - ATOMS[a].lo).get_d(); if (GUESS.size() && MODEL_OK && (k & 1)) { m[a] = GUESS[0][a] + w * (f - 0.5) / 16; if (m[a] < lo) m[a] = lo; if (m[a] > lo + w) m[a] = lo + w; } else m[a] = lo + w * f; } if (model_holds(m)) GUESS.push_back(m); }
  return GUESS;
}
static map<string,int> VCOUNT; static const char* CURFN = "";
static void report_violation(const string& kind, const string& msg, const vector<Con>& cons, const vector<string>& extra, const std::set<int>& at) {
  SH->violations++; IN_REPORT = true; auto ms = models(cons, extra, at, 10); IN_REPORT = false; if (ms.empty() && cons.empty() && extra.empty()) for (auto& g : guesses()) ms.push_back(g); if (ms.empty()) { SH->inconclusive++; logline("INCONC\tno model for: " + esc(msg)); return; }
  for (auto& e : ms) logline("VIOL\t" + kind + "\t" + esc(msg) + "\t" + env2s(e));
}
static vector<pair<string,string>> BATCH;  // identities decided by normal form, rechecked by the solver at path end
static std::set<int> BATCHATOMS;
static void flush_batch() {
  if (BATCH.empty()) return; vector<string> ex; string o = "(or"; for (auto& b : BATCH) o += " (not (= " + b.first + " " + b.second + "))"; ex.push_back(o + ")");
  // an identity holds for all values of the atoms: first without the path and the axioms
  Res r = UNK; { string q; for (int a : BATCHATOMS) q += "(declare-const a" + std::to_string(a) + " Real)\n"; q += "(assert " + ex[0] + ")\n(check-sat)\n"; r = solve_text(q, AS_TMO); }
  if (r != UNSAT) r = solve({}, ex, BATCHATOMS, true, AS_TMO, true); SH->assert_q++; if (r != UNSAT) { SH->inconclusive++; logline("INCONC\tidentity batch not discharged"); } BATCH.clear();
}
[[noreturn]] void rt_path_end() {
  IN_REPORT = true; flush_batch(); SH->paths++;
  long w = SH->witness.load(); bool mine = false; while (w < MAXWIT) { if (SH->witness.compare_exchange_weak(w, w + 1)) { mine = true; break; } }
  if (mine) {
    auto ms = models({}, {}, {}, 5);
    if (ms.empty()) logline("WITNESSFAIL"); else {
      // the interior model is preferred
      auto env = ms.back(); string s = "WITNESS\t" + env2s(env) + "\t"; auto e2 = env; bool ok = true;
      for (auto& c : PC) { int sg = 1; for (int p : c.ps) { long double x; if (!eval_poly(POLY[p], e2, x)) { ok = false; break; } sg *= x > 1e-7 ? 1 : x < -1e-7 ? -1 : 0; } if (!ok) break; if (!(c.mask >> (sg + 1) & 1)) { ok = false; break; } }
      for (auto& x : OBS) { long double v; char b[64]; if (!issym(x.second) || eval_val(x.second, e2, v)) { snprintf(b, sizeof b, "%.12g", issym(x.second) ? (double)v : x.second); s += x.first + "=" + b + " "; } }
      if (ok) logline(s); else logline("WITNESSSKIP");
    }
  }
  release_token(); finish_children(); _exit(0);
}
// ---------------------------------------------------------------- arithmetic entry points
static int IEEE = 0;
static inline double nanv() { return std::nan(""); }
static double sgn_inf(int s) { return s > 0 ? INFINITY : -INFINITY; }
extern "C" {
double __sym_fadd(double a, double b) {
  if (!issym(a) && !issym(b)) { double r = a + b; if (IEEE || !std::isfinite(r)) return r; double bb = r - a, e = (a - (r - bb)) + (b - bb); if (e == 0) return r; return from_rf(rf_add(to_rf(a), to_rf(b), 1)); }
  if (!issym(a) && !std::isfinite(a)) return a; if (!issym(b) && !std::isfinite(b)) return b;
  if (!issym(a) && a == 0) return b; if (!issym(b) && b == 0) return a;
  return from_rf(rf_add(to_rf(a), to_rf(b), 1));
}
double __sym_fneg(double a) { if (!issym(a)) return -a; return neg(a); }
double __sym_fsub(double a, double b) {
  if (!issym(a) && !issym(b)) return __sym_fadd(a, -b);
  if (!issym(a) && !std::isfinite(a)) return a; if (!issym(b) && !std::isfinite(b)) return -b;
  if (!issym(b) && b == 0) return a;
  return from_rf(rf_add(to_rf(a), to_rf(b), -1));
}
double __sym_fmul(double a, double b) {
  if (!issym(a) && !issym(b)) { double r = a * b; if (IEEE || !std::isfinite(r) || a == 0 || b == 0) return r; if (std::fabs(r) > 1e-280 && std::fma(a, b, -r) == 0) return r; return from_rf(rf_mul(to_rf(a), to_rf(b))); }
  if (!issym(a)) std::swap(a, b);  // a symbolic
  if (!issym(b)) { if (std::isnan(b)) return b; if (std::isinf(b)) { int s = sign_of(a); if (!s) return nanv(); return sgn_inf(s * (b > 0 ? 1 : -1)); } if (b == 0) return 0.0; if (b == 1) return a; }
  return from_rf(rf_mul(to_rf(a), to_rf(b)));
}
double __sym_fdiv(double a, double b) {
  if (!issym(a) && !issym(b)) { double r = a / b; if (IEEE || !std::isfinite(r) || b == 0 || a == 0 || !std::isfinite(b)) return r; if (std::fabs(a) > 1e-280 && std::fabs(r) > 1e-280 && std::fma(r, b, -a) == 0) return r; return from_rf(rf_mul(to_rf(a), rf_inv(to_rf(b)))); }
  if (!issym(b)) { if (std::isnan(b)) return b; if (std::isinf(b)) return 0.0; if (b == 0) { int s = sign_of(a); if (!s) return nanv(); return sgn_inf(std::signbit(b) ? -s : s); } if (b == 1) return a; return from_rf(rf_mul(to_rf(a), rf_inv(to_rf(b)))); }
  if (issym(b) && !regular(to_rf(b), 5)) { int s = issym(a) ? sign_of(a) : std::isnan(a) ? 0 : a > 0 ? 1 : a < 0 ? -1 : 0; if (!s) return nanv(); return sgn_inf(s); }
  if (!issym(a)) { if (std::isnan(a)) return a; if (std::isinf(a)) return sgn_inf(sign_of(b) * (a > 0 ? 1 : -1)); if (a == 0) return 0.0; }
  return from_rf(rf_mul(to_rf(a), rf_inv(to_rf(b))));
}
int __sym_fcmp(int pred, double a, double b) {
  // LLVM: bits U(8) L(4) G(2) E(1)
  bool na = !issym(a) && std::isnan(a), nb = !issym(b) && std::isnan(b);
  if (na || nb) return (pred >> 3) & 1;
  auto fin = [&](int s) { return s < 0 ? (pred >> 2) & 1 : s > 0 ? (pred >> 1) & 1 : pred & 1; };
  if (!issym(a) && !issym(b)) return fin(a < b ? -1 : a > b ? 1 : 0);
  if (!issym(a) && std::isinf(a)) return fin(a > 0 ? 1 : -1);
  if (!issym(b) && std::isinf(b)) return fin(b > 0 ? -1 : 1);
  int mask = ((pred >> 2) & 1) | ((pred & 1) << 1) | (((pred >> 1) & 1) << 2);
  if (mask == 0) return 0; if (mask == 7) return 1;
  RF d = rf_add(to_rf(a), to_rf(b), -1);
  return decide_val(d, mask);
}
int __sym_fpclass(double x, int mask) {
  if (issym(x)) { if ((mask & 0x1f8) == 0x1f8) return 1; if ((mask & 0x1f8) == 0) return 0; int s = sign_of(x); if (s == 0) return (mask & 0x60) != 0; return s > 0 ? (mask & 0x100) != 0 : (mask & 0x8) != 0; }
  int c; if (std::isnan(x)) c = 3; else if (std::isinf(x)) c = x > 0 ? 0x200 : 0x4; else if (x == 0) c = std::signbit(x) ? 0x20 : 0x40; else if (std::fpclassify(x) == FP_SUBNORMAL) c = x > 0 ? 0x80 : 0x10; else c = x > 0 ? 0x100 : 0x8; return (mask & c) != 0;
}
double __sym_fabs(double a) {
  if (!issym(a)) return std::fabs(a); RF r = to_rf(a); mpq_class c; if (symconst(a, &c)) { return sgn(c) < 0 ? neg(a) : a; }
  Con k = make_con(r, 6); if (k.mask == 7) return a; if (k.mask == 0) return neg(a);
  // canonical sign
  double n = neg(a); double key = hid(a) < hid(n) ? a : n; auto fk = std::make_pair(string("abs"), std::make_pair(bits(key), (uint64_t)0)); auto it = FUNIX.find(fk); if (it != FUNIX.end()) return atom_val(it->second);
  Atom t; t.kind = A_ABS; t.name = "abs"; t.arg = key; t.mask = 6; if (r.den.empty()) { t.sq = p_mul(r.num, r.num); t.red = t.sq.size() < 50; } int id = new_atom(t); FUNIX[fk] = id; return atom_val(id);
}
double __sym_sqrt(double a) {
  if (!issym(a)) { double r = std::sqrt(a); return r; }
  mpq_class c; if (symconst(a, &c)) { if (sgn(c) < 0) return nanv(); mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n == c.get_num() && d * d == c.get_den()) { RF r; r.num = p_const(mpq_class(n, d)); return from_rf(r); } return std::sqrt(c.get_d()); }
  RF r = to_rf(a);
  if (ROUND && r.den.empty() && r.num.size() == 1 && sgn(r.num[0].second) > 0) { MonoV h = MONO[r.num[0].first]; bool even = true; for (auto& t : h) { if (t.second % 2) even = false; t.second /= 2; } if (even) { RF q; q.num.push_back({mono_intern(h), mpq_class(std::sqrt(r.num[0].second.get_d()))}); return __sym_fabs(from_rf(q)); } }
  if (REGULAR) { if (!regular(r, 4)) { if (decide_val(r, 2)) return 0.0; return nanv(); } } else { if (decide_val(r, 1)) return nanv(); if (decide_val(r, 2)) return 0.0; }
  auto fk = std::make_pair(string("sqrt"), std::make_pair(bits(a), (uint64_t)0)); auto it = FUNIX.find(fk); if (it != FUNIX.end()) return atom_val(it->second);
  Atom t; t.kind = A_SQRT; t.name = "sqrt"; t.arg = a; t.mask = 6; if (r.den.empty() && r.num.size() <= 60) { t.sq = r.num; t.red = true; } int id = new_atom(t); FUNIX[fk] = id; return atom_val(id);
}
static double fun(const char* f, double a, double b = 0, int mask = 7) {
  auto fk = std::make_pair(string(f), std::make_pair(bits(a), bits(b))); auto it = FUNIX.find(fk); if (it != FUNIX.end()) return atom_val(it->second);
  Atom t; t.kind = A_FUN; t.name = f; t.arg = a; t.arg2 = b; t.mask = mask; int id = new_atom(t); FUNIX[fk] = id; return atom_val(id);
}
static bool isatom(double v, const char* f, double* arg) { if (!issym(v)) return false; const ValKey& k = VALS[hid(v)]; const Poly& p = POLY[k.num]; if (!k.den.empty() || p.size() != 1 || p[0].second != 1) return false; const MonoV& m = MONO[p[0].first]; if (m.size() != 1 || m[0].second != 1) return false; const Atom& t = ATOMS[m[0].first]; if (t.kind != A_FUN || t.name != f) return false; *arg = t.arg; return true; }
static double cd(double a) { mpq_class c; symconst(a, &c); return c.get_d(); }
#define CONCRETE1(F) { if (!issym(a)) return F(a); if (symconst(a, nullptr)) return F(cd(a)); }
double __sym_exp(double a) { CONCRETE1(std::exp); double x; if (isatom(a, "log", &x)) return x; return fun("exp", a, 0, 4); }
double __sym_exp2(double a) { CONCRETE1(std::exp2); return fun("exp", __sym_fmul(a, std::log(2.0)), 0, 4); }
double __sym_expm1(double a) { CONCRETE1(std::expm1); return __sym_fsub(__sym_exp(a), 1.0); }
static int logdom(double a) { if (REGULAR && issym(a)) { if (regular(to_rf(a), 4)) return 1; return decide_val(to_rf(a), 2) ? 0 : -1; } int s = sign_of(a); return s; }
double __sym_log(double a) { CONCRETE1(std::log); int s = logdom(a); if (s < 0) return nanv(); if (s == 0) return -INFINITY; double x; if (isatom(a, "exp", &x)) return x; return fun("log", a); }
double __sym_log2(double a) { CONCRETE1(std::log2); int s = logdom(a); if (s < 0) return nanv(); if (s == 0) return -INFINITY; return fun("log2", a); }
double __sym_log10(double a) { CONCRETE1(std::log10); int s = logdom(a); if (s < 0) return nanv(); if (s == 0) return -INFINITY; return fun("log10", a); }
double __sym_log1p(double a) { CONCRETE1(std::log1p); return __sym_log(__sym_fadd(1.0, a)); }
static bool canon_neg(double a) { double n = neg(a); return hid(n) < hid(a); }
double __sym_sin(double a) { CONCRETE1(std::sin); double n = neg(a); if (hid(n) < hid(a)) return neg(fun("sin", n)); return fun("sin", a); }
double __sym_cos(double a) { CONCRETE1(std::cos); double n = neg(a); if (hid(n) < hid(a)) return fun("cos", n); return fun("cos", a); }
static map<uint64_t, double> TANOF;
double __sym_tan(double a) { CONCRETE1(std::tan); double r = __sym_fdiv(__sym_sin(a), __sym_cos(a)); if (issym(r)) TANOF[bits(r)] = a; return r; }
double __sym_atan(double a) { CONCRETE1(std::atan); { auto it = TANOF.find(bits(a)); if (it != TANOF.end() && __sym_fcmp(4, it->second, 1.5707963267) && __sym_fcmp(2, it->second, -1.5707963267)) return it->second; } double n = neg(a); if (hid(n) < hid(a)) return neg(fun("atan", n)); return fun("atan", a); }
double __sym_atan2(double a, double b) { if (!issym(a) && !issym(b)) return std::atan2(a, b); return fun("atan2", a, b); }
double __sym_asin(double a) { CONCRETE1(std::asin); return fun("asin", a); }
double __sym_acos(double a) { CONCRETE1(std::acos); return fun("acos", a); }
double __sym_tanh(double a) { CONCRETE1(std::tanh); return fun("tanh", a); }
double __sym_sinh(double a) { CONCRETE1(std::sinh); return fun("sinh", a); }
double __sym_cosh(double a) { CONCRETE1(std::cosh); return fun("cosh", a); }
double __sym_cbrt(double a) { CONCRETE1(std::cbrt); return fun("cbrt", a); }
double __sym_erf(double a) { CONCRETE1(std::erf); return fun("erf", a); }
double __sym_erfc(double a) { CONCRETE1(std::erfc); return __sym_fsub(1.0, fun("erf", a)); }
double __sym_lgamma(double a) { CONCRETE1(std::lgamma); return fun("lgamma", a); }
double __sym_tgamma(double a) { CONCRETE1(std::tgamma); return fun("tgamma", a); }
double __sym_hypot(double a, double b) { return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b))); }
double __sym_fma(double a, double b, double c) { return __sym_fadd(__sym_fmul(a, b), c); }
double __sym_powi(double a, int n) { if (!issym(a) && (IEEE)) return std::pow(a, n); double r = 1; int k = n < 0 ? -n : n; for (int i = 0; i < k; i++) r = __sym_fmul(r, a); return n < 0 ? __sym_fdiv(1.0, r) : r; }
double __sym_pow(double a, double b) {
  mpq_class cb; bool bc = symconst(b, &cb);
  if (!issym(a) && !issym(b)) { if (IEEE) return std::pow(a, b); if (std::isfinite(a) && std::isfinite(b) && b == std::floor(b) && std::fabs(b) <= 16) return __sym_powi(a, (int)b); return std::pow(a, b); }
  if (bc && cb.get_den() == 1 && abs(cb) <= 16) return __sym_powi(a, (int)cb.get_d());
  if (bc && cb == mpq_class(1, 2)) return __sym_sqrt(a);
  if (symconst(a, nullptr) && bc) return std::pow(cd(a), cb.get_d());
  if (!issym(a) && !std::isfinite(a)) unsupported("pow of non-finite"); if (!issym(b) && !std::isfinite(b)) unsupported("pow to non-finite");
  int s = sign_of(a); if (s == 0) { int t = sign_of(b); return t > 0 ? 0.0 : t == 0 ? 1.0 : INFINITY; } if (s < 0) { if (bc) return nanv(); unsupported("negative base, symbolic exponent"); }
  if (!issym(b) ? b == 0 : false) return 1.0;
  return fun("pow", a, b, 4);
}
double __sym_fmin(double a, double b) { if (!issym(a) && std::isnan(a)) return b; if (!issym(b) && std::isnan(b)) return a; return __sym_fcmp(4, a, b) ? a : b; }
double __sym_fmax(double a, double b) { if (!issym(a) && std::isnan(a)) return b; if (!issym(b) && std::isnan(b)) return a; return __sym_fcmp(2, a, b) ? a : b; }
double __sym_copysign(double a, double b) { if (!issym(a) && !issym(b)) return std::copysign(a, b); double m = __sym_fabs(a); int s = issym(b) ? (sign_of(b) < 0 ? -1 : 1) : (std::signbit(b) ? -1 : 1); return s < 0 ? __sym_fneg(m) : m; }
// floor of a symbolic value: case split on the integer value
static double conc_floor(double a) {
  mpq_class c; if (symconst(a, &c)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return f.get_d(); }
  // find one feasible integer using a model, then split
  static const int LIM = 64; 
  for (int k = 0; k < LIM; k++) {
    string o; Res r = solve({}, {}, {}, false, BR_TMO, true, &o); map<int,long double> env; if (r != SAT || !parse_model(o, env)) unsupported("floor: no model");
    for (int x : INPUTS) if (!env.count(x)) env[x] = mid(x);
    long double v; if (!eval_val(a, env, v)) unsupported("floor: eval"); double n = std::floor((double)v);
    // n <= a < n+1 ?
    if (decide_val(rf_add(to_rf(a), to_rf(n), -1), 6)) { if (decide_val(rf_add(to_rf(a), to_rf(n + 1), -1), 1)) return n; }
  }
  unsupported("floor: too many cases");
}
double __sym_floor(double a) { if (!issym(a)) return std::floor(a); return conc_floor(a); }
double __sym_ceil(double a) { if (!issym(a)) return std::ceil(a); return -conc_floor(neg(a)); }
double __sym_trunc(double a) { if (!issym(a)) return std::trunc(a); return __sym_fcmp(4, a, 0.0) ? -conc_floor(neg(a)) : conc_floor(a); }
double __sym_round(double a) { if (!issym(a)) return std::round(a); return __sym_fcmp(4, a, 0.0) ? -conc_floor(__sym_fadd(neg(a), 0.5)) : conc_floor(__sym_fadd(a, 0.5)); }
double __sym_rint(double a) { if (!issym(a)) return std::rint(a); return conc_floor(__sym_fadd(a, 0.5)); }
double __sym_nearbyint(double a) { return __sym_rint(a); }
long __sym_lround(double a) { return (long)__sym_round(a); }
long long __sym_llround(double a) { return (long long)__sym_round(a); }
double __sym_fmod(double a, double b) { if (!issym(a) && !issym(b)) return std::fmod(a, b); double q = __sym_trunc(__sym_fdiv(a, b)); return __sym_fsub(a, __sym_fmul(q, b)); }
long __sym_fptosi(double a) { if (!issym(a)) { return (long)a; } return (long)__sym_trunc(a); }
long __sym_fptoui(double a) { if (!issym(a)) { return (long)(unsigned long)a; } return (long)__sym_trunc(a); }
double __sym_concretize(double a) { if (!issym(a)) return a; if (symconst(a, nullptr)) return cd(a); unsupported("conversion to float"); }
double __sym_lgamma_r(double a, int* s) { *s = 1; return __sym_lgamma(a); }
double __sym_gsl_ran_binomial_pdf(unsigned k, double p, unsigned n) {
  double c = 1; for (unsigned i = 1; i <= k; i++) c = c * (n - k + i) / i; return __sym_fmul(std::round(c), __sym_fmul(__sym_powi(p, k), __sym_powi(__sym_fsub(1.0, p), n - k))); }
void rt_sched_point(void* p, int write) __attribute__((weak));
double __sym_atomic_add(double* p, double v) { double o = *p; *p = __sym_fadd(o, v); return o; }
double __sym_atomic_sub(double* p, double v) { double o = *p; *p = __sym_fsub(o, v); return o; }
static std::set<string>* FNS;
void __sym_enter(char* flag, const char* name) { if (*flag) return; *flag = 1; logline(string("FN\t") + name); }

// ---------------------------------------------------------------- harness API
int sym_active(void) { return 1; }
int sym_is_symbolic(double v) { return issym(v); }
static double TOL = 1e-6;
void sym_opt(const char* n, int v) { string s = n; if (s == "ieee") IEEE = v; else if (s == "regular") REGULAR = v; else if (s == "round") ROUND = v; else if (s == "tol") TOL = std::pow(10.0, -v); else if (s == "maxterms") MAXTERMS = v; else if (s == "brtmo") BR_TMO = v; else if (s == "astmo") AS_TMO = v; }
double sym_real(const char* name, double lo, double hi) {
  auto it = VARIX.find(name); if (it != VARIX.end()) return atom_val(it->second);
  if (lo == hi) return lo;
  Atom t; t.kind = A_VAR; t.name = name; t.lo = mpq_class(lo); t.hi = mpq_class(hi); t.bounded = true; t.input = true; int id = new_atom(t); VARIX[name] = id; INPUTS.push_back(id); return atom_val(id);
}
int sym_int(const char* name, int lo, int hi) { int v = lo; while (v < hi) { if (do_fork()) break; v++; } CHOICES.push_back({name, std::to_string(v)}); return v; }
void sym_assume(int c) { if (!c) path_exit("assume"); }
static void assume_c(double a, double b, int mask) {
  if (!issym(a) && !issym(b)) { int s = a < b ? 1 : a > b ? 4 : 2; if (!(mask & s)) path_exit("assume"); return; }
  if ((!issym(a) && !std::isfinite(a)) || (!issym(b) && !std::isfinite(b))) { sym_assume(__sym_fcmp((mask & 1 ? 4 : 0) | (mask & 2 ? 1 : 0) | (mask & 4 ? 2 : 0), a, b)); return; }
  Con c = make_con(rf_add(to_rf(a), to_rf(b), -1), mask); if (c.mask == 7) return; if (c.mask == 0) path_exit("assume");
  if (solve({c}, {}, {}, true, BR_TMO, false) == UNSAT) path_exit("assume"); add_con(c); if (MODEL_OK && !model_holds(MODEL)) MODEL_OK = false;
}
void sym_assume_le(double a, double b) { assume_c(a, b, 3); }
void sym_assume_lt(double a, double b) { assume_c(a, b, 1); }
void sym_assume_eq(double a, double b) { assume_c(a, b, 2); }
void sym_assume_ne(double a, double b) { assume_c(a, b, 5); }
void sym_observe(const char* n, double v) { OBS.push_back({n, v}); }
void sym_note(const char* m) { logline(string("NOTE\t") + esc(m)); }
void sym_assert(int c, const char* msg) { SH->asserts++; if (c) return; if (VCOUNT[msg]++ >= 1) return; report_violation("assert", msg, {}, {}, {}); }
// zero test modulo S*S = argument for roots S of rational functions
static bool rad_zero(Poly p) {
  for (int it = 0; it < 64 && !p.empty(); it++) {
    int at = -1, K = 0; for (auto& e : p_degs(p)) if (e.second >= 2 && e.first > at && ATOMS[e.first].kind == A_SQRT && !ATOMS[e.first].red) { at = e.first; K = e.second; }
    if (at < 0) break; RF r = to_rf(ATOMS[at].arg); Poly d = den_poly(r.den); if (r.num.size() * p.size() > 400000 || d.size() * p.size() > 400000) return false;
    vector<Poly> part(K + 1); for (auto& t : p) { int k = 0; MonoV m; for (auto& q : MONO[t.first]) if (q.first == at) k = q.second; else m.push_back(q); part[k] = p_add(part[k], Poly{{mono_intern(m), t.second}}); }
    Poly acc; for (int k = 0; k <= K; k++) { if (part[k].empty()) continue; Poly x = p_mul(p_mul(part[k], p_pow(r.num, k / 2)), p_pow(d, K / 2 - k / 2)); if (k % 2) x = p_mul(x, p_atom(at)); acc = p_add(acc, x); }
    p = acc;
  }
  return p.empty();
}
extern "C" int sym_same(double a, double b) { if (!issym(a) && !issym(b)) return a == b || std::fabs(a - b) <= TOL * std::max(1.0, std::fabs(b)); if ((!issym(a) && !std::isfinite(a)) || (!issym(b) && !std::isfinite(b))) return 0; RF d = rf_add(to_rf(a), to_rf(b), -1); if (rf_isconst(d)) return sgn(p_cval(d.num)) == 0; return rad_zero(d.num); }
// assertion sign(a-b) in okmask, with tolerance on violation
static void assert_c(double a, double b, int ok, const char* msg) {
  SH->asserts++;
  bool na = !issym(a) && std::isnan(a), nb = !issym(b) && std::isnan(b);
  auto viol = [&](const vector<Con>& c, const vector<string>& ex) { if (VCOUNT[msg]++ >= 1) return; report_violation("assert", msg, c, ex, {}); };
  if (na || nb) { if (na && nb && (ok & 2)) return; viol({}, {}); return; }
  bool ia = !issym(a) && std::isinf(a), ib = !issym(b) && std::isinf(b);
  if (ia || ib) { int s = ia && ib ? (a == b ? 0 : a < b ? -1 : 1) : ia ? (a > 0 ? 1 : -1) : (b > 0 ? -1 : 1); if (!(ok >> (s + 1) & 1)) viol({}, {}); return; }
  RF d = rf_add(to_rf(a), to_rf(b), -1); bool viaeq = false;
  if (!EQS.empty() && !rf_isconst(d)) { Poly n = p_subst(d.num); if (n.empty()) { viaeq = true; } }
  if (!viaeq && !rf_isconst(d) && rad_zero(d.num)) viaeq = true;
  if (viaeq) { SH->normal_form++; if (ok & 2) return; viol({}, {}); return; }
  if (rf_isconst(d)) {
    long double c = p_cval(d.num).get_d(); long double sc = 1; if (rf_isconst(to_rf(b))) { sc = std::max(1.0L, (long double)std::fabs(p_cval(to_rf(b).num).get_d())); }
    int s = c > 0 ? 1 : c < 0 ? -1 : 0; if (ok == 2 || ok == 3 || ok == 6) { if (std::fabs((double)c) <= TOL * sc) s = 0; }
    bool good = ok >> (s + 1) & 1; if (!good) { viol({}, {}); return; }
    if (issym(a) || issym(b)) { SH->normal_form++; if (BATCH.size() < 400) { RF x = to_rf(a), y = to_rf(b); if (ok == 2 && x.num.size() + y.num.size() < 200) { val_atoms(a, BATCHATOMS); val_atoms(b, BATCHATOMS); BATCH.push_back({"(* " + p2s(x.num) + " " + p2s(den_poly(y.den)) + ")", sgn(p_cval(d.num)) == 0 ? "(* " + p2s(y.num) + " " + p2s(den_poly(x.den)) + ")" : "(+ (* " + p2s(y.num) + " " + p2s(den_poly(x.den)) + ") (* " + q2s(p_cval(d.num)) + " " + p2s(den_poly(x.den)) + " " + p2s(den_poly(y.den)) + "))"}); } } }
    return;
  }
  SH->assert_q++;
  Con bad = make_con(d, 7 & ~ok); if (bad.mask == 0) { SH->decided_nosolver++; return; }
  if (ok != 5) for (auto& g : guesses()) { auto env = g; long double x, y; if (!eval_val(a, env, x) || !eval_val(b, env, y)) continue; long double t = 1e-4L * std::max(1.0L, fabsl(y)); if ((!(ok & 4) && x - y > t) || (!(ok & 1) && y - x > t)) { if (VCOUNT[msg]++ >= 1) return; SH->violations++; logline(string("VIOL\tassert\t") + esc(msg) + "\t" + env2s(g)); return; } }
  Res r = solve({bad}, {}, {}, true, AS_TMO, true);
  if (r == UNSAT) return; bool hard = r == UNK;
  // tolerance: violated only when |a-b| > TOL
  auto shifted = [&](double t, vector<vector<Con>>& out) {
    if (ok == 5) { out.push_back({bad}); return; }
    if (!(ok & 4)) { RF x = rf_add(d, to_rf(t), -1); out.push_back({make_con(x, 4)}); }
    if (!(ok & 1)) { RF x = rf_add(d, to_rf(t), 1); out.push_back({make_con(x, 1)}); } };
  bool unk = false;
  for (double t : {0.05, 1e-3, TOL}) {
    if (t < TOL) continue; vector<vector<Con>> alt; shifted(t, alt);
    unk = false;
    for (auto& c : alt) { if (c[0].mask == 0) continue; Res q = solve(c, {}, {}, true, hard ? std::min(AS_TMO, 5.0) : AS_TMO, true); if (q == SAT) { viol(c, {}); return; } if (q == UNK) unk = true; }
    if (ok == 5) break;
  }
  if (unk) { SH->inconclusive++; { string ch; for (auto& c : CHOICES) ch += " " + c.first + "=" + c.second; logline(string("INCONC\tsolver unknown: ") + esc(msg) + " [" + ch + " ]"); } }
}
void sym_assert_eq(double a, double b, const char* m) { assert_c(a, b, 2, m); }
void sym_assert_le(double a, double b, const char* m) { assert_c(a, b, 3, m); }
void sym_assert_lt(double a, double b, const char* m) { assert_c(a, b, 1, m); }
void sym_assert_ne(double a, double b, const char* m) { assert_c(a, b, 5, m); }
}
double rt_fresh(const char* base, double lo, double hi) { static long n = 0; string nmx = string(base) + "#" + std::to_string(n++); Atom t; t.kind = A_VAR; t.name = nmx; t.lo = mpq_class(lo); t.hi = mpq_class(hi); t.bounded = true; int id = new_atom(t); return atom_val(id); }
void rt_assume_eq(double a, double b) { assume_c(a, b, 2); }
void rt_assume_le(double a, double b) { assume_c(a, b, 3); }
[[noreturn]] void rt_unsupported(const char* m) { unsupported(m); }
double rt_eval_hint(double v) { return cd(v); }
bool rt_const(double v, double* o) { mpq_class c; if (!symconst(v, &c)) return false; *o = c.get_d(); return true; }

// ---------------------------------------------------------------- main
struct Scn { const char* name; scenario_fn f; string flags; };
static vector<Scn>& scns() { static vector<Scn> v; return v; }
ScenarioReg::ScenarioReg(const char* n, scenario_fn f, const char* fl) { scns().push_back({n, f, fl}); }
static void crash(int sig) {
  static volatile int in = 0; if (in) _exit(99); in = 1; signal(SIGALRM, SIG_DFL); alarm(30);
  string m = string("signal ") + std::to_string(sig) + " (memory error or abort)"; SH->crashes++;
  report_violation("crash", m, {}, {}, {}); SH->paths++; release_token(); finish_children(); _exit(0);
}
extern "C" void rt_crash(const char* m) { report_violation("crash", m, {}, {}, {}); SH->paths++; release_token(); finish_children(); _exit(0); }
int main(int argc, char** argv) {
  if (argc >= 2 && string(argv[1]) == "--list") { for (auto& s : scns()) printf("%s\t%s\n", s.name, s.flags.c_str()); return 0; }
  if (argc < 4) { fprintf(stderr, "usage: %s scenario outdir seconds [par]\n", argv[0]); return 2; }
  SCN = argv[1]; OUTDIR = argv[2]; double secs = atof(argv[3]); int par = argc > 4 ? atoi(argv[4]) : 1;
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof *SH); SH->tokens = par - 1;
  LOGFD = open((OUTDIR + "/" + SCN + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); DEADLINE = now() + secs; double t0 = now();
  mono_intern({}); if (getenv("SYM_MAXWIT")) MAXWIT = atoi(getenv("SYM_MAXWIT"));
  for (auto& s : scns()) if (SCN == s.name) {
    pid_t p = fork();
    if (p == 0) { HAVE_TOKEN = true;
      static char alt[1 << 18]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(g, &sa, nullptr);
      try { s.f(); } catch (std::exception& e) { SH->asserts++; report_violation("exception", string("unexpected exception: ") + e.what(), {}, {}, {}); } catch (...) { SH->asserts++; report_violation("exception", "unexpected exception", {}, {}, {}); }
      rt_path_end();
    }
    // watchdog
    int st; bool dead = false; for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now() > DEADLINE + 90) { dead = true; kill(-getpgrp(), 0); kill(p, SIGKILL); } usleep(20000); }
    if (dead || WIFSIGNALED(st)) { SH->inconclusive++; logline("INCONC\troot process died"); }
    printf("{\"scenario\":\"%s\",\"paths\":%ld,\"killed\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"asserts\":%ld,\"assert_queries\":%ld,\"normal_form\":%ld,\"assumed\":%ld,\"violations\":%ld,\"inconclusive\":%ld,\"unsupported\":%ld,\"crashes\":%ld,\"timeouts\":%ld,\"depth\":%ld,\"wall_s\":%.2f}\n", s.name, SH->paths.load(), SH->killed.load(), SH->forks.load(), SH->branches.load(), SH->queries.load(), SH->q_sat.load(), SH->q_unsat.load(), SH->q_unknown.load(), SH->q_us.load() * 1e-6, SH->asserts.load(), SH->assert_q.load(), SH->normal_form.load(), SH->assumed.load(), SH->violations.load(), SH->inconclusive.load(), SH->unsupported.load(), SH->crashes.load(), SH->timeouts.load(), SH->depthmax.load(), now() - t0);
    return 0;
  }
  return 3;
}
