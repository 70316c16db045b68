// Native runtime for replay: the harness runs on ordinary doubles; inputs come from a file.
#include "sym.h"
#include "rt_api.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
using std::string;
static std::map<string, string> IN; static double TOL = 1e-6; static int NV = 0;
extern "C" {
double __sym_fadd(double a, double b) { return a + b; } double __sym_fsub(double a, double b) { return a - b; } double __sym_fmul(double a, double b) { return a * b; } double __sym_fdiv(double a, double b) { return a / b; } double __sym_fneg(double a) { return -a; }
int __sym_fcmp(int p, double a, double b) { if (std::isnan(a) || std::isnan(b)) return p >> 3 & 1; return a < b ? p >> 2 & 1 : a > b ? p >> 1 & 1 : p & 1; }
int sym_active(void) { return 0; } int sym_is_symbolic(double) { return 0; }
void sym_opt(const char* n, int v) { if (!strcmp(n, "tol")) TOL = std::pow(10.0, -v); }
double sym_real(const char* n, double lo, double hi) { auto it = IN.find(n); if (it == IN.end()) return lo + (hi - lo) / 2; return strtod(it->second.c_str(), nullptr); }
int sym_int(const char* n, int lo, int hi) { (void)hi; auto it = IN.find(n); if (it == IN.end()) return lo; return atoi(it->second.c_str()); }
static void out(const char* m) { NV++; printf("REPLAY-VIOLATION %s\n", m); fflush(stdout); }
static void dropped() { printf("REPLAY-DROPPED\n"); fflush(stdout); _exit(NV ? 1 : 0); }
void sym_assume(int c) { if (!c) dropped(); }
void sym_assume_le(double a, double b) { if (!(a <= b + 1e-9)) dropped(); } void sym_assume_lt(double a, double b) { if (!(a < b + 1e-9)) dropped(); }
void sym_assume_eq(double a, double b) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)))) dropped(); } void sym_assume_ne(double a, double b) { if (a == b) dropped(); }
void sym_assert(int c, const char* m) { if (!c) out(m); }
static bool eqv(double a, double b) { if (std::isnan(a) && std::isnan(b)) return true; if (a == b) return true; return std::fabs(a - b) <= 0.5 * TOL * std::fmax(1.0, std::fabs(b)); }
int sym_same(double a, double b) { return eqv(a, b); }
void sym_assert_eq(double a, double b, const char* m) { if (!eqv(a, b)) { printf("# %s: got %.12g expected %.12g\n", m, a, b); out(m); } }
void sym_assert_le(double a, double b, const char* m) { if (!(a <= b) && !eqv(a, b)) { printf("# %s: %.12g <= %.12g fails\n", m, a, b); out(m); } }
void sym_assert_lt(double a, double b, const char* m) { if (!(a < b)) { printf("# %s: %.12g < %.12g fails\n", m, a, b); out(m); } }
void sym_assert_ne(double a, double b, const char* m) { if (a == b) { printf("# %s: both %.12g\n", m, a); out(m); } }
void sym_observe(const char* n, double v) { printf("OBS %s=%.12g\n", n, v); }
void sym_note(const char*) {}
void rt_crash(const char* m) { out(m); fflush(stdout); _exit(1); }
void __sym_load(void*, long, int); void __sym_store(void*, long, int);
}
void rt_unsupported(const char* m) { printf("REPLAY-UNSUPPORTED %s\n", m); fflush(stdout); _exit(NV ? 1 : 0); }
struct Scn { string name; scenario_fn f; }; static std::vector<Scn>& scns() { static std::vector<Scn> v; return v; }
ScenarioReg::ScenarioReg(const char* n, scenario_fn f, const char*) { scns().push_back({n, f}); }
int main(int argc, char** argv) {
  if (argc < 3) return 2; std::ifstream f(argv[2]); string t; while (f >> t) { size_t e = t.find('='); if (e != string::npos) IN[t.substr(0, e)] = t.substr(e + 1); }
  for (auto& s : scns()) if (s.name == argv[1]) {
    try { s.f(); } catch (std::exception& e) { out((string("unexpected exception: ") + e.what()).c_str()); } catch (...) { out("unexpected exception"); }
    printf("REPLAY-END %d\n", NV); fflush(stdout); _exit(NV ? 1 : 0);
  }
  return 3;
}
