// Harness interface.  The same harness is compiled twice: against the symbolic
// runtime (rt.cpp, code under test instrumented by SymPass) and against the native
// runtime (rt_native.cpp, code under test compiled normally) for replay.
#pragma once
#include <cstddef>
#include <string>
extern "C" {
// symbolic real in [lo,hi]
double sym_real(const char* name, double lo, double hi);
// nondeterministic integer in [lo,hi] (explored exhaustively)
int sym_int(const char* name, int lo, int hi);
// add a constraint to the path condition without branching; drops the path when infeasible
void sym_assume_le(double a, double b);
void sym_assume_lt(double a, double b);
void sym_assume_eq(double a, double b);
void sym_assume_ne(double a, double b);
// drop the path when c is false (c has been decided by branching)
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_assert_eq(double a, double b, const char* msg);
void sym_assert_le(double a, double b, const char* msg);
void sym_assert_lt(double a, double b, const char* msg);
void sym_assert_ne(double a, double b, const char* msg);
void sym_observe(const char* name, double v);
void sym_note(const char* msg);
// 1 in the symbolic build
int sym_active(void);
int sym_is_symbolic(double v);
// 1 when both have the same normal form (no query)
int sym_same(double a, double b);
// options: "ieee" (1: concrete-concrete arithmetic rounds like the machine; 0: exact rationals)
//   "round" (1: coefficients of symbolic values round to doubles, and a sum that cancels to 1e-12 of its terms is zero)
//          "tol"  (n: equality tolerance 10^-n), "maxterms"
void sym_opt(const char* name, int v);
// exact real sqrt/exp/... atoms are only made for symbolic arguments
}
inline std::string nm(const char* b, size_t i) { return std::string(b) + std::to_string(i); }
inline std::string nm(const char* b, size_t i, size_t j) { return std::string(b) + std::to_string(i) + "_" + std::to_string(j); }

typedef void (*scenario_fn)();
struct ScenarioReg { ScenarioReg(const char* name, scenario_fn f, const char* flags); };
// flags: "thorough" scenarios only run in the thorough tier
#define SCENARIO(name) static void scn_##name(); static ScenarioReg reg_##name(#name, scn_##name, ""); static void scn_##name()
#define SCENARIO_T(name) static void scn_##name(); static ScenarioReg reg_##name(#name, scn_##name, "thorough"); static void scn_##name()
