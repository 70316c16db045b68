#pragma once
// runtime services used by the library models (linalg.cpp, omp.cpp, mpi.cpp)
double rt_fresh(const char* base, double lo, double hi);
void rt_assume_eq(double a, double b);
void rt_assume_le(double a, double b);
bool rt_is_zero(double v);
int rt_sign(double v);
bool rt_issym(double v);
bool rt_const(double v, double* o);
[[noreturn]] void rt_unsupported(const char* m);
extern "C" {
double __sym_fadd(double, double); double __sym_fsub(double, double); double __sym_fmul(double, double); double __sym_fdiv(double, double); double __sym_fneg(double);
int __sym_fcmp(int, double, double); double __sym_sqrt(double); double __sym_log(double); double __sym_fabs(double);
void rt_crash(const char*);
}
