// Harness interface. In the engine build the functions are intercepted; in the native build (native.cc)
// they read the values of one assignment so that a solver model can be replayed against the real code.
#pragma once
#include <cmath>
#include <cstdint>
extern "C" {
double sym_real(const char* name, double lo, double hi);
double sym_fp(const char* name);
int sym_int(const char* name, int lo, int hi);
long sym_long(const char* name, long lo, long hi);
uint64_t sym_u64(const char* name);
bool sym_bool(const char* name);
int sym_choice(const char* name, int k);            // 0..k-1, explored one value at a time
void sym_unit4(const char* name, double* wxyz);     // w,x,y,z of an arbitrary unit quaternion
void sym_unit2(const char* name, double* cs);       // cosine and sine of an arbitrary angle
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_eq(double a, double b, const char* msg);   // exact identity (relative tolerance in native replay)
void sym_reach(const char* msg);                    // vacuity witness
int sym_symbolic();                                 // 1 in the engine, 0 natively
double sym_diff(double expr, double var);           // d expr / d var at var = 0 (engine only)
double sym_zero(double expr, double var);           // expr at var = 0 (engine only)
void sym_print(const char* m, double v);
uint64_t sym_allocated();
}
#ifdef SYM_NATIVE
struct SymReg { SymReg(const char* n, void (*f)()); };
#define ENTRY(name) static void name(); static SymReg reg_##name(#name, name); static void name()
#else
#define ENTRY(name) extern "C" void name()
#endif
// derivative of f at 0; central differences in the native replay
template <class F> inline double sym_jac(F f) {
  if (sym_symbolic()) { double e = sym_real("eps!", -1, 1); return sym_diff(f(e), e); }
  const double h = 1e-5; return (f(h) - f(-h)) / (2 * h);
}
