// Native runtime of the harness interface: replays one assignment against the compiled real code.
#define SYM_NATIVE 1
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
static std::map<std::string, std::string>& vals() { static std::map<std::string, std::string> v; return v; }
static std::map<std::string, int>& cnt() { static std::map<std::string, int> v; return v; }
static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> v; return v; }
static int fails = 0;
SymReg::SymReg(const char* n, void (*f)()) { reg()[n] = f; }
static std::string nm(const char* b) { int k = cnt()[b]++; return k ? std::string(b) + "#" + std::to_string(k) : b; }
static bool get(const std::string& n, std::string& v) { auto it = vals().find(n); if (it == vals().end()) return false; v = it->second; return true; }
static double dv(const std::string& n, double def) { std::string s; if (!get(n, s)) return def; if (s == "nan") return NAN; if (s == "inf") return INFINITY; if (s == "-inf") return -INFINITY; return strtod(s.c_str(), nullptr); }
static long iv(const std::string& n, long def) { std::string s; if (!get(n, s)) return def; return (long)strtoll(s.c_str(), nullptr, 10); }
extern "C" {
double sym_real(const char* b, double lo, double hi) { double d = dv(nm(b), lo <= 0 && hi >= 0 ? 0.0 : lo); if (d < lo) d = lo; if (d > hi) d = hi; return d; }
double sym_fp(const char* b) { return dv(nm(b), 0.0); }
int sym_int(const char* b, int lo, int hi) { long v = iv(nm(b), lo); return v < lo ? lo : v > hi ? hi : (int)v; }
long sym_long(const char* b, long lo, long hi) { long v = iv(nm(b), lo); return v < lo ? lo : v > hi ? hi : v; }
uint64_t sym_u64(const char* b) { return (uint64_t)iv(nm(b), 0); }
bool sym_bool(const char* b) { return iv(nm(b), 0) != 0; }
int sym_choice(const char* b, int k) { long v = iv(nm(b), 0); return v < 0 || v >= k ? 0 : (int)v; }
void sym_unit4(const char* b, double* o) {
  std::string n = nm(b); const char* c[4] = {"_w", "_x", "_y", "_z"}; double s = 0;
  for (int i = 0; i < 4; i++) { o[i] = dv(n + c[i], i == 0); s += o[i] * o[i]; }
  s = std::sqrt(s); if (s < 1e-12) { o[0] = 1; o[1] = o[2] = o[3] = 0; } else for (int i = 0; i < 4; i++) o[i] /= s;
}
void sym_unit2(const char* b, double* o) {
  std::string n = nm(b); const char* c[4] = {"_w", "_x", "_y", "_z"}; double s = 0;
  for (int i = 0; i < 2; i++) { o[i] = dv(n + c[i], i == 0); s += o[i] * o[i]; }
  s = std::sqrt(s); if (s < 1e-12) { o[0] = 1; o[1] = 0; } else for (int i = 0; i < 2; i++) o[i] /= s;
}
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(fails ? 1 : 77); } }
void sym_assert(bool c, const char* m) { if (!c) { fails++; printf("ASSERT-FAIL %s\n", m); fflush(stdout); } }
void sym_eq(double a, double b, const char* m) {
  bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-6 * (1e-3 + std::fabs(a) + std::fabs(b));
  if (!ok) { fails++; printf("ASSERT-FAIL %s : %.17g != %.17g\n", m, a, b); fflush(stdout); }
}
void sym_reach(const char* m) { printf("REACH %s\n", m); fflush(stdout); }
int sym_symbolic() { return 0; }
double sym_diff(double, double) { abort(); }
double sym_zero(double e, double) { return e; }
void sym_print(const char* m, double v) { printf("PRINT %s %.17g\n", m, v); }
uint64_t sym_allocated() { return 0; }
}
int main(int argc, char** argv) {
  if (argc < 2) { for (auto& p : reg()) printf("%s\n", p.first.c_str()); return 0; }
  if (argc > 2) { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) { auto p = l.find('\t'); if (p != std::string::npos) vals()[l.substr(0, p)] = l.substr(p + 1); } }
  auto it = reg().find(argv[1]); if (it == reg().end()) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  it->second();
  fflush(stdout);
  _Exit(fails ? 1 : 0);
}
