#include "sym.h"
#include "msf_timing/Timer.h"
#include <limits>
using msf_timing::Accumulator;
ENTRY(h_acc_real) {
  Accumulator<double, double, 4> a;
  int n = sym_choice("n", 9);
  double x[8]; double s = 0;
  for (int i = 0; i < n; i++) { x[i] = sym_real("x", -100, 100); a.Add(x[i]); s += x[i]; }
  sym_assert(a.TotalSamples() == n, "total samples");
  if (n == 0) return;
  sym_eq(a.Sum(), s, "sum");
  sym_eq(a.Mean(), s / n, "mean");
  int k = n < 4 ? n : 4; double rs = 0, mn = x[0], mx = x[0];
  for (int i = n - k; i < n; i++) rs += x[i];
  for (int i = 0; i < n; i++) { if (x[i] < mn) mn = x[i]; if (x[i] > mx) mx = x[i]; }
  sym_eq(a.RollingMean(), rs / k, "rolling mean");
  sym_eq(a.Min(), mn, "min");
  sym_eq(a.Max(), mx, "max");
  double v = 0; for (int i = n - k; i < n; i++) v += (x[i] - rs / k) * (x[i] - rs / k);
  sym_eq(a.LazyVariance(), v / k, "variance");
  sym_reach("end");
}
// the window of the timers, far beyond the point where it is full; four of the samples are arbitrary
ENTRY(h_acc_long) {
  Accumulator<double, double, 50> a; const int n = 260; double x[n], s = 0, mn = 1e9, mx = -1e9; for (int i = 0; i < n; i++) { x[i] = i == 0 || i == 150 || i == 230 || i == 259 ? sym_real("x", -100, 100) : (i * 37 % 101 - 50) / 8.0; a.Add(x[i]); s += x[i]; if (x[i] < mn) mn = x[i]; if (x[i] > mx) mx = x[i]; if (i % 53 == 52) { double r = 0; int k = i + 1 < 50 ? i + 1 : 50; for (int j = i + 1 - k; j <= i; j++) r += x[j]; sym_eq(a.RollingMean() * k, r, "rolling mean"); } }
  sym_assert(a.TotalSamples() == n, "total samples"); sym_eq(a.Sum(), s, "sum"); sym_eq(a.Mean() * n, s, "mean"); sym_eq(a.Min(), mn, "min"); sym_eq(a.Max(), mx, "max"); double r = 0, v = 0; for (int i = n - 50; i < n; i++) r += x[i]; r /= 50; for (int i = n - 50; i < n; i++) v += (x[i] - r) * (x[i] - r); sym_eq(a.RollingMean(), r, "rolling mean"); sym_eq(a.LazyVariance(), v / 50, "variance"); sym_reach("end");
}
