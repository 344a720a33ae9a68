#include "sym.h"
#include "msf_timing/Timer.h"
// the clock is an arbitrary monotone sequence of nanosecond readings
static long g_now = 1000000000L; static int g_reads = 0; static bool g_concrete = false;
static long g_last[16];
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  g_now += (g_concrete ? 250000000L : sym_long("tick", 1, 1000000000000L)); g_last[g_reads++ & 15] = g_now;
  return time_point(duration(g_now));
} } } }
using namespace msf_timing;
static const char* kTag[3] = {"alpha", "beta", "alpha and a longer name"};
#ifndef OPS
#define OPS 3
#endif
ENTRY(h_timer) {
  Timing::Reset();
  size_t h[3]; bool have[3] = {false, false, false}; double tot[3] = {0, 0, 0}; double mn[3], mx[3], sum2[3] = {0, 0, 0}; int cnt[3] = {0, 0, 0}; double smp[3][OPS]; int made = 0;
  for (int op = 0; op < OPS; op++) {
    int k = sym_choice("tag", 3), use = sym_choice("use", 4); size_t sz = Timing::GetTimers().size();
    double d = 0; int r0 = g_reads;
    if (use == 0) { Timer t(kTag[k]); sym_assert(t.IsTiming(), "constructed running"); }
    else if (use == 1) { Timer t(kTag[k], true); sym_assert(!t.IsTiming(), "constructed stopped"); t.Start(); sym_assert(t.IsTiming(), "started"); t.Stop(); sym_assert(!t.IsTiming(), "stopped"); }
    else if (use == 2) { Timer t(Timing::GetHandle(kTag[k])); t.Stop(); }
    else { Timer t(Timing::GetHandle(kTag[k]), true); }
    if (!have[k]) { made++; have[k] = true; h[k] = Timing::GetHandle(kTag[k]); sym_assert(Timing::GetTimers().size() == sz + 1, "a new tag gets one entry"); for (int j = 0; j < 3; j++) if (j != k && have[j]) sym_assert(h[j] != h[k], "distinct tags have distinct handles"); }
    else sym_assert(Timing::GetTimers().size() == sz, "a known tag gets no new entry");
    if (use < 3) {
      sym_assert(g_reads == r0 + 2, "one reading at start and one at stop");
      d = (double)(g_last[(r0 + 1) & 15] - g_last[r0 & 15]) * 1e-9;
      if (!cnt[k] || d < mn[k]) mn[k] = d; if (!cnt[k] || d > mx[k]) mx[k] = d; smp[k][cnt[k]++] = d; tot[k] += d;
    } else sym_assert(g_reads == r0, "a stopped timer does not read the clock");
  }
  sym_assert((int)Timing::GetTimers().size() == made, "one entry per tag");
  for (int k = 0; k < 3; k++) if (have[k]) {
    sym_assert(Timing::GetHandle(kTag[k]) == h[k], "the handle of a tag is stable"); sym_assert(Timing::GetTag(h[k]) == kTag[k], "handle and tag correspond");
    sym_assert((int)Timing::GetNumSamples(h[k]) == cnt[k], "one sample per completed interval"); sym_assert((int)Timing::GetNumSamples(kTag[k]) == cnt[k], "one sample per completed interval (by tag)");
    sym_eq(Timing::GetTotalSeconds(h[k]), tot[k], "total"); sym_eq(Timing::GetTotalSeconds(kTag[k]), tot[k], "total by tag");
    if (!cnt[k]) continue;
    double mean = tot[k] / cnt[k], var = 0; for (int i = 0; i < cnt[k]; i++) var += (smp[k][i] - mean) * (smp[k][i] - mean); var /= cnt[k];
    sym_eq(Timing::GetMeanSeconds(h[k]), mean, "mean"); sym_eq(Timing::GetMeanSeconds(kTag[k]), mean, "mean by tag");
    sym_eq(Timing::GetMinSeconds(h[k]), mn[k], "minimum"); sym_eq(Timing::GetMinSeconds(kTag[k]), mn[k], "minimum by tag");
    sym_eq(Timing::GetMaxSeconds(h[k]), mx[k], "maximum"); sym_eq(Timing::GetMaxSeconds(kTag[k]), mx[k], "maximum by tag");
    sym_eq(Timing::GetVarianceSeconds(h[k]), var, "variance"); sym_eq(Timing::GetVarianceSeconds(kTag[k]), var, "variance by tag");
    sym_eq(Timing::GetHz(h[k]) * mean, 1.0, "rate"); sym_eq(Timing::GetHz(kTag[k]) * mean, 1.0, "rate by tag");
  }
  sym_assert(Timing::GetTag(17) == "", "unknown handle has no tag");
  sym_reach("end");
}
ENTRY(h_timer_reset) {
  { Timer a(kTag[0]); Timer b(kTag[1]); }
  Timing::Reset(); sym_assert(Timing::GetTimers().empty(), "reset forgets every tag");
  int k = sym_choice("tag", 3); { Timer t(kTag[k]); }
  sym_assert(Timing::GetNumSamples(kTag[k]) == 1, "statistics start afresh after a reset"); sym_assert(Timing::GetTimers().size() == 1, "one entry after the reset"); sym_assert(Timing::GetTag(Timing::GetHandle(kTag[k])) == kTag[k], "handle and tag correspond after the reset");
  double d = (double)(g_last[(g_reads - 1) & 15] - g_last[(g_reads - 2) & 15]) * 1e-9; sym_eq(Timing::GetTotalSeconds(kTag[k]), d, "total after the reset");
  sym_reach("end");
}
// timers that overlap, are used again, started again while running or destroyed while running: every interval counts for its own tag
#ifndef STEPS
#define STEPS 5
#endif
ENTRY(h_timer_overlap) {
  Timing::Reset(); Timer* t[3]; long st[3]; bool on[3]; int cnt[2] = {0, 0}; double tot[2] = {0, 0}, lo[2], hi[2]; const int tag[3] = {0, 1, 1}; for (int i = 0; i < 3; i++) { t[i] = new Timer(kTag[tag[i]], true); on[i] = false; }
  auto add = [&](int i, long now) { double d = (double)(now - st[i]) * 1e-9; int k = tag[i]; if (!cnt[k] || d < lo[k]) lo[k] = d; if (!cnt[k] || d > hi[k]) hi[k] = d; cnt[k]++; tot[k] += d; };
  for (int op = 0; op < STEPS; op++) { int i = sym_choice("timer", 3); if (on[i] && !sym_choice("start again", 2)) { t[i]->Stop(); add(i, g_last[(g_reads - 1) & 15]); on[i] = false; } else { t[i]->Start(); st[i] = g_last[(g_reads - 1) & 15]; on[i] = true; } for (int j = 0; j < 3; j++) sym_assert(t[j]->IsTiming() == on[j], "running as started"); }
  for (int i = 0; i < 3; i++) { int r = g_reads; delete t[i]; if (on[i]) { sym_assert(g_reads == r + 1, "a running timer ends its interval when destroyed"); add(i, g_last[(g_reads - 1) & 15]); } else sym_assert(g_reads == r, "a stopped timer adds nothing when destroyed"); }
  for (int k = 0; k < 2; k++) { sym_assert((int)Timing::GetNumSamples(kTag[k]) == cnt[k], "one sample per completed interval"); if (!cnt[k]) continue; sym_eq(Timing::GetTotalSeconds(kTag[k]), tot[k], "total"); sym_eq(Timing::GetMinSeconds(kTag[k]), lo[k], "minimum"); sym_eq(Timing::GetMaxSeconds(kTag[k]), hi[k], "maximum"); }
  sym_reach("end");
}
// the rate is that of the latest fifty intervals
ENTRY(h_timer_rate) {
  Timing::Reset(); Timer t(kTag[0], true); double d[53]; for (int i = 0; i < 53; i++) { g_concrete = i != 0 && i != 2 && i != 3 && i != 52; t.Start(); t.Stop(); d[i] = (double)(g_last[(g_reads - 1) & 15] - g_last[(g_reads - 2) & 15]) * 1e-9; } g_concrete = false;
  double w = 0, a = 0; for (int i = 0; i < 53; i++) { a += d[i]; if (i >= 3) w += d[i]; } sym_eq(Timing::GetHz(kTag[0]) * w, 50.0, "rate of the latest intervals"); sym_eq(Timing::GetMeanSeconds(kTag[0]) * 53, a, "mean of all"); sym_eq(Timing::GetTotalSeconds(kTag[0]), a, "total of all"); sym_reach("end");
}
// a timer that runs across a reset does not count for the tags used afterwards
ENTRY(h_timer_across) { Timing::Reset(); { Timer x(kTag[1]); } Timer* a = new Timer(kTag[sym_choice("tag", 2)]); Timing::Reset(); int k = sym_choice("next", 3); { Timer t(kTag[k]); } double d = (double)(g_last[(g_reads - 1) & 15] - g_last[(g_reads - 2) & 15]) * 1e-9; delete a; sym_assert(Timing::GetNumSamples(kTag[k]) == 1, "counts its own intervals only"); sym_eq(Timing::GetTotalSeconds(kTag[k]), d, "total of its own intervals"); sym_reach("end"); }
// many tags, some of them long and alike
static std::string longTag(int i) { std::string s; if (i % 5 == 0) s = std::string(300, 'x'); char b[8]; int n = 0, k = i; do { b[n++] = '0' + k % 10; k /= 10; } while (k); while (n) s += b[--n]; return s; }
ENTRY(h_timer_many) {
  Timing::Reset(); const int n = 300; std::vector<size_t> h; double one = 0; for (int i = 0; i < n; i++) { h.push_back(Timing::GetHandle(longTag(i))); g_concrete = i != 7; { Timer t(longTag(i)); } if (i == 7) one = (double)(g_last[(g_reads - 1) & 15] - g_last[(g_reads - 2) & 15]) * 1e-9; if (i % 3 == 0) { Timer t(h[i]); } } g_concrete = false;
  sym_assert((int)Timing::GetTimers().size() == n, "one entry per tag"); for (int i = 0; i < n; i++) { sym_assert(Timing::GetHandle(longTag(i)) == h[i], "the handle of a tag is stable"); sym_assert(Timing::GetTag(h[i]) == longTag(i), "handle and tag correspond"); int k = i % 3 == 0 ? 2 : 1; sym_assert((int)Timing::GetNumSamples(h[i]) == k, "one sample per completed interval"); sym_eq(Timing::GetTotalSeconds(longTag(i)), i == 7 ? one : 0.25 * k, "total"); }
  sym_reach("end");
}
