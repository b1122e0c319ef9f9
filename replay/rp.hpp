// Support for the replay harnesses: they look for a concrete input on which the
// real code breaks a property after an obligation has failed.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <utility>
#include <ctime>
#include <cmath>
#include <climits>
#include <unistd.h>
#include <omp.h>

namespace rp {
static unsigned long long S;
static std::string desc, dir;
static long cases;
static double t_end;

inline unsigned rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (unsigned)(S >> 11); }
inline int rnd(int lo, int hi) { return lo + (int)(rnd() % (unsigned)(hi - lo + 1)); }
inline bool flip(int k = 2) { return rnd() % k == 0; }

inline void add(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); desc += b;
}
template<class T> inline void addv(const char *name, const T *p, int n) {
  add("%s={", name);
  for (int i = 0; i < n && i < 400; ++i) add(i ? ",%g" : "%g", (double)p[i]);
  add("}\n");
}
static int jitter_on;
inline void begin() { desc.clear(); ++cases; jitter_on = rnd(0, 3) == 0 ? rnd(1, 3) : 0; }
// the input is known: remember it in case the code under test crashes
inline void ready() {
  FILE *f = fopen((dir + "/case.txt").c_str(), "w");
  if (f) { fputs(desc.c_str(), f); fclose(f); }
}
inline void fail(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  printf("FAIL %s\ninput:\n%s\nCASES %ld\n", b, desc.c_str(), cases);
  fflush(stdout);
  _exit(3);
}
#define RP_CHECK(c, ...) do { if (!(c)) rp::fail(__VA_ARGS__); } while (0)

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
inline bool more() { return now() < t_end; }
inline void init(int argc, char **argv) {
  S = 88172645463325252ull ^ ((argc > 1 ? strtoull(argv[1], 0, 10) : 1)*0x9E3779B97F4A7C15ull);
  for (int i = 0; i < 20; ++i) rnd();
  t_end = now() + (argc > 2 ? atof(argv[2]) : 5);
  dir = argc > 3 ? argv[3] : ".";
  omp_set_dynamic(0);
}
inline int done() { printf("CASES %ld\n", cases); fflush(stdout); _exit(0); }
inline int threads() {
  static const int c[] = {1, 2, 3, 4, 5, 7, 8, 13};
  int t = c[rnd(0, 7)];
  omp_set_num_threads(t);
  add("threads=%d\n", t);
  return t;
}
inline std::vector<int> perm(int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[rnd(0, i)]);
  return p;
}
// small integers and halves: sums and products are exact
inline double val() { return rnd(-16, 16)*0.5; }
}
// schedule perturbation: threads are delayed at team entry and around barriers
// (linked with --wrap; the delays change no behaviour)
static inline void rp_jitter() {
  if (!rp::jitter_on) return;
  static thread_local unsigned long long s;
  if (!s) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); s = t.tv_nsec*2654435761ull + (unsigned long long)(size_t)&s + 1; }
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  unsigned k = (unsigned)(s >> 20) & 7;
  if (k < 4) return;
  if (k < 7) { for (volatile int i = 0; i < (int)(s & 0xfff)*rp::jitter_on; ++i) ; }
  else usleep((unsigned)(s >> 40) % (60*rp::jitter_on));
}
extern "C" {
int __real_omp_get_thread_num(void);
int __wrap_omp_get_thread_num(void) { rp_jitter(); return __real_omp_get_thread_num(); }
void __real_GOMP_barrier(void);
void __wrap_GOMP_barrier(void) { rp_jitter(); __real_GOMP_barrier(); rp_jitter(); }
}
