#include "rp.hpp"
#include "Utils.hpp"
using namespace rp;
using namespace SpMP;
template<class T> void reorders() {
  int nt = threads(); (void)nt;
  int n = flip(4) ? rnd(0, 4) : rnd(0, 200);
  std::vector<int> p = perm(n), q(n);
  for (int i = 0; i < n; ++i) q[p[i]] = i;
  T *v = new T[n], *o = new T[n];
  std::vector<T> orig(n);
  for (int i = 0; i < n; ++i) { orig[i] = v[i] = (T)(i*3 + 1); o[i] = -1; }
  bool nul = flip(6);
  int what = rnd(0, 1);
  int *pp = nul ? NULL : new int[n];
  const std::vector<int> &use = what ? q : p;
  if (pp) std::copy(use.begin(), use.end(), pp);
  add("reorderVectorOutOfPlace%s<%zu bytes> n=%d perm %s\n", what ? "WithInversePerm" : "", sizeof(T), n, nul ? "NULL" : "");
  if (pp) addv("perm", pp, n);
  ready();
  if (what) reorderVectorOutOfPlaceWithInversePerm(o, v, pp, n); else reorderVectorOutOfPlace(o, v, pp, n);
  for (int i = 0; i < n; ++i) {
    RP_CHECK(v[i] == orig[i], "source changed at %d", i);
    RP_CHECK(o[nul ? i : p[i]] == orig[i], "element %d not at its place", i);
    if (pp) RP_CHECK(pp[i] == use[i], "permutation changed");
  }
  delete[] v; delete[] o; delete[] pp;
}
void inplace() {
  threads();
  int n = flip(4) ? rnd(0, 4) : rnd(0, 200);
  std::vector<int> p = perm(n), q(n);
  for (int i = 0; i < n; ++i) q[p[i]] = i;
  double *v = new double[n], *tmp = new double[n];
  std::vector<double> orig(n);
  for (int i = 0; i < n; ++i) { orig[i] = v[i] = i*3 + 1; tmp[i] = -1; }
  bool nul = flip(6);
  int what = rnd(0, 5);
  const std::vector<int> &use = what & 1 ? q : p;
  int *pp = nul ? NULL : new int[n];
  if (pp) std::copy(use.begin(), use.end(), pp);
  add("in place/allocating reorder variant %d n=%d perm %s\n", what, n, nul ? "NULL" : "");
  if (pp) addv("perm", pp, n);
  ready();
  double *res = v;
  switch (what) {
  case 0: reorderVector(v, tmp, pp, n); break;
  case 1: reorderVectorWithInversePerm(v, tmp, pp, n); break;
  case 2: reorderVector(v, pp, n); break;
  case 3: reorderVectorWithInversePerm(v, pp, n); break;
  case 4: res = getReorderVector(v, pp, n); break;
  case 5: res = getReorderVectorWithInversePerm(v, pp, n); break;
  }
  for (int i = 0; i < n; ++i) {
    RP_CHECK(res[nul ? i : p[i]] == orig[i], "element %d not at its place", i);
    if (res != v) RP_CHECK(v[i] == orig[i], "source changed");
    if (pp) RP_CHECK(pp[i] == use[i], "permutation changed");
  }
  if (res != v) { RP_CHECK(((size_t)res & 63) == 0, "result not aligned"); _mm_free(res); }
  delete[] v; delete[] tmp; delete[] pp;
}
void inverse() {
  threads();
  int n = flip(4) ? rnd(0, 4) : rnd(0, 300);
  std::vector<int> p = perm(n);
  int *a = new int[n], *b = new int[n];
  std::copy(p.begin(), p.end(), a);
  for (int i = 0; i < n; ++i) b[i] = -5;
  add("getInversePerm n=%d\n", n); addv("perm", a, n);
  ready();
  getInversePerm(b, a, n);
  for (int i = 0; i < n; ++i) RP_CHECK(a[i] == p[i] && b[p[i]] == i, "inverse wrong at %d", i);
  RP_CHECK(isInversePerm(a, b, n), "isInversePerm rejects the inverse");
  RP_CHECK(isPerm(a, n) && isPerm(b, n), "isPerm rejects a permutation");
  if (n > 0) {
    int k = rnd(0, n - 1), old = b[k];
    b[k] = flip() ? rnd(0, n - 1) : rnd(-2, n + 1);
    add("then inverse[%d]=%d\n", k, b[k]);
    ready();
    RP_CHECK(isInversePerm(a, b, n) == (b[k] == old), "isInversePerm wrong");
  }
  delete[] a; delete[] b;
}
void checks() {
  int n = flip(3) ? rnd(0, 4) : rnd(0, 60);
  std::vector<int> p = perm(n);
  int k = rnd(0, 4);
  if (n) switch (k) {
  case 0: break;
  case 1: p[rnd(0, n - 1)] = p[rnd(0, n - 1)]; break;
  case 2: p[rnd(0, n - 1)] = rnd(-2, n + 2); break;
  case 3: { int s = rnd(-2, 2); for (int i = 0; i < n; ++i) p[i] += s; break; }
  case 4: for (int i = 0; i < n; ++i) if (p[i] == (n - 1)*(int)flip()) p[i] = rnd(0, 1) ? n : -1;
  }
  int *a = new int[n];
  std::copy(p.begin(), p.end(), a);
  add("isPerm n=%d\n", n); addv("perm", a, n);
  ready();
  std::vector<char> seen(n);
  bool ok = true;
  for (int i = 0; i < n; ++i) { if (p[i] < 0 || p[i] >= n || seen[p[i]]) { ok = false; break; } seen[p[i]] = 1; }
  RP_CHECK(isPerm(a, n) == ok, "isPerm is %d, should be %d", !ok, ok);
  for (int i = 0; i < n; ++i) RP_CHECK(a[i] == p[i], "input changed");
  delete[] a;
}
void mem() {
  threads();
  size_t n = flip(3) ? rnd(0, 130) : rnd(0, 5000), o = rnd(0, 70);
  int c = flip() ? 0 : rnd(-300, 300);
  bool inpar = flip(3);
  int what = rnd(0, 3);
  add("%s n=%zu at offset %zu c=%d %s\n", what == 0 ? "parMemset" : what == 1 ? "parMemcpy" : "copyVector", n, o, c, inpar ? "inside a parallel region" : "");
  ready();
  std::vector<unsigned char> a(n + o + 64, 0xA5), b(n + o + 64);
  for (size_t i = 0; i < b.size(); ++i) b[i] = (unsigned char)rnd();
  std::vector<unsigned char> b0 = b;
  if (what >= 2) {
    int m = (int)n;
    std::vector<double> x(m + 2, -1), y(m + 2, 0.);
    std::vector<int> xi(m + 2, -1), yi(m + 2);
    for (int i = 0; i < m + 2; ++i) { y[i] = rnd(); yi[i] = rnd(); }
    if (what == 2) copyVector(&x[0], &y[0], m); else copyVector(&xi[0], &yi[0], m);
    for (int i = 0; i < m + 2; ++i)
      if (what == 2) RP_CHECK(x[i] == (i < m ? y[i] : -1), "copyVector<double> at %d", i);
      else RP_CHECK(xi[i] == (i < m ? yi[i] : -1), "copyVector<int> at %d", i);
    return;
  }
  if (inpar) {
    // every thread works on a block of its own
    int T = omp_get_max_threads();
    std::vector<std::vector<unsigned char> > A(T, a);
#pragma omp parallel
    {
      std::vector<unsigned char> &x = A[omp_get_thread_num()];
      if (what == 0) parMemset(&x[o], c, n); else parMemcpy(&x[o], &b[o], n);
    }
    a = A[rnd(0, T - 1)];
  }
  else if (what == 0) parMemset(&a[o], c, n); else parMemcpy(&a[o], &b[o], n);
  RP_CHECK(b == b0, "source changed");
  for (size_t i = 0; i < a.size(); ++i) {
    unsigned char w = i < o || i >= o + n ? 0xA5 : what == 0 ? (unsigned char)c : b[i];
    RP_CHECK(a[i] == w, "byte %ld is %d, should be %d", (long)i - (long)o, a[i], w);
  }
}
void big() {
  size_t n = (size_t)INT_MAX + 1000;
  unsigned char *a = (unsigned char *)malloc(n + 64), *b = (unsigned char *)malloc(n);
  if (!a || !b) { free(a); free(b); return; }
  omp_set_num_threads(4);
  add("parMemset/parMemcpy of %zu bytes, 4 threads\n", n); ready();
  memset(a, 1, n + 64); memset(b, 2, n);
  parMemcpy(a, b, n);
  for (size_t i = 0; i < n + 64; ++i) RP_CHECK(a[i] == (i < n ? 2 : 1), "byte %zu is %d", i, a[i]);
  parMemset(a, 3, n);
  for (size_t i = 0; i < n + 64; ++i) RP_CHECK(a[i] == (i < n ? 3 : 1), "byte %zu is %d", i, a[i]);
  free(a); free(b);
}
int main(int c, char **v) {
  init(c, v);
  bool first = true;
  while (more()) {
    begin();
    switch (rnd(0, 5)) {
    case 0: reorders<double>(); break;
    case 1: reorders<int>(); break;
    case 2: inplace(); break;
    case 3: inverse(); break;
    case 4: checks(); break;
    case 5: mem(); break;
    }
    if (cases > 3000 && first) { first = false; begin(); big(); }
  }
  return done();
}
