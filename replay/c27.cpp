#include "rpm.hpp"
#include <new>
#include "MemoryPool.hpp"
extern "C" int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
static bool gone(void *p) { return __asan_address_is_poisoned && __asan_address_is_poisoned(p); }
static bool kept(void *p) { return !__asan_address_is_poisoned || !__asan_address_is_poisoned(p); }
struct F { int *rowptr, *colidx, *diagptr, *extptr; double *values, *idiag, *diag; };
template<class T> static T *some(bool on, size_t n) {
  if (!on) return NULL;
  T *p = (T *)_mm_malloc(sizeof(T)*(n + 1), 64);
  for (size_t i = 0; i <= n; ++i) p[i] = 0;
  return p;
}
static void *raw(size_t n) { void *p = malloc(n); memset(p, 0x5a, n); return p; }
template<class T> static void touch(T *p, size_t n, const char *what) {
  RP_CHECK(p, "no %s", what);
  for (size_t i = 0; i < n; ++i) p[i] = 1;
}
int main(int c, char **v) {
  init(c, v);
  MemoryPool *pool = MemoryPool::getSingleton();
  pool->initialize(1 << 16);
  while (more()) {
    begin();
    int what = rnd(0, 5), m = rnd(0, 9), n = rnd(0, 9), nnz = rnd(0, 20), has = rnd(0, 127);
    bool sep = flip(), pooled = flip(4), viaDtor = flip();
    add("case=%d m=%d n=%d nnz=%d has=%d sep=%d pooled=%d destructor=%d\n", what, m, n, nnz, has, sep, pooled, viaDtor);
    ready();
    void *s = raw(sizeof(CSR));
    if (what == 0) {            // sized and empty constructors
      CSR *A;
      if (flip()) { A = new (s) CSR(); RP_CHECK(!A->rowptr && !A->colidx && !A->values && !A->idiag && !A->diag && !A->diagptr && !A->extptr, "CSR(): arrays"); A->alloc(m, nnz, sep); }
      else { A = new (s) CSR(m, n, nnz); sep = true; RP_CHECK(A->n == n, "CSR(m, n, nnz): n"); }
      RP_CHECK(A->m == m, "m = %d", A->m);
      RP_CHECK(!A->extptr, "an extptr");
      touch(A->rowptr, m + 1, "rowptr"); touch(A->colidx, nnz, "colidx"); touch(A->values, nnz, "values"); touch(A->diagptr, m, "diagptr");
      if (sep) { touch(A->idiag, m, "idiag"); touch(A->diag, m, "diag"); }
      else RP_CHECK(!A->idiag && !A->diag, "separate diagonals");
      F f = {A->rowptr, A->colidx, A->diagptr, A->extptr, A->values, A->idiag, A->diag};
      if (viaDtor) A->~CSR();
      else { A->dealloc(); A->dealloc(); RP_CHECK(!A->rowptr && !A->colidx && !A->values && !A->idiag && !A->diag && !A->diagptr && !A->extptr, "dealloc: a dangling array"); A->~CSR(); }
      RP_CHECK(kept(s), "object released");
      if (__asan_address_is_poisoned) {
        RP_CHECK(gone(f.rowptr) && (nnz == 0 || (gone(f.colidx) && gone(f.values))), "not released");
        if (m) RP_CHECK(gone(f.diagptr) && (!sep || (gone(f.idiag) && gone(f.diag))), "diagonal data not released");
      }
    }
    else if (what < 4) {        // borrowed (and pooled) arrays
      F f = {some<int>(true, m), some<int>(true, nnz), some<int>(has & 1, m), some<int>(has & 2, m), some<double>(has & 4, nnz), some<double>(has & 8, m), some<double>(has & 16, m)};
      size_t tail = pool->getTail();
      int *own = f.rowptr;
      if (pooled) f.rowptr = pool->allocate<int>(m + 1);
      f.rowptr[0] = 0;
      CSR *A = new (s) CSR(m, n, f.rowptr, f.colidx, f.values);
      RP_CHECK(A->m == m && A->n == n && A->rowptr == f.rowptr && A->colidx == f.colidx && A->values == f.values, "wrapping constructor");
      RP_CHECK(!A->extptr && !A->diagptr && !A->idiag && !A->diag, "wrapping constructor: further arrays");
      A->extptr = f.extptr; A->diagptr = f.diagptr; A->idiag = f.idiag; A->diag = f.diag;
      if (!viaDtor) {
        A->dealloc();
        RP_CHECK(!A->diagptr && !A->idiag && !A->diag, "dealloc: a dangling array");
        if (pooled) RP_CHECK(!A->rowptr && !A->colidx && !A->values && !A->extptr, "dealloc of a pooled matrix");
      }
      A->~CSR();
      RP_CHECK(kept(own) && (!f.extptr || kept(f.extptr)) && kept(f.colidx) && (!f.values || kept(f.values)), "a borrowed array was released");
      if (pooled) {
        RP_CHECK((!f.diagptr || kept(f.diagptr)) && (!f.idiag || kept(f.idiag)) && (!f.diag || kept(f.diag)), "an array of a pooled matrix was released");
        _mm_free(f.diagptr); _mm_free(f.idiag); _mm_free(f.diag);
        pool->setTail(tail);
      }
      else if (__asan_address_is_poisoned)
        RP_CHECK((!f.diagptr || gone(f.diagptr)) && (!f.idiag || gone(f.idiag)) && (!f.diag || gone(f.diag)), "diagonal data not released");
      _mm_free(own); _mm_free(f.colidx); _mm_free(f.values); _mm_free(f.extptr);
    }
    else {                      // coordinate lists
      COO *B = new (s) COO();
      RP_CHECK(!B->rowidx && !B->colidx && !B->values && !B->isSymmetric, "COO(): members");
      int *r = B->rowidx = some<int>(has & 1, nnz), *q = B->colidx = some<int>(has & 2, nnz);
      double *x = B->values = some<double>(has & 4, nnz);
      if (!viaDtor) { B->dealloc(); RP_CHECK(!B->rowidx && !B->colidx && !B->values, "COO::dealloc: a dangling array"); }
      B->~COO();
      if (__asan_address_is_poisoned) RP_CHECK((!r || gone(r)) && (!q || gone(q)) && (!x || gone(x)), "coordinate list not released");
    }
    free(s);
  }
  return done();
}
