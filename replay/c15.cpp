#include "rpm.hpp"
static void check(const CSR &S, const CSR *P, const Mat &M, bool lower) {
  const char *w = lower ? "L" : "U";
  int b = M.base;
  RP_CHECK(P->m == M.m && P->n == M.n, "%s: dimensions %d x %d", w, P->m, P->n);
  int k = b;
  for (int i = 0; i < M.m; ++i) {
    RP_CHECK(P->rowptr[i] == k, "%s: rowptr[%d] = %d, expected %d", w, i, P->rowptr[i], k);
    for (int j = M.rowptr[i] - b; j < M.rowptr[i + 1] - b; ++j) {
      int c = M.colidx[j] - b;
      if (lower ? c < i : c > i) {
        RP_CHECK(P->colidx[k - b] == c + b, "%s: row %d column %d at %d, expected %d", w, i, P->colidx[k - b], k - b, c + b);
        RP_CHECK(P->values[k - b] == M.values[j], "%s: row %d value %g at %d, expected %g", w, i, P->values[k - b], k - b, M.values[j]);
        ++k;
      }
    }
    RP_CHECK(P->idiag[i] == M.idiag[i], "%s: idiag[%d] = %g, expected %g", w, i, P->idiag[i], M.idiag[i]);
    if (!lower && M.hasExtptr)
      RP_CHECK(P->extptr[i] == k - (M.rowptr[i + 1] - M.extptr[i]), "U: extptr[%d] = %d, expected %d", i, P->extptr[i], k - (M.rowptr[i + 1] - M.extptr[i]));
  }
  RP_CHECK(P->rowptr[M.m] == k, "%s: rowptr[m] = %d, expected %d", w, P->rowptr[M.m], k);
  if (lower || !M.hasExtptr) RP_CHECK(!P->extptr, "%s: has an extptr", w);
}
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    CSR L, U;
    for (int round = flip(2) ? 2 : 1; round > 0; --round) {
      Mat M;
      int m = sz();
      M.random(m, m, rnd(0, 1), flip(3), flip(2), flip(2));
      M.makeDiag();
      for (int i = 0; i < m; ++i) if (M.idiag[i] == 0) M.idiag[i] = i + 0.5;
      M.hasIdiag = true; M.hasDiagptr = flip(2); M.hasDiag = flip(2);
      if (flip(2)) {
        // external part: the longest tail above the diagonal, or less
        M.extptr.resize(m);
        for (int i = 0; i < m; ++i) {
          int e = M.rowptr[i + 1];
          while (e > M.rowptr[i] && M.colidx[e - 1 - M.base] - M.base > i && !flip(4)) --e;
          M.extptr[i] = e;
        }
        M.hasExtptr = true;
      }
      M.show();
      ready();
      CSR *A = M.make();
      splitLU(*A, &L, &U);
      M.same(A, "source after splitting");
      check(*A, &L, M, true);
      check(*A, &U, M, false);
      Mat::drop(A);
    }
    // their arrays are not theirs to free
    CSR *P[2] = {&L, &U};
    for (int i = 0; i < 2; ++i) { _mm_free(P[i]->rowptr); _mm_free(P[i]->colidx); _mm_free(P[i]->values); _mm_free(P[i]->extptr); P[i]->rowptr = P[i]->colidx = P[i]->extptr = NULL; P[i]->values = NULL; }
  }
  return done();
}
