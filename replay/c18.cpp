#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), base = rnd(0, 1);
    int op = rnd(0, 1);
    A.random(m, op || flip() ? m + (flip(4) ? rnd(0, 3) : 0) : sz(), base, false, true);
    if (op == 1 || flip()) { // complete diagonal
      Mat B = A; A.rowptr.assign(1, base); A.colidx.clear(); A.values.clear();
      for (int i = 0; i < m; ++i) {
        bool done = i >= B.n;
        for (int j = B.rowptr[i] - base; j < B.rowptr[i + 1] - base; ++j) {
          if (!done && B.colidx[j] - base > i) { A.colidx.push_back(i + base); A.values.push_back(rnd(1, 8)*0.5); done = true; }
          if (B.colidx[j] - base == i) done = true;
          A.colidx.push_back(B.colidx[j]); A.values.push_back(B.values[j] == 0 ? 4 : B.values[j]);
        }
        if (!done) { A.colidx.push_back(i + base); A.values.push_back(2); }
        A.rowptr.push_back((int)A.colidx.size() + base);
      }
      A.nnz = (int)A.colidx.size();
    }
    if (flip()) // shuffle entries below and above the diagonal among themselves
      for (int i = 0; i < m; ++i) {
        int b = A.rowptr[i] - base, e = A.rowptr[i + 1] - base, d = b;
        while (d < e && A.colidx[d] - base < i) ++d;
        for (int q = d - 1; q > b; --q) { int z = rnd(b, q); std::swap(A.colidx[q], A.colidx[z]); std::swap(A.values[q], A.values[z]); }
        int f = d < e && A.colidx[d] - base == i ? d + 1 : d;
        for (int q = e - 1; q > f; --q) { int z = rnd(f, q); std::swap(A.colidx[q], A.colidx[z]); std::swap(A.values[q], A.values[z]); }
      }
    A.makeDiag();
    A.hasValues = op == 1 || !flip(4);
    A.hasDiagptr = flip(4);
    A.hasIdiag = op == 1 && flip(6);
    A.show();
    add("%s\n", op ? "computeInverseDiag" : "constructDiagPtr");
    ready();
    CSR *M = A.make();
    int *dp = M->diagptr; double *id = M->idiag;
    if (op) M->computeInverseDiag(); else M->constructDiagPtr();
    if (op == 0 || !A.hasIdiag) {
      RP_CHECK(M->diagptr, "no diagonal positions");
      for (int i = 0; i < m; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j)
        if (A.colidx[j] - base == i) RP_CHECK(M->diagptr[i] == j + base, "diagonal position of row %d: %d, expected %d", i, M->diagptr[i], j + base);
    }
    if (op) {
      RP_CHECK(M->idiag, "no inverse diagonals");
      for (int i = 0; i < m; ++i) RP_CHECK(M->idiag[i] == A.idiag[i], "inverse diagonal of row %d: %g, expected %g", i, M->idiag[i], A.idiag[i]);
    }
    RP_CHECK(!A.hasDiagptr || M->diagptr == dp, "diagonal positions replaced");
    RP_CHECK(!A.hasIdiag || M->idiag == id, "inverse diagonals replaced");
    if (!A.hasDiagptr && M->diagptr) { _mm_free(M->diagptr); M->diagptr = NULL; }
    if (!A.hasIdiag && M->idiag) { _mm_free(M->idiag); M->idiag = NULL; }
    A.same(M, "matrix");
    Mat::drop(M);
  }
  return done();
}
