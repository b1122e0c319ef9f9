#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), n = flip() ? m : sz();
    A.random(m, n, rnd(0, 1), flip(4));
    A.makeDiag();
    A.hasValues = !flip(4); A.hasDiagptr = flip(); A.hasIdiag = flip(); A.hasDiag = flip();
    if (flip()) A.makeExt();
    int op = rnd(0, 3);
    A.show();
    add("op=%s\n", op == 0 ? "make0BasedIndexing" : op == 1 ? "make1BasedIndexing" : op == 2 ? "there and back" : "copy constructor");
    ready();
    CSR *M = A.make();
    if (op == 0) { M->make0BasedIndexing(); A.same(M, "make0BasedIndexing", -A.base); }
    else if (op == 1) { M->make1BasedIndexing(); A.same(M, "make1BasedIndexing", 1 - A.base); }
    else if (op == 2) {
      if (A.base) { M->make0BasedIndexing(); M->make1BasedIndexing(); } else { M->make1BasedIndexing(); M->make0BasedIndexing(); }
      A.same(M, "there and back");
    }
    else {
      CSR *B = new CSR(*M);
      A.same(B, "copy");
      A.same(M, "source of the copy");
      // writing the copy leaves the source alone
      for (int i = 0; i <= m; ++i) B->rowptr[i] = -5;
      for (int i = 0; i < A.nnz; ++i) { B->colidx[i] = -5; if (A.hasValues) B->values[i] = -5; }
      for (int i = 0; i < m; ++i) {
        if (A.hasDiagptr) B->diagptr[i] = -5;
        if (A.hasExtptr) B->extptr[i] = -5;
        if (A.hasDiag) B->diag[i] = -5;
        if (A.hasIdiag) B->idiag[i] = -5;
      }
      A.same(M, "source after writing the copy");
      delete B;
      A.same(M, "source after deleting the copy");
    }
    Mat::drop(M);
  }
  return done();
}
