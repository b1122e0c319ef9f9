#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  std::string path = dir + "/m.bin", bad = dir + "/none/m.bin";
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), n = flip() ? m : sz();
    A.random(m, n, rnd(0, 1), flip(4));
    if (flip()) { A.makeDiag(); A.hasDiagptr = true; A.hasIdiag = flip(); A.hasDiag = flip(); }
    if (flip(3)) A.makeExt();
    A.show();
    int b = rnd(0, 1);
    add("loaded with base %d\n", b);
    ready();
    CSR *M = A.make();
    if (flip(4)) {
      M->storeBin(bad.c_str());
      A.same(M, "after storeBin on a path that cannot be opened");
    }
    M->storeBin(path.c_str());
    A.same(M, "after storeBin");
    CSR L;
    for (int round = flip(4) ? 2 : 1; round > 0; --round) {
      L.loadBin(path.c_str(), b);
      RP_CHECK(L.m == m && L.n == n, "loaded: dimensions %d x %d", L.m, L.n);
      RP_CHECK(Mat::eq(L.rowptr, A.rowptr, m + 1, b - A.base), "loaded: row pointers differ");
      RP_CHECK(Mat::eq(L.colidx, A.colidx, A.nnz, b - A.base), "loaded: columns differ");
      RP_CHECK(Mat::eq(L.values, A.values, A.nnz), "loaded: values differ");
      RP_CHECK(!L.extptr, "loaded: an extptr");
      for (int i = 0; i < m; ++i) {
        bool has = false;
        for (int j = A.rowptr[i] - A.base; j < A.rowptr[i + 1] - A.base; ++j) has |= A.colidx[j] - A.base == i;
        if (!has) continue;
        int d = L.diagptr[i];
        RP_CHECK(d >= L.rowptr[i] && d < L.rowptr[i + 1] && L.colidx[d - b] == i + b, "loaded: diagptr[%d] = %d", i, d);
        double x = L.values[d - b];
        RP_CHECK(L.diag[i] == x && L.idiag[i] == 1/x, "loaded: diagonal of row %d: %g and inverse %g, entry %g", i, L.diag[i], L.idiag[i], x);
      }
    }
    unlink(path.c_str());
    Mat::drop(M);
  }
  return done();
}
