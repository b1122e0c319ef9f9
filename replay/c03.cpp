#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), base = rnd(0, 1);
    bool d = flip();
    A.random(m, d ? m + (flip(3) ? rnd(0, 5) : 0) : sz(), base, !d && flip(), flip(), d);
    if (d) { A.makeDiag(); A.hasDiagptr = flip(3) ? false : true; A.hasIdiag = flip(); A.hasDiag = flip(3); }
    A.hasValues = !flip(4);
    if (flip(3)) A.makeExt();
    bool id = flip(8);
    std::vector<int> p(m);
    for (int i = 0; i < m; ++i) p[i] = i;
    for (int i = m - 1; i > 0; --i) std::swap(p[i], p[rnd(0, i)]);
    A.show();
    if (!id && m) addv("inversePerm", &p[0], m);
    add("permuteRows\n");
    ready();
    CSR *M = A.make();
    CSR *R = M->permuteRows(id ? NULL : (m ? &p[0] : (int *)v));
    Mat E = A;
    E.hasDiag = R->diag && A.hasDiag; // either way
    E.colidx.clear(); E.values.clear(); E.rowptr.assign(1, base); E.diagptr.clear(); E.extptr.clear(); E.idiag.clear();
    std::vector<double> dg;
    for (int i = 0; i < m; ++i) {
      int r = id ? i : p[i];
      int at = (int)E.colidx.size() + base;
      for (int j = A.rowptr[r] - base; j < A.rowptr[r + 1] - base; ++j) { E.colidx.push_back(A.colidx[j]); E.values.push_back(A.values[j]); }
      E.rowptr.push_back((int)E.colidx.size() + base);
      if (d) { E.diagptr.push_back(at + A.diagptr[r] - A.rowptr[r]); E.idiag.push_back(A.idiag[r]); dg.push_back(A.diag[r]); }
      if (A.hasExtptr) E.extptr.push_back(at + A.extptr[r] - A.rowptr[r]);
    }
    E.diag = dg;
    E.same(R, "permuted rows");
    A.same(M, "source");
    Mat::drop(M); Mat::drop(R);
  }
  return done();
}
