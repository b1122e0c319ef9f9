#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), base = rnd(0, 1);
    bool d = flip();
    A.random(m, d ? m + (flip(3) ? rnd(0, 5) : 0) : sz(), base, !d && flip(), flip(), d);
    if (d) { A.makeDiag(); A.hasDiagptr = flip(3) ? false : true; A.hasIdiag = flip(); }
    A.hasValues = !flip(3);
    if (flip(3)) {
      A.makeExt();
      if (A.hasDiagptr) for (int i = 0; i < m; ++i) A.extptr[i] = rnd(A.diagptr[i] + 1, A.rowptr[i + 1]);
    }
    std::vector<int> q(A.n);
    for (int i = 0; i < A.n; ++i) q[i] = i;
    for (int i = A.n - 1; i > 0; --i) std::swap(q[i], q[rnd(0, i)]);
    A.show();
    if (A.n) addv("perm", &q[0], A.n);
    add("permuteColsInPlace\n");
    ready();
    CSR *M = A.make();
    int dummy[1] = {0};
    M->permuteColsInPlace(A.n ? &q[0] : dummy);
    for (int i = 0; i <= m; ++i) RP_CHECK(M->rowptr[i] == A.rowptr[i], "rowptr[%d] = %d, was %d", i, M->rowptr[i], A.rowptr[i]);
    for (int i = 0; i < m; ++i) {
      int beg = A.rowptr[i] - base, end = A.rowptr[i + 1] - base, mid = A.hasExtptr ? A.extptr[i] - base : end;
      if (A.hasExtptr) RP_CHECK(M->extptr[i] == A.extptr[i], "extptr[%d] changed", i);
      std::vector<std::pair<int, double> > want, got;
      for (int j = beg; j < mid; ++j) want.push_back(std::make_pair(q[A.colidx[j] - base] + base, A.hasValues ? A.values[j] : 0));
      for (int j = beg; j < mid; ++j) got.push_back(std::make_pair(M->colidx[j], A.hasValues ? M->values[j] : 0));
      std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
      RP_CHECK(want == got, "row %d does not hold its renamed entries", i);
      for (int j = mid; j < end; ++j) {
        RP_CHECK(M->colidx[j] == A.colidx[j], "row %d: external column changed", i);
        if (A.hasValues) RP_CHECK(M->values[j] == A.values[j], "row %d: external value changed", i);
      }
      int lo = mid, hi = mid;
      if (A.hasDiagptr) {
        int g = M->diagptr[i] - base;
        RP_CHECK(g >= beg && g < mid && M->colidx[g] == q[i] + base, "row %d: diagptr %d does not name the renamed diagonal entry", i, g + base);
        lo = g; hi = g + 1;
      }
      for (int j = beg + 1; j < lo; ++j) RP_CHECK(M->colidx[j - 1] <= M->colidx[j], "row %d: the lower part is not sorted", i);
      for (int j = hi + 1; j < mid; ++j) RP_CHECK(M->colidx[j - 1] <= M->colidx[j], "row %d: the upper part is not sorted", i);
    }
    if (A.hasIdiag) for (int i = 0; i < m; ++i) RP_CHECK(M->idiag[i] == A.idiag[i], "idiag[%d] changed", i);
    Mat::drop(M);
  }
  return done();
}
