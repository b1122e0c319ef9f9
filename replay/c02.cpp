#include "rpm.hpp"
static void shuffled(std::vector<int> &p, int n) {
  p.resize(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[rnd(0, i)]);
}
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), base = rnd(0, 1);
    bool d = flip();
    A.random(m, d ? m + (flip(3) ? rnd(0, 5) : 0) : sz(), base, !d && flip(), flip(), d);
    if (d) { A.makeDiag(); A.hasDiagptr = flip(3) ? false : true; A.hasIdiag = flip(); }
    A.hasValues = !flip(3);
    if (flip(3)) {
      A.makeExt();
      if (A.hasDiagptr) for (int i = 0; i < m; ++i) A.extptr[i] = rnd(A.diagptr[i] + 1, A.rowptr[i + 1]);
    }
    bool id = flip(4), sort = flip();
    std::vector<int> p, q;
    shuffled(p, m);
    shuffled(q, A.n);
    A.show();
    if (!id && m) addv("rowInversePerm", &p[0], m);
    if (A.n) addv("columnPerm", &q[0], A.n);
    add("permute(columnPerm, %s, sort = %d)\n", id ? "NULL" : "rowInversePerm", sort);
    ready();
    CSR *M = A.make();
    int dummy[1] = {0};
    CSR *R = M->permute(A.n ? &q[0] : dummy, id ? NULL : (m ? &p[0] : dummy), sort);
    RP_CHECK(R->m == m && R->n == A.n, "dimensions %d x %d", R->m, R->n);
    RP_CHECK(!R->values == !A.hasValues && !R->diagptr == !A.hasDiagptr && !R->idiag == !A.hasIdiag && !R->extptr == !A.hasExtptr, "the optional arrays differ");
    RP_CHECK(R->rowptr[0] == base, "rowptr[0] = %d", R->rowptr[0]);
    for (int i = 0; i < m; ++i) {
      int r = id ? i : p[i];
      int beg = A.rowptr[r] - base, end = A.rowptr[r + 1] - base, mid = A.hasExtptr ? A.extptr[r] - base : end;
      int at = R->rowptr[i] - base, nmid = at + mid - beg;
      RP_CHECK(R->rowptr[i + 1] - base == at + end - beg, "row %d has %d entries, its source row %d", i, R->rowptr[i + 1] - base - at, end - beg);
      if (A.hasExtptr) RP_CHECK(R->extptr[i] - base == nmid, "row %d: extptr %d, expected %d", i, R->extptr[i], nmid + base);
      std::vector<std::pair<int, double> > want, got;
      for (int j = beg; j < mid; ++j) want.push_back(std::make_pair(q[A.colidx[j] - base] + base, A.hasValues ? A.values[j] : 0));
      for (int j = at; j < nmid; ++j) got.push_back(std::make_pair(R->colidx[j], A.hasValues ? R->values[j] : 0));
      if (sort) {
        for (int j = at + 1; j < nmid; ++j) RP_CHECK(R->colidx[j - 1] <= R->colidx[j], "row %d is not sorted", i);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
      }
      for (size_t k = 0; k < want.size(); ++k)
        RP_CHECK(want[k] == got[k], "row %d, entry %d: (%d, %g), expected (%d, %g)", i, (int)k, got[k].first, got[k].second, want[k].first, want[k].second);
      for (int j = mid; j < end; ++j) {
        RP_CHECK(R->colidx[nmid + j - mid] == A.colidx[j], "row %d: external column %d, expected %d", i, R->colidx[nmid + j - mid], A.colidx[j]);
        if (A.hasValues) RP_CHECK(R->values[nmid + j - mid] == A.values[j], "row %d: external value differs", i);
      }
      if (A.hasDiagptr) {
        int g = R->diagptr[i] - base;
        RP_CHECK(g >= at && g < nmid && R->colidx[g] == q[r] + base, "row %d: diagptr %d does not name the renamed diagonal entry", i, g + base);
      }
      if (A.hasIdiag) RP_CHECK(R->idiag[i] == A.idiag[r], "row %d: inverse diagonal %g, expected %g", i, R->idiag[i], A.idiag[r]);
    }
    A.same(M, "source");
    Mat::drop(M); Mat::drop(R);
  }
  return done();
}
