#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), n = flip() ? m : sz(), base = rnd(0, 1);
    A.random(m, n, base, flip(), flip(), n >= m && flip());
    A.hasValues = !flip(3);
    // the transpose records a diagonal where it stores one
    if (flip()) { A.hasDiagptr = true; A.diagptr.assign(m, base); for (int i = 0; i < m; ++i) for (int j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) if (A.colidx[j - base] == i + base) A.diagptr[i] = j; }
    A.show();
    add("transpose\n");
    ready();
    CSR *M = A.make();
    CSR *T = M->transpose();
    RP_CHECK(T->m == n && T->n == m, "dimensions %d %d", T->m, T->n);
    RP_CHECK((T->values != NULL) == (A.hasValues && M->values != NULL), "values array");
    std::vector<std::vector<std::pair<int, double> > > want(n);
    for (int i = 0; i < m; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) want[A.colidx[j] - base].push_back(std::make_pair(i + base, A.hasValues ? A.values[j] : 0.));
    RP_CHECK(T->rowptr != NULL, "no row pointers");
    RP_CHECK(T->rowptr[0] == base && T->rowptr[n] == base + A.nnz, "row pointers run from %d to %d", T->rowptr[0], T->rowptr[n]);
    for (int i = 0; i < n; ++i) {
      RP_CHECK(T->rowptr[i + 1] - T->rowptr[i] == (int)want[i].size(), "row %d has %d entries", i, T->rowptr[i + 1] - T->rowptr[i]);
      bool dg = false;
      for (int k = 0; k < (int)want[i].size(); ++k) {
        int j = T->rowptr[i] - base + k;
        RP_CHECK(T->colidx[j] == want[i][k].first, "column %d of row %d is %d", k, i, T->colidx[j]);
        if (A.hasValues) RP_CHECK(T->values[j] == want[i][k].second, "value %d of row %d", k, i);
        if (T->colidx[j] == i + base) dg = true;
      }
      if (A.hasDiagptr && dg) {
        int g = T->diagptr[i] - base;
        RP_CHECK(g >= T->rowptr[i] - base && g < T->rowptr[i + 1] - base && T->colidx[g] == i + base, "diagptr[%d] = %d", i, T->diagptr[i]);
      }
    }
    // input untouched
    for (int k = 0; k < A.nnz; ++k) RP_CHECK(M->colidx[k] == A.colidx[k], "the matrix changed");
  }
  return done();
}
