#include "rpm.hpp"
template<class T> T *exact(int n) { return (T *)_mm_malloc(sizeof(T)*n, 64); }
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    int m = sz(), n = sz(), base = rnd(0, 1);
    int nnz = m && n ? (flip(5) ? 0 : rnd(0, 3*m)) : 0;
    if (flip(3) && m && n) nnz = rnd(0, m*n > 400 ? 400 : m*n);
    COO A;
    A.m = m; A.n = n; A.nnz = nnz;
    A.rowidx = exact<int>(nnz); A.colidx = exact<int>(nnz); A.values = exact<double>(nnz);
    int shape = rnd(0, 2);
    for (int i = 0; i < nnz; ++i) {
      A.rowidx[i] = shape == 1 ? m : shape == 2 && flip() ? 1 : rnd(1, m);
      A.colidx[i] = rnd(1, n);
      double x = val(); A.values[i] = x == 0 ? 2 : x;
    }
    bool mat = flip(3) ? false : true, sorted = mat || flip();
    bool dia = flip(3) ? false : true, idi = flip(3) ? false : true, dg = flip(3) ? false : true, sep = flip(3) ? false : true;
    add("m=%d n=%d nnz=%d base=%d\n", m, n, nnz, base);
    if (nnz) { addv("rows", A.rowidx, nnz); addv("columns", A.colidx, nnz); addv("values", A.values, nnz); }
    if (mat) add("dcoo2csr(matrix, separate diagonals %d) diagptr=%d idiag=%d diag=%d\n", sep, dia, idi, dg);
    else add("dcoo2csr(arrays, sort=%d)\n", sorted);
    ready();
    CSR B;
    B.rowptr = exact<int>(m + 1); B.colidx = exact<int>(nnz); B.values = exact<double>(nnz);
    if (mat && dia) B.diagptr = exact<int>(m);
    if (mat && idi) B.idiag = exact<double>(m);
    if (mat && dg) B.diag = exact<double>(m);
    for (int i = 0; i < m; ++i) { if (B.diagptr) B.diagptr[i] = -7; if (B.idiag) B.idiag[i] = -7; if (B.diag) B.diag[i] = -7; }
    std::vector<int> r0(A.rowidx, A.rowidx + nnz), c0(A.colidx, A.colidx + nnz);
    std::vector<double> v0(A.values, A.values + nnz);
    if (mat) dcoo2csr(&B, &A, base, sep);
    else { B.m = m; B.n = n; dcoo2csr(m, nnz, B.rowptr, B.colidx, B.values, A.rowidx, A.colidx, A.values, sorted, base); }
    RP_CHECK(B.m == m && B.n == n, "dimensions %d %d", B.m, B.n);
    RP_CHECK(std::equal(r0.begin(), r0.end(), A.rowidx) && std::equal(c0.begin(), c0.end(), A.colidx) && std::equal(v0.begin(), v0.end(), A.values), "the coordinate list changed");
    RP_CHECK(B.rowptr[0] == base && B.rowptr[m] == base + nnz, "row pointers run from %d to %d", B.rowptr[0], B.rowptr[m]);
    std::vector<std::vector<std::pair<int, double> > > want(m);
    for (int i = 0; i < nnz; ++i) want[r0[i] - 1].push_back(std::make_pair(c0[i] - 1 + base, v0[i]));
    for (int i = 0; i < m; ++i) {
      RP_CHECK(B.rowptr[i] <= B.rowptr[i + 1], "row pointers descend at %d", i);
      std::vector<std::pair<int, double> > got;
      int at = -1, cnt = 0;
      for (int j = B.rowptr[i] - base; j < B.rowptr[i + 1] - base; ++j) {
        got.push_back(std::make_pair(B.colidx[j], B.values[j]));
        if (sorted && j > B.rowptr[i] - base) RP_CHECK(B.colidx[j - 1] <= B.colidx[j], "row %d is not sorted", i);
        if (B.colidx[j] - base == i) { at = j; ++cnt; }
      }
      std::sort(got.begin(), got.end()); std::sort(want[i].begin(), want[i].end());
      RP_CHECK(got == want[i], "row %d does not hold its entries", i);
      if (mat && dia && cnt) {
        int g = B.diagptr[i] - base;
        RP_CHECK(g >= B.rowptr[i] - base && g < B.rowptr[i + 1] - base && B.colidx[g] - base == i, "diagptr[%d] = %d", i, B.diagptr[i]);
        if (sep && idi && dg) RP_CHECK(B.diag[i] == B.values[g] && B.idiag[i] == 1/B.values[g], "diag[%d] or idiag[%d]", i, i);
      }
      (void)at;
    }
  }
  return done();
}
