#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    int nx = rnd(1, 5), ny = rnd(1, 5), nz = rnd(1, 5), b = rnd(0, 1);
    bool cube = flip(6);
    if (flip(3)) { int *d[3] = {&nx, &ny, &nz}; *d[rnd(0, 2)] = 1; }
    if (cube) ny = nz = nx;
    add("nx=%d ny=%d nz=%d base=%d %s\n", nx, ny, nz, b, cube ? "cube" : "");
    ready();
    CSR A;
    for (int round = flip(3) ? 2 : 1; round > 0; --round) {
      if (cube) generate3D27PtLaplacian(&A, nx, b);
      else generate3D27PtLaplacian(&A, nx, ny, nz, b);
      RP_CHECK(A.m == nx*ny*nz && A.n == nx*ny*nz, "dimensions %d x %d", A.m, A.n);
      int k = b, r = 0;
      RP_CHECK(A.rowptr[0] == b, "rowptr[0] = %d", A.rowptr[0]);
      for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x, ++r) {
        int n = 0;
        for (int p = 0; p < nx*ny*nz; ++p) {
          int pz = p/(nx*ny), py = p/nx%ny, px = p%nx;
          n += abs(pz - z) <= 1 && abs(py - y) <= 1 && abs(px - x) <= 1;
        }
        RP_CHECK(A.rowptr[r + 1] == A.rowptr[r] + n, "rowptr[%d] = %d, expected %d", r + 1, A.rowptr[r + 1], A.rowptr[r] + n);
        for (int p = 0; p < nx*ny*nz; ++p) {
          int pz = p/(nx*ny), py = p/nx%ny, px = p%nx;
          if (!(abs(pz - z) <= 1 && abs(py - y) <= 1 && abs(px - x) <= 1)) continue;
          RP_CHECK(A.colidx[k - b] == p + b, "row %d entry %d: column %d, expected %d", r, k - A.rowptr[r], A.colidx[k - b], p + b);
          RP_CHECK(A.values[k - b] == (p == r ? 26. : -1.), "row %d column %d: value %g", r, p + b, A.values[k - b]);
          if (p == r) RP_CHECK(A.diagptr[r] == k, "diagptr[%d] = %d, expected %d", r, A.diagptr[r], k);
          ++k;
        }
        RP_CHECK(A.diag[r] == 26. && A.idiag[r] == 1/26., "diag[%d] = %g, idiag[%d] = %g", r, A.diag[r], r, A.idiag[r]);
      }
      RP_CHECK(!A.extptr, "an extptr");
    }
  }
  return done();
}
