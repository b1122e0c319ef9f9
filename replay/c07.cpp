#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  static const double K[] = {0, 1, -1, 2, 0.5, -3};
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), n = flip() ? m : sz(), k = rnd(1, 6);
    A.random(m, n, rnd(0, 1), flip(4));
    A.show();
    bool shortForm = flip(4), wy = !shortForm && flip(3);
    double al = K[rnd(0, 5)], be = K[rnd(0, 5)], ga = K[rnd(0, 5)];
    if (flip(3) || shortForm) { al = 1; be = 0; ga = 0; }
    int st[3][2];   // row, column strides of W, X, Y
    int rows[3] = {m, n, m};
    bool one = flip(3);
    for (int b = 0; b < 3; ++b) {
      int kind = rnd(0, 3), pad = rnd(0, 3);
      if (kind == 0 || one) { st[b][0] = 1; st[b][1] = rows[b] + pad; }                // column major
      else if (kind == 1) { st[b][0] = k + pad; st[b][1] = 1; }                        // row major
      else if (kind == 2) { st[b][1] = rnd(1, 3); st[b][0] = st[b][1]*(k - 1) + 1 + pad; }
      else { st[b][0] = rnd(1, 3); st[b][1] = st[b][0]*std::max(rows[b] - 1, 0) + 1 + pad; }
    }
    if (flip(8)) st[1][rnd(0, 1)] = 0;
    if (flip(8)) st[2][rnd(0, 1)] = 0;
    if (shortForm) { st[0][0] = st[1][0] = st[2][0] = 1; st[0][1] = st[2][1] = m; st[1][1] = n; }
    if (wy) { st[2][0] = st[0][0]; st[2][1] = st[0][1]; }
    int len[3];
    for (int b = 0; b < 3; ++b) len[b] = rows[b] ? (rows[b] - 1)*st[b][0] + (k - 1)*st[b][1] + 1 : 0;
    std::vector<double> D[3];
    for (int b = 0; b < 3; ++b) { D[b].resize(len[b]); for (int i = 0; i < len[b]; ++i) D[b][i] = val(); }
    if (wy) D[2] = D[0];
    add("k=%d W strides %d,%d X strides %d,%d Y strides %d,%d Y==W:%d three-argument:%d alpha=%g beta=%g gamma=%g\n", k,
        st[0][0], st[0][1], st[1][0], st[1][1], st[2][0], st[2][1], wy, shortForm, al, be, ga);
    if (len[1]) addv("X", &D[1][0], len[1]);
    ready();
    std::vector<double> ex(D[0]);
    for (int i = 0; i < m; ++i) for (int q = 0; q < k; ++q) {
      double s = 0;
      for (int j = A.rowptr[i] - A.base; j < A.rowptr[i + 1] - A.base; ++j) s += A.values[j]*D[1][(A.colidx[j] - A.base)*st[1][0] + q*st[1][1]];
      ex[i*st[0][0] + q*st[0][1]] = al*s + (shortForm ? 0 : be*D[2][i*st[2][0] + q*st[2][1]]) + ga;
    }
    CSR *M = A.make();
    double *W = Mat::blk(D[0], len[0]), *X = Mat::blk(D[1], len[1]), *Y = wy ? W : Mat::blk(D[2], len[2]);
    if (shortForm) M->multiplyWithDenseMatrix(W, k, X);
    else M->multiplyWithDenseMatrix(W, k, st[0][0], st[0][1], al, X, st[1][0], st[1][1], be, Y, st[2][0], st[2][1], ga);
    for (int i = 0; i < len[0]; ++i) RP_CHECK(W[i] == ex[i], "W[%d] = %g, expected %g", i, W[i], ex[i]);
    for (int i = 0; i < len[1]; ++i) RP_CHECK(X[i] == D[1][i], "X[%d] changed", i);
    if (!wy) for (int i = 0; i < len[2]; ++i) RP_CHECK(Y[i] == D[2][i], "Y[%d] changed", i);
    A.same(M, "the matrix");
    if (!wy) _mm_free(Y);
    _mm_free(X); _mm_free(W);
    Mat::drop(M);
  }
  return done();
}
