#include "rpm.hpp"
int main(int c, char **v) {
  init(c, v);
  static const double K[] = {0, 1, -1, 2, 0.5, -3};
  while (more()) {
    begin();
    threads();
    Mat A;
    int m = sz(), n = flip() ? m : sz();
    A.random(m, n, rnd(0, 1), flip(4));
    A.hasValues = !flip(3);
    int which = rnd(0, 5);  // distinct, w==x, w==y, x==y, all, two-argument form
    bool shortForm = which == 5;
    bool wx = which == 1 || which == 4 || (shortForm && flip());
    bool wy = which == 2 || which == 4, xy = which == 3;
    double al = K[rnd(0, 5)], be = K[rnd(0, 5)], ga = K[rnd(0, 5)];
    if (flip(3)) { al = 1; be = 0; ga = 0; } else if (flip(3)) { al = -1; be = 1; ga = 0; }
    if (shortForm) { al = 1; be = 0; ga = 0; }
    A.show();
    int mx = std::max(m, n), lw = wx ? mx : m, lx = wx || xy ? mx : n;
    std::vector<double> w(lw), x(lx), y(m);
    for (int i = 0; i < lw; ++i) w[i] = val();
    for (int i = 0; i < lx; ++i) x[i] = val();
    for (int i = 0; i < m; ++i) y[i] = val();
    if (wx) x = w;
    if (wy || which == 4) for (int i = 0; i < m; ++i) y[i] = w[i];
    if (xy) for (int i = 0; i < m; ++i) y[i] = x[i];
    add("w==x:%d w==y:%d x==y:%d two-argument:%d alpha=%g beta=%g gamma=%g\n", wx, wy, xy, shortForm, al, be, ga);
    if (lx) addv("x", &x[0], lx);
    if (m) addv("y", &y[0], m);
    ready();
    std::vector<double> ex(w);
    for (int i = 0; i < m; ++i) {
      double s = 0;
      for (int j = A.rowptr[i] - A.base; j < A.rowptr[i + 1] - A.base; ++j) s += (A.hasValues ? A.values[j] : 1)*x[A.colidx[j] - A.base];
      ex[i] = al*s + be*y[i] + ga;
    }
    CSR *M = A.make();
    double *W = Mat::blk(w, lw), *X = wx ? W : Mat::blk(x, lx), *Y = wy ? W : xy ? X : Mat::blk(y, m);
    double *Y2 = Y;
    if (shortForm) M->multiplyWithVector(W, X);
    else M->multiplyWithVector(W, al, X, be, Y, ga);
    for (int i = 0; i < m; ++i) RP_CHECK(W[i] == ex[i], "w[%d] = %g, expected %g", i, W[i], ex[i]);
    for (int i = m; i < lw; ++i) RP_CHECK(W[i] == ex[i], "element %d beyond the output changed", i);
    if (!wx) for (int i = 0; i < lx; ++i) RP_CHECK(X[i] == x[i], "source element %d changed", i);
    if (!wy && !xy) for (int i = 0; i < m; ++i) RP_CHECK(Y2[i] == y[i], "addend element %d changed", i);
    A.same(M, "the matrix");
    if (Y != W && Y != X) _mm_free(Y);
    if (X != W) _mm_free(X);
    _mm_free(W);
    Mat::drop(M);
  }
  return done();
}
