#include "rp.hpp"
#include <sys/resource.h>
#include "COO.hpp"
using namespace SpMP;
using namespace rp;
int main(int c, char **v) {
  init(c, v);
  std::string path = dir + "/m.mtx";
  struct rlimit few = {64, 64};
  setrlimit(RLIMIT_NOFILE, &few);          // files left open show soon
  if (!freopen("/dev/null", "w", stderr)) return 2;
  while (more()) {
    begin();
    static const char *types[] = {"real", "integer", "pattern", "complex"};
    int ty = rnd(0, 3), m = rnd(0, 9), n = flip() ? m : rnd(0, 9), pad = flip() ? 1 : rnd(1, 8);
    bool zero = flip(3), tr = flip(3);
    int nnz = m && n ? rnd(0, 2*(m + n)) : 0;
    std::vector<int> r, s;
    std::vector<double> a;
    int least = 9;
    for (int i = 0; i < nnz; ++i) {
      r.push_back(rnd(1, m) - zero);
      s.push_back(rnd(1, n) - zero);
      a.push_back(ty == 1 ? (flip(9) ? 1e10 : 1)*rnd(-9, 9) : rnd(-99, 99)/8.);
      least = std::min(least, std::min(r[i], s[i]));
    }
    int shift = nnz && least == 0;
    // what is wrong with the file
    int bad = flip(3) ? rnd(1, 8) : 0, hm = m, hn = n, hz = nnz, lines = nnz;
    bool reject = bad != 0;
    if (bad == 1) hz = nnz + rnd(1, 3);                                // lines are missing
    if (bad == 2 && nnz) hz = nnz - rnd(1, nnz);                       // more lines than stated
    if (bad == 3 && nnz) r[rnd(0, nnz - 1)] = m + rnd(1, 3);
    if (bad == 4 && nnz) s[rnd(0, nnz - 1)] = n + rnd(1, 3);
    if (bad == 5 && nnz) (flip() ? r : s)[rnd(0, nnz - 1)] = -rnd(1, 9);
    if (bad == 6) hz = -rnd(1, 3);
    if (bad == 7) (flip() ? hm : hn) = -rnd(1, 3);
    if (bad == 8 && nnz > 1 && shift) r[0] = m, r[1] = s[1] = 0;       // a coordinate of zero and one of m
    if (bad > 1 && bad < 6 && !nnz || bad == 8 && !(nnz > 1 && shift)) bad = 0, reject = false;
    std::string text = std::string("%%MatrixMarket matrix coordinate ") + types[ty] + " general\n";
    if (flip(3)) text += "% a comment\n";
    char buf[256];
    sprintf(buf, "%d %d %d\n", hm, hn, hz);
    text += buf;
    for (int i = 0; i < lines; ++i) {
      sprintf(buf, ty == 2 ? "%d %d\n" : ty == 1 ? "%d %d %.0f\n" : ty == 3 ? "%d %d %.17g 1.5\n" : "%d %d %.17g\n", r[i], s[i], a[i]);
      text += buf;
    }
    add("pad=%d transposed=%d file:\n%s", pad, tr, text.c_str());
    FILE *f = fopen(path.c_str(), "w");
    RP_CHECK(f, "no more files can be opened: earlier ones are still open");
    fputs(text.c_str(), f);
    fclose(f);
    ready();
    COO A;
    if (flip(3)) { A.rowidx = (int *)_mm_malloc(16, 64); A.colidx = (int *)_mm_malloc(16, 64); A.values = (double *)_mm_malloc(16, 64); }
    bool ok = tr ? loadMatrixMarketTransposed(path.c_str(), A, pad) : loadMatrixMarket(path.c_str(), A, false, pad);
    RP_CHECK(ok == !reject, reject ? "the file is accepted" : "the file is rejected");
    if (ok) {
      int M = tr ? n : m, N = tr ? m : n, pm = (M + pad - 1)/pad*pad, pn = (N + pad - 1)/pad*pad;
      int extra = std::min(pm, pn) - std::min(M, N);
      RP_CHECK(A.m == pm && A.n == pn && A.nnz == nnz + extra, "a matrix of %d x %d with %d entries", A.m, A.n, A.nnz);
      for (int i = 0; i < nnz; ++i) {
        int x = (tr ? s : r)[i] + shift, y = (tr ? r : s)[i] + shift;
        RP_CHECK(A.rowidx[i] == x && A.colidx[i] == y && A.values[i] == (ty == 2 ? 1 : a[i]), "entry %d: (%d, %d) %g instead of (%d, %d) %g", i,
                 A.rowidx[i], A.colidx[i], A.values[i], x, y, ty == 2 ? 1 : a[i]);
      }
      for (int i = 0; i < extra; ++i) {
        int x = std::min(M, N) + i + 1;
        RP_CHECK(A.rowidx[nnz + i] == x && A.colidx[nnz + i] == x && A.values[nnz + i] == 1, "padding %d: (%d, %d) %g", i, A.rowidx[nnz + i], A.colidx[nnz + i], A.values[nnz + i]);
      }
    }
    unlink(path.c_str());
  }
  return done();
}
