#include "rp.hpp"
#include <sys/resource.h>
#include "Vector.hpp"
#include <immintrin.h>
using namespace SpMP;
using namespace rp;
int main(int c, char **v) {
  init(c, v);
  std::string path = dir + "/v.mtx";
  struct rlimit few = {64, 64};
  setrlimit(RLIMIT_NOFILE, &few);          // files left open show soon
  if (!freopen("/dev/null", "w", stderr)) return 2;
  while (more()) {
    begin();
    int m = rnd(0, 9), n = flip() ? 1 : rnd(1, 5), bad = flip(3) ? rnd(1, 6) : 0, hm = m, hn = n, count = m*n;
    static const char *heads[] = {"array real general", "array integer general", "coordinate real general", "array pattern general", "array real hermitian"};
    int h = flip(4) ? 1 : 0;
    if (bad == 1) hn = -rnd(0, 2);
    if (bad == 2) hm = -rnd(1, 3);
    if (bad == 3) hm = m + rnd(1, 3);                       // numbers are missing
    if (bad == 4) h = rnd(2, 4);
    if (bad == 5 && m) hn = n + rnd(1, 3);
    if (bad == 5 && !m) bad = 0;
    if (bad == 6 && !count) bad = 0;
    std::string text = std::string("%%MatrixMarket matrix ") + heads[h] + "\n";
    if (flip(3)) text += "% a comment\n";
    char buf[256];
    sprintf(buf, "%d %d\n", hm, hn);
    text += buf;
    int broken = bad == 6 ? rnd(0, count - 1) : -1;
    std::vector<double> a;
    for (int i = 0; i < count; ++i) {
      a.push_back(h == 1 ? rnd(-9, 9) : rnd(-99, 99)/8.);
      sprintf(buf, i == broken ? "x\n" : flip(5) ? "%.17g " : "%.17g\n", a[i]);
      text += buf;
    }
    add("file:\n%s\n", text.c_str());
    FILE *f = fopen(path.c_str(), "w");
    RP_CHECK(f, "no more files can be opened: earlier ones are still open");
    fputs(text.c_str(), f);
    fclose(f);
    ready();
    double *x = NULL;
    int M = -7, N = -7;
    bool ok = loadVectorMatrixMarket(path.c_str(), &x, &M, &N);
    RP_CHECK(ok == !bad, bad ? "the file is accepted" : "the file is rejected");
    if (ok) {
      RP_CHECK(M == m && N == n, "%d x %d numbers", M, N);
      for (int i = 0; i < count; ++i) RP_CHECK(x[i] == a[i], "number %d: %g instead of %g", i, x[i], a[i]);
      _mm_free(x);
    }
    unlink(path.c_str());
  }
  return done();
}
