#include "rp.hpp"
#include "Utils.hpp"
using namespace rp;
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    int nt = threads();
    bool mult = flip();
    int n = mult ? (flip(8) ? 0 : rnd(1, 9)) : 1;
    std::vector<int> in(nt*n + 1);
    for (int i = 0; i < nt*n; ++i) in[i] = flip(6) ? rnd(-100000000, 100000000) : rnd(-5, 50);
    add("%s n=%d\n", mult ? "prefixSumMultiple" : "prefixSum", n);
    addv("in", &in[0], nt*n);
    int rounds = rnd(1, 3);
    ready();
    int *ws = (int *)malloc(sizeof(int)*((nt + 1)*n + (n == 0)));
    for (int i = 0; i < (nt + 1)*n; ++i) ws[i] = -12345;
    std::vector<int> out(in), sum(n + 1, -777);
    std::vector<std::vector<int> > sums(rounds, std::vector<int>(nt*n + 1));
    int team = 0;
#pragma omp parallel
    {
      int t = omp_get_thread_num();
#pragma omp master
      team = omp_get_num_threads();
      for (int r = 0; r < rounds; ++r) {
        int *mine = (int *)malloc(sizeof(int)*(n + (n == 0)));
        for (int i = 0; i < n; ++i) mine[i] = in[t*n + i];
        if (mult) SpMP::prefixSumMultiple(mine, &sum[0], n, ws);
        else SpMP::prefixSum(mine, &sum[0], ws);
        for (int i = 0; i < n; ++i) { out[t*n + i] = mine[i]; sums[r][t*n + i] = sum[i]; }
        free(mine);
#pragma omp barrier
      }
    }
    RP_CHECK(team == nt, "team of %d", team);
    for (int i = 0; i < n; ++i) {
      long s = 0;
      for (int t = 0; t < nt; ++t) {
        RP_CHECK((int)s == out[t*n + i], "thread %d component %d gets %d, expected %ld", t, i, out[t*n + i], s);
        s += in[t*n + i];
      }
      for (int r = 0; r < rounds; ++r) for (int t = 0; t < nt; ++t)
        RP_CHECK(sums[r][t*n + i] == (int)s, "thread %d sees total %d of component %d, expected %ld (round %d)", t, sums[r][t*n + i], i, s, r);
      RP_CHECK(sum[i] == (int)s, "total");
    }
    RP_CHECK(sum[n] == -777, "wrote beyond the sums");
    free(ws);
  }
  return done();
}
