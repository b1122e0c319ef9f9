#include "rp.hpp"
#include "Utils.hpp"
using namespace rp;
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    int nt = threads();
    bool bal = flip();
    int n = flip(4) ? rnd(0, 3) : flip(3) ? rnd(0, 3*nt) : flip(5) ? rnd(0, 100000) : rnd(0, 300);
    if (!bal && flip(10)) n = INT_MAX - rnd(64, 4000);
    std::vector<int> p(1, flip() ? 0 : rnd(0, 5));
    if (bal) {
      int mode = rnd(0, 4);
      for (int i = 0; i < n; ++i) {
        int w = mode == 0 ? rnd(0, 3) : mode == 1 ? (flip(10) ? rnd(0, 100) : 0) : mode == 2 ? 0 : mode == 3 ? (i == 0 ? 1000 : rnd(0, 1)) : (i == n - 1 ? 1000 : 1);
        p.push_back(p.back() + w);
      }
      if (flip(20) && n > 1) { int up = INT_MAX - 100 - p[n]; for (int i = rnd(1, n); i <= n; ++i) p[i] += up; }
    }
    add("%s n=%d\n", bal ? "getLoadBalancedPartition" : "getSimpleThreadPartition", n);
    if (bal) addv("prefixSum", &p[0], n + 1);
    ready();
    std::vector<int> b(nt, -7), e(nt, -7);
    int team = 0;
    std::vector<int> q = p;
#pragma omp parallel
    {
      int t = omp_get_thread_num();
#pragma omp master
      team = omp_get_num_threads();
      if (bal) SpMP::getLoadBalancedPartition(&b[t], &e[t], &p[0], n);
      else SpMP::getSimpleThreadPartition(&b[t], &e[t], n);
    }
    nt = team;
    RP_CHECK(q == p, "input array modified");
    for (int t = 0; t < nt; ++t) {
      RP_CHECK(b[t] >= 0 && b[t] <= e[t] && e[t] <= n, "thread %d of %d gets [%d,%d) of %d", t, nt, b[t], e[t], n);
      RP_CHECK(t ? b[t] == e[t - 1] : b[t] == 0, "thread %d of %d starts at %d", t, nt, b[t]);
      if (!bal) RP_CHECK(e[t] - b[t] <= ((long)n + nt - 1)/nt, "thread %d of %d gets [%d,%d) of %d: more than the rounded-up average", t, nt, b[t], e[t], n);
    }
    RP_CHECK(e[nt - 1] == n, "last thread ends at %d of %d", e[nt - 1], n);
  }
  return done();
}
