#include "rpm.hpp"
static int endOf(const Mat &A, int i) { return A.hasExtptr ? A.extptr[i] : A.rowptr[i + 1]; }
static bool symRef(const Mat &A, bool chk) {
  if (A.m != A.n && !A.hasExtptr) return false;
  chk = chk && A.hasValues;
  for (int i = 0; i < A.m; ++i) for (int j = A.rowptr[i] - A.base; j < endOf(A, i) - A.base; ++j) {
    int c = A.colidx[j] - A.base;
    if (c == i || c < 0 || c >= A.m) continue;
    bool ok = false;
    for (int k = A.rowptr[c] - A.base; k < endOf(A, c) - A.base; ++k)
      if (A.colidx[k] - A.base == i && (!chk || A.values[k] == A.values[j])) ok = true;
    if (!ok) return false;
  }
  return true;
}
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    threads();
    Mat A;
    int op = rnd(0, 5);
    int m = sz(), base = rnd(0, 1);
    if (flip() || op == 0) {
      if (flip(3)) A.random(m, flip(3) ? sz() : m, base, false);
      else {
        A.symmetric(m, base, !flip(3), flip());
        if (flip()) A.shuffleRows();
        if (flip() && A.nnz) {  // break one entry
          int j = rnd(0, A.nnz - 1);
          if (flip()) A.values[j] += 1;
          else { // move it, keeping columns distinct
            int r = 0; while (A.rowptr[r + 1] - base <= j) ++r;
            int col = flip() ? m - 1 : rnd(0, m - 1); bool used = false;
            for (int k = A.rowptr[r] - base; k < A.rowptr[r + 1] - base; ++k) if (A.colidx[k] == col + base) used = true;
            if (!used) A.colidx[j] = col + base;
          }
        }
      }
    }
    else A.random(m, flip() ? m : sz(), base, op != 3 && flip(3), op == 3 && flip(), flip());
    A.hasValues = !flip(4);
    if (flip(3)) A.makeExt();
    m = A.m;
    A.show();
    CSR *M = NULL;
    if (op == 0) {
      bool chk = flip(), prt = flip(4);
      add("isSymmetric(%d, %d)\n", chk, prt);
      ready();
      M = A.make();
      bool want = symRef(A, chk);
      bool got = M->isSymmetric(chk, prt);
      RP_CHECK(got == want, "isSymmetric: %d, expected %d", got, want);
    }
    else if (op == 1) {
      if (flip() && A.nnz) { // a complete diagonal but one entry
        Mat B; B.random(m, m, base, false, flip(), true);
        if (B.nnz && flip()) { int j = rnd(0, B.nnz - 1); B.values[j] = 0; }
        B.hasValues = A.hasValues; A = B;
        if (flip()) for (int i = m - 1; i < m && i >= 0; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] == i + base) A.values[j] = 0;
        add("instead "); A.show();
      }
      add("hasZeroDiag\n");
      ready();
      M = A.make();
      bool want = false;
      for (int i = 0; i < m; ++i) {
        bool has = false;
        for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] == i + base && (!A.hasValues || A.values[j] != 0)) has = true;
        if (!has) want = true;
      }
      bool got = M->hasZeroDiag();
      RP_CHECK(got == want, "hasZeroDiag: %d, expected %d", got, want);
    }
    else if (op == 2) {
      add("getBandwidth, getMaxDegree\n");
      ready();
      M = A.make();
      int bw = INT_MIN, md = 0;
      for (int i = 0; i < m; ++i) {
        md = std::max(md, A.rowptr[i + 1] - A.rowptr[i]);
        for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) bw = std::max(bw, abs(A.colidx[j] - base - i));
      }
      int g = M->getBandwidth(), h = M->getMaxDegree();
      RP_CHECK(A.nnz == 0 || g == bw, "getBandwidth: %d, expected %d", g, bw);
      RP_CHECK(h == md, "getMaxDegree: %d, expected %d", h, md);
    }
    else if (op == 3) {
      bool sorted = flip();
      if (sorted) for (int i = 0; i < m; ++i) std::sort(A.colidx.begin() + (A.rowptr[i] - base), A.colidx.begin() + (A.rowptr[i + 1] - base));
      add("getAverageWidth(%d), rows sorted when 1\n", sorted);
      ready();
      M = A.make();
      double tot = 0;
      for (int i = 0; i < m; ++i) if (A.rowptr[i] < A.rowptr[i + 1]) {
        std::vector<int>::iterator s = A.colidx.begin() + (A.rowptr[i] - base), e = A.colidx.begin() + (A.rowptr[i + 1] - base);
        tot += *std::max_element(s, e) - *std::min_element(s, e);
      }
      double g = M->getAverageWidth(sorted);
      RP_CHECK(m == 0 || g == tot/m, "getAverageWidth: %g, expected %g", g, tot/m);
    }
    else {
      Mat B = A;
      int k = rnd(0, 7);
      if (k == 0 && B.nnz) B.values[rnd(0, B.nnz - 1)] += 1;
      else if (k == 1 && B.nnz) B.colidx[rnd(0, B.nnz - 1)] += 1, B.n += 1;
      else if (k == 2) B.hasValues = !B.hasValues;
      else if (k == 3 && m > 1 && B.nnz) { int i = rnd(1, m - 1); if (B.rowptr[i] < B.rowptr[i + 1]) B.rowptr[i]++; }
      else if (k == 4) B.n++;
      else if (k == 5) { B.m++; B.rowptr.push_back(B.rowptr[m]); if (flip()) B.n++; }
      else if (k == 6) { B.base = 1 - base; for (int i = 0; i <= m; ++i) B.rowptr[i] += B.base - base; for (int j = 0; j < B.nnz; ++j) B.colidx[j] += B.base - base; }
      if (k == 1 && flip()) A.n++;
      B.hasExtptr = A.hasExtptr = false;
      add("equals\n");
      B.show("B");
      ready();
      M = A.make();
      CSR *N = B.make();
      bool want = A.m == B.m && A.n == B.n && A.base == B.base && A.rowptr == B.rowptr && A.colidx == B.colidx && A.hasValues == B.hasValues && (!A.hasValues || A.values == B.values);
      bool got = M->equals(*N, flip(10)), back = N->equals(*M);
      RP_CHECK(got == want && back == want, "equals: %d and %d, expected %d", got, back, want);
      Mat::drop(N);
    }
    A.same(M, "queried matrix");
    Mat::drop(M);
  }
  return done();
}
