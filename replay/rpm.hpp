// random matrices for the replay harnesses
#pragma once
#include "rp.hpp"
#include "CSR.hpp"
#include "COO.hpp"
using namespace rp;
using namespace SpMP;

struct Mat {
  int m, n, base, nnz;
  bool hasValues, hasDiagptr, hasIdiag, hasDiag, hasExtptr;
  std::vector<int> rowptr, colidx, diagptr, extptr;
  std::vector<double> values, idiag, diag;
  Mat() : m(0), n(0), base(0), nnz(0), hasValues(true), hasDiagptr(false), hasIdiag(false), hasDiag(false), hasExtptr(false) {}

  // rows of random lengths; cols distinct within a row unless dup
  void random(int m_, int n_, int base_, bool dup = false, bool sorted = false, bool fullDiag = false, int dens = -1) {
    m = m_; n = n_; base = base_;
    rowptr.assign(1, base);
    colidx.clear(); values.clear();
    if (dens < 0) dens = rnd(0, 6);
    int skew = flip(4) ? rnd(0, m) : -1;
    bool emptyRun = flip(4);
    int e0 = rnd(0, m + 1), e1 = rnd(0, m + 1);
    for (int i = 0; i < m; ++i) {
      std::vector<int> c;
      int k = n == 0 ? 0 : i == skew ? n : rnd(0, dens);
      if (emptyRun && i >= e0 && i < e1) k = 0;
      if (dup) for (int q = 0; q < k; ++q) c.push_back(rnd(0, n - 1));
      else {
        std::set<int> s;
        if (k >= n) for (int q = 0; q < n; ++q) s.insert(q);
        else for (int q = 0; q < k; ++q) s.insert(rnd(0, n - 1));
        c.assign(s.begin(), s.end());
        if (fullDiag && i < n && !s.count(i)) c.push_back(i);
        if (!sorted) for (int q = (int)c.size() - 1; q > 0; --q) std::swap(c[q], c[rnd(0, q)]);
      }
      if (sorted) std::sort(c.begin(), c.end());
      for (size_t q = 0; q < c.size(); ++q) { colidx.push_back(c[q] + base); double v = val(); values.push_back(v == 0 && !flip(5) ? 1.5 : v); }
      rowptr.push_back((int)colidx.size() + base);
    }
    nnz = (int)colidx.size();
  }
  // square with structurally (and maybe numerically) symmetric pattern
  void symmetric(int m_, int base_, bool numeric, bool diagAll, int dens = -1) {
    m = n = m_; base = base_;
    std::vector<std::map<int, double> > r(m);
    if (dens < 0) dens = rnd(0, 3);
    for (int i = 0; i < m; ++i) {
      int k = rnd(0, dens);
      for (int q = 0; q < k; ++q) { int c = rnd(0, m - 1); double v = val(); if (v == 0) v = 2; r[i][c] = v; r[c][i] = numeric || c == i ? v : v + 1; }
      if (diagAll) r[i][i] = rnd(1, 9);
    }
    rowptr.assign(1, base); colidx.clear(); values.clear();
    for (int i = 0; i < m; ++i) {
      for (std::map<int, double>::iterator it = r[i].begin(); it != r[i].end(); ++it) { colidx.push_back(it->first + base); values.push_back(it->second); }
      rowptr.push_back((int)colidx.size() + base);
    }
    nnz = (int)colidx.size();
  }
  void shuffleRows() {
    for (int i = 0; i < m; ++i) for (int q = rowptr[i + 1] - base - 1; q > rowptr[i] - base; --q) {
      int z = rnd(rowptr[i] - base, q); std::swap(colidx[q], colidx[z]); std::swap(values[q], values[z]);
    }
  }
  void makeDiag() {
    diagptr.assign(m, base); diag.assign(m, 0); idiag.assign(m, 0);
    for (int i = 0; i < m; ++i) for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j)
      if (colidx[j] - base == i) { diagptr[i] = j + base; diag[i] = values[j]; idiag[i] = 1/values[j]; }
  }
  void makeExt() {
    extptr.resize(m);
    for (int i = 0; i < m; ++i) extptr[i] = rnd(rowptr[i], rowptr[i + 1]);
    hasExtptr = true;
  }
  void show(const char *name = "A") const {
    add("%s: m=%d n=%d base=%d nnz=%d values=%d diagptr=%d idiag=%d diag=%d extptr=%d\n", name, m, n, base, nnz, hasValues, hasDiagptr, hasIdiag, hasDiag, hasExtptr);
    addv("rowptr", &rowptr[0], m + 1);
    if (nnz) addv("colidx", &colidx[0], nnz);
    if (nnz && hasValues) addv("values", &values[0], nnz);
    if (m && hasDiagptr) addv("diagptr", &diagptr[0], m);
    if (m && hasExtptr) addv("extptr", &extptr[0], m);
  }
  template<class T> static T *blk(const std::vector<T> &v, size_t n) {
    T *p = (T *)_mm_malloc(sizeof(T)*n, 64);
    for (size_t i = 0; i < n; ++i) p[i] = v[i];
    return p;
  }
  // a library matrix over exactly sized blocks
  CSR *make() const {
    CSR *A = new CSR(m, n, blk(rowptr, m + 1), blk(colidx, nnz), hasValues ? blk(values, nnz) : NULL);
    if (hasDiagptr) A->diagptr = blk(diagptr, m);
    if (hasIdiag) A->idiag = blk(idiag, m);
    if (hasDiag) A->diag = blk(diag, m);
    if (hasExtptr) A->extptr = blk(extptr, m);
    return A;
  }
  static void drop(CSR *A) {
    _mm_free(A->rowptr); _mm_free(A->colidx); _mm_free(A->values); _mm_free(A->extptr);
    A->extptr = NULL;
    delete A;
  }
  template<class T> static bool eq(const T *p, const std::vector<T> &v, size_t n, T d = 0) {
    for (size_t i = 0; i < n; ++i) if (!(p[i] == v[i] + d)) return false;
    return true;
  }
  // A holds this matrix, shifted by d
  void same(const CSR *A, const char *when, int d = 0) const {
    RP_CHECK(A->m == m && A->n == n, "%s: dimensions %d x %d, expected %d x %d", when, A->m, A->n, m, n);
    RP_CHECK(eq(A->rowptr, rowptr, m + 1, d), "%s: row pointers differ", when);
    RP_CHECK(eq(A->colidx, colidx, nnz, d), "%s: column indices differ", when);
    RP_CHECK(!hasValues == !A->values, "%s: values presence differs", when);
    if (hasValues) RP_CHECK(eq(A->values, values, nnz), "%s: values differ", when);
    RP_CHECK(!hasDiagptr == !A->diagptr, "%s: diagptr presence differs", when);
    if (hasDiagptr) RP_CHECK(eq(A->diagptr, diagptr, m, d), "%s: diagonal positions differ", when);
    RP_CHECK(!hasIdiag == !A->idiag, "%s: idiag presence differs", when);
    if (hasIdiag) RP_CHECK(eq(A->idiag, idiag, m), "%s: inverse diagonals differ", when);
    RP_CHECK(!hasDiag == !A->diag, "%s: diag presence differs", when);
    if (hasDiag) RP_CHECK(eq(A->diag, diag, m), "%s: diagonals differ", when);
    RP_CHECK(!hasExtptr == !A->extptr, "%s: extptr presence differs", when);
    if (hasExtptr) RP_CHECK(eq(A->extptr, extptr, m, d), "%s: external positions differ", when);
  }
};
inline int sz() { return flip(12) ? 0 : flip(3) ? rnd(1, 4) : flip(6) ? rnd(20, 90) : rnd(1, 15); }
