// small stand-alone helpers for the demonstrations
#include <bits/stdc++.h>
#include <omp.h>
#include <unistd.h>
#ifndef CPP
#define CPP
#endif
extern "C" {
#include "GTgraph/R-MAT/graph.h"
}
#include <GraphBLAS.h>
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
typedef std::vector<std::vector<std::pair<long, long>>> Rows; // per row: (column, value)
inline void mk(CSR<long, long> &C, long cols, const Rows &r) {
  C.rows = r.size(); C.cols = cols; C.nnz = 0; for (auto &x : r) C.nnz += x.size();
  C.rowptr = my_malloc<long>(C.rows + 1, false); C.colids = my_malloc<long>(C.nnz, false); C.values = my_malloc<long>(C.nnz, false);
  long p = 0; for (size_t i = 0; i < r.size(); i++) { C.rowptr[i] = p; for (auto &e : r[i]) { C.colids[p] = e.first; C.values[p++] = e.second; } } C.rowptr[C.rows] = p;
}
inline void mkc(CSC<long, long> &C, long cols, const Rows &r) { // from rows
  C.rows = r.size(); C.cols = cols; C.nnz = 0; for (auto &x : r) C.nnz += x.size();
  C.colptr = my_malloc<long>(cols + 1, false); C.rowids = my_malloc<long>(C.nnz, false); C.values = my_malloc<long>(C.nnz, false);
  long p = 0; for (long c = 0; c < cols; c++) { C.colptr[c] = p; for (size_t i = 0; i < r.size(); i++) for (auto &e : r[i]) if (e.first == c) { C.rowids[p] = i; C.values[p++] = e.second; } } C.colptr[cols] = p;
}
inline Rows rnd(std::mt19937 &g, long m, long n, int pct, bool srt = true) {
  Rows r(m); for (auto &x : r) { for (long c = 0; c < n; c++) if ((long)(g() % 100) < pct) x.push_back({c, (long)(g() % 9 + 1)}); if (!srt) std::shuffle(x.begin(), x.end(), g); } return r;
}
template<class Mul, class Add> inline std::map<long, long> oracle(const Rows &A, const Rows &B, const Rows &M, size_t i, bool compl_, Mul mul, Add add) {
  std::map<long, long> o; std::set<long> mk; for (auto &e : M[i]) mk.insert(e.first);
  for (auto &a : A[i]) for (auto &b : B[a.first]) { if ((mk.count(b.first) != 0) == compl_) continue; long v = mul(a.second, b.second); auto it = o.find(b.first); if (it == o.end()) o[b.first] = v; else it->second = add(it->second, v); }
  return o;
}
#define FAILIF(c) do { if (c) { printf("FAIL line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
template<class Mul, class Add> inline void check(CSR<long, long> &C, const Rows &A, const Rows &B, const Rows &M, bool compl_, bool srt, Mul mul, Add add) {
  FAILIF(C.rows != (long)A.size()); FAILIF(C.rowptr[0] != 0);
  for (size_t i = 0; i < A.size(); i++) {
    auto o = oracle(A, B, M, i, compl_, mul, add);
    FAILIF(C.rowptr[i + 1] - C.rowptr[i] != (long)o.size());
    std::set<long> seen; long prev = -1;
    for (long p = C.rowptr[i]; p < C.rowptr[i + 1]; p++) {
      FAILIF(!o.count(C.colids[p])); FAILIF(!seen.insert(C.colids[p]).second); FAILIF(C.values[p] != o[C.colids[p]]);
      FAILIF(srt && C.colids[p] <= prev); prev = C.colids[p];
    }
  }
  FAILIF(C.rowptr[C.rows] != C.nnz);
}
