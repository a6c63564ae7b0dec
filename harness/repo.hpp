#pragma once
#include "common.hpp"
#ifndef CPP
#define CPP
#endif
extern "C" {
#include "GTgraph/R-MAT/graph.h"
}
#include <GraphBLAS.h>
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
// plain description of a sparse matrix by rows
struct Mat { i64 rows = 0, cols = 0; std::vector<std::vector<i64>> col; std::vector<std::vector<u64>> val;
  i64 nnz() const { i64 n = 0; for (auto &r : col) n += r.size(); return n; }
  std::string str(const char *nm) const { std::ostringstream o; o << nm << " " << rows << "x" << cols << ":"; for (i64 i = 0; i < rows && i < 200; i++) { o << " {"; for (size_t k = 0; k < col[i].size() && k < 400; k++) o << (k ? " " : "") << col[i][k]; o << "}"; } o << "\n"; return o.str(); } };
struct Gen { bool sorted = true, distinct = true; };
inline Mat randmat(Rng &r, i64 m, i64 n, double dens, const Gen &g, i64 stride = 1) {
  Mat a; a.rows = m; a.cols = n; a.col.resize(m); a.val.resize(m);
  for (i64 i = 0; i < m; i++) {
    if (n == 0 || r.p(0.15)) continue;
    double d = r.p(0.1) ? 1.0 : dens * (0.3 + 1.4 * (r.next() % 1000) / 1000.0);
    i64 want = std::min<i64>(n, (i64)(d * n + 0.5)); if (want > 300) want = r.in(1, 300);
    std::set<i64> s; std::vector<i64> c;
    for (i64 k = 0; k < want * 2 && (i64)c.size() < want; k++) { i64 x = r.in(0, n - 1); if (stride > 1 && r.p(0.85)) x = x / stride * stride; if (g.distinct ? s.insert(x).second : true) c.push_back(x); }
    if (g.sorted) std::sort(c.begin(), c.end());
    a.col[i] = c; for (size_t k = 0; k < c.size(); k++) a.val[i].push_back(r.next() % 97 + 1);
  }
  return a;
}
template<class IT, class NT> void fill(CSR<IT, NT> &C, const Mat &a) {
  C.rows = a.rows; C.cols = a.cols; C.nnz = a.nnz(); C.zerobased = true;
  C.rowptr = my_malloc<IT>(C.rows + 1, false); C.colids = my_malloc<IT>(C.nnz, false); C.values = my_malloc<NT>(C.nnz, false);
  IT p = 0; for (i64 i = 0; i < a.rows; i++) { C.rowptr[i] = p; for (size_t k = 0; k < a.col[i].size(); k++, p++) { C.colids[p] = a.col[i][k]; C.values[p] = a.val[i][k]; } } C.rowptr[a.rows] = p;
}
template<class IT, class NT> void fill(CSC<IT, NT> &C, const Mat &a) { // column-major
  C.rows = a.rows; C.cols = a.cols; C.nnz = a.nnz();
  C.colptr = my_malloc<IT>(C.cols + 1, false); C.rowids = my_malloc<IT>(C.nnz, false); C.values = my_malloc<NT>(C.nnz, false);
  std::vector<std::vector<std::pair<i64, u64>>> t(a.cols); for (i64 i = 0; i < a.rows; i++) for (size_t k = 0; k < a.col[i].size(); k++) t[a.col[i][k]].push_back({i, a.val[i][k]});
  IT p = 0; for (i64 j = 0; j < a.cols; j++) { C.colptr[j] = p; for (auto &e : t[j]) { C.rowids[p] = e.first; C.values[p] = e.second; p++; } } C.colptr[a.cols] = p;
}
template<class IT, class NT> void same(const CSR<IT, NT> &C, const Mat &a, const char *nm) {
  HCHECK(C.rows == (IT)a.rows && C.cols == (IT)a.cols && C.nnz == (IT)a.nnz(), "input " << nm << " was changed (dimensions)");
  IT p = 0; for (i64 i = 0; i < a.rows; i++) { HCHECK(C.rowptr[i] == p, "input " << nm << " was changed"); for (size_t k = 0; k < a.col[i].size(); k++, p++) HCHECK(C.colids[p] == (IT)a.col[i][k] && C.values[p] == (NT)a.val[i][k], "input " << nm << " was changed"); }
}
// oracle: column -> fold of products in the order of A's row entries, B's row entries
template<class Mul, class Add> std::map<i64, u64> rowprod(const Mat &A, const Mat &B, i64 i, Mul m, Add ad) {
  std::map<i64, u64> o;
  for (size_t x = 0; x < A.col[i].size(); x++) { i64 k = A.col[i][x]; for (size_t y = 0; y < B.col[k].size(); y++) { u64 v = m(A.val[i][x], B.val[k][y]); auto it = o.find(B.col[k][y]); if (it == o.end()) o[B.col[k][y]] = v; else it->second = ad(it->second, v); } }
  return o;
}
template<class IT, class NT, class Mul, class Add> void checkC(const CSR<IT, NT> &C, const Mat &A, const Mat &B, const Mat &M, bool compl_, bool maskorder, bool srt, Mul m, Add ad) {
  HCHECK(C.rows == (IT)A.rows, "C.rows=" << C.rows); HCHECK(C.cols == (IT)B.cols, "C.cols=" << C.cols);
  HCHECK(C.rowptr[0] == 0, "first row offset " << C.rowptr[0]);
  HCHECK(C.rowptr[C.rows] == C.nnz, "last row offset " << C.rowptr[C.rows] << " nnz " << C.nnz);
  for (i64 i = 0; i < A.rows; i++) {
    auto o = rowprod(A, B, i, m, ad);
    std::set<i64> mk(M.col[i].begin(), M.col[i].end());
    std::vector<i64> exp;
    if (!compl_) { for (i64 c : M.col[i]) if (o.count(c)) exp.push_back(c); } else for (auto &kv : o) if (!mk.count(kv.first)) exp.push_back(kv.first);
    IT b = C.rowptr[i], e = C.rowptr[i + 1];
    HCHECK(b <= e && e <= C.nnz, "row offsets of row " << i << ": " << b << " " << e);
    HCHECK((size_t)(e - b) == exp.size(), "row " << i << " has " << e - b << " entries, expected " << exp.size());
    std::vector<i64> got; for (IT p = b; p < e; p++) got.push_back(C.colids[p]);
    auto g2 = got; std::sort(g2.begin(), g2.end()); auto e2 = exp; std::sort(e2.begin(), e2.end());
    HCHECK(g2 == e2, "row " << i << " columns " << show(got) << " expected " << show(exp));
    if (maskorder) HCHECK(got == exp, "row " << i << " columns " << show(got) << " not in the mask's order " << show(exp));
    if (srt) HCHECK(std::is_sorted(got.begin(), got.end()), "row " << i << " columns not sorted " << show(got));
    for (IT p = b; p < e; p++) HCHECK(C.values[p] == (NT)o[C.colids[p]], "row " << i << " column " << C.colids[p] << " value " << C.values[p] << " expected " << o[C.colids[p]]);
  }
}
