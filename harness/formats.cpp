// Matrix containers: copies, conversions, sorting, pattern helpers, bitmap.  One section per property.
#include "repo.hpp"
#define CASE(...) do { std::ostringstream o_; o_ << "seed=" << seed << " " << __VA_ARGS__; setcase(o_.str()); } while (0)
#ifdef H_COPY
// sequences of copies, assignments, emptying and destruction over a few matrices, against plain descriptions of them
inline Mat transposed(const Mat &a) { Mat t; t.rows = a.cols; t.cols = a.rows; t.col.resize(t.rows); t.val.resize(t.rows); for (i64 i = 0; i < a.rows; i++) for (size_t k = 0; k < a.col[i].size(); k++) { t.col[a.col[i][k]].push_back(i); t.val[a.col[i][k]].push_back(a.val[i][k]); } return t; }
template<class IT, class NT> void same(const CSC<IT, NT> &C, const Mat &a, const char *nm) { // a: as filled
  HCHECK(C.rows == (IT)a.rows && C.cols == (IT)a.cols && C.nnz == (IT)a.nnz(), nm << " has other dimensions: " << C.rows << "x" << C.cols << " nnz " << C.nnz << ", expected " << a.rows << "x" << a.cols << " nnz " << a.nnz());
  if (!a.cols) return; Mat t = transposed(a); IT p = 0;
  for (i64 j = 0; j < a.cols; j++) { HCHECK(C.colptr[j] == p, nm << ": column offset " << j); for (size_t k = 0; k < t.col[j].size(); k++, p++) HCHECK(C.rowids[p] == (IT)t.col[j][k] && C.values[p] == (NT)t.val[j][k], nm << ": entry " << p); }
  HCHECK(C.colptr[a.cols] == p, nm << ": last column offset");
}
template<class IT, class NT> void same2(const CSR<IT, NT> &C, const Mat &a, const char *nm) {
  HCHECK(C.rows == (IT)a.rows && C.cols == (IT)a.cols && C.nnz == (IT)a.nnz(), nm << " has other dimensions: " << C.rows << "x" << C.cols << " nnz " << C.nnz << ", expected " << a.rows << "x" << a.cols << " nnz " << a.nnz());
  if (!a.rows) return; IT p = 0;
  for (i64 j = 0; j < a.rows; j++) { HCHECK(C.rowptr[j] == p, nm << ": row offset " << j); for (size_t k = 0; k < a.col[j].size(); k++, p++) HCHECK(C.colids[p] == (IT)a.col[j][k] && C.values[p] == (NT)a.val[j][k], nm << ": entry " << p); }
  HCHECK(C.rowptr[a.rows] == p, nm << ": last row offset");
}
template<class IT, class NT> void same2(const CSC<IT, NT> &C, const Mat &a, const char *nm) { same(C, a, nm); }
template<class IT, class NT> void poke(CSR<IT, NT> &C, Mat &m) { if (!C.nnz) return; i64 i = 0; while (m.col[i].empty()) i++; C.values[0] = 1234; m.val[i][0] = 1234; if (m.cols == 0) return; }
template<class IT, class NT> void poke(CSC<IT, NT> &C, Mat &m) { if (!C.nnz) return; i64 i = C.rowids[0]; i64 j = 0; while (C.colptr[j + 1] == 0) j++; for (size_t k = 0; k < m.col[i].size(); k++) if (m.col[i][k] == j) { m.val[i][k] = 4321; C.values[0] = 4321; break; } }
template<class M> void copies(u64 seed, Rng &r) {
  omp_set_num_threads(r.p(.8) ? 1 : 3); const int N = 5; std::vector<M *> o(N, nullptr); std::vector<Mat> m(N); std::ostringstream h; int ops = r.in(4, 25); bool big = false;
  for (int k = 0; k < ops; k++) {
    int i = r.in(0, N - 1), j = r.in(0, N - 1), w = r.in(0, 9);
    if (!o[i]) { h << " m" << i << "=new"; if (r.p(.25) || !o[j] || i == j) { o[i] = new M(); m[i] = Mat(); if (r.p(.85)) { Mat x = randmat(r, r.p(.2) ? 0 : r.in(0, 7), r.p(.2) ? 0 : r.in(0, 7), r.p(.2) ? 0 : .4, Gen()); if (!(x.rows + x.cols)) x = Mat(); else fill(*o[i], x); m[i] = x; h << "(" << x.rows << "x" << x.cols << " nnz " << x.nnz() << ")"; if (x.nnz() > 1) big = true; } else h << "()"; }
      else { h << "(m" << j << ")"; CASE(h.str()); o[i] = new M(*o[j]); m[i] = m[j]; } }
    else if (w < 5 && o[j]) { h << " m" << i << "=m" << j; CASE(h.str()); M &res = (*o[i] = *o[j]); HCHECK(&res == o[i], "assignment returns another object"); m[i] = m[j]; }
    else if (w < 6) { h << " m" << i << ".make_empty"; CASE(h.str()); o[i]->make_empty(); m[i] = Mat(); HCHECK(o[i]->nnz == 0 && o[i]->isEmpty(), "make_empty leaves entries"); HCHECK(o[i]->rows == 0 && o[i]->cols == 0, "make_empty leaves dimensions"); }
    else if (w < 8) { h << " delete m" << i; CASE(h.str()); delete o[i]; o[i] = nullptr; }
    else { h << " write m" << i; CASE(h.str()); poke(*o[i], m[i]); }
    CASE(h.str());
    for (int x = 0; x < N; x++) if (o[x]) same2(*o[x], m[x], ("m" + std::to_string(x)).c_str());
  }
  for (auto p : o) delete p; if (big) ++*g_nontriv;
}
int main(int c, char **v) { return drive(c, v, [](u64 seed, Rng &r) { switch (r.in(0, 3)) { case 0: copies<CSR<int, double>>(seed, r); break; case 1: copies<CSR<i64, u64>>(seed, r); break; case 2: copies<CSC<int, double>>(seed, r); break; default: copies<CSC<i64, u64>>(seed, r); } }); }
#endif
#ifdef H_BITMAP
// random histories of set/get/next/copy on bitmaps, against std::set
inline void chk(BitMap &b, const std::set<u64> &s, u64 lo, u64 hi, Rng &r, const char *nm) {
  for (u64 p = lo; p < hi; p++) HCHECK(b.get_bit(p) == (bool)s.count(p), nm << ".get_bit(" << p << ")");
  for (u64 p = lo; p < hi; p++) { auto it = s.upper_bound(p); long e = it == s.end() ? -1 : (long)*it; long g = b.get_next_bit(p); HCHECK(g == e, nm << ".get_next_bit(" << p << ") is " << g << ", expected " << e); }
}
inline void bitmaps(u64 seed, Rng &r) {
  std::ostringstream h; bool huge = r.p(.02);
  if (huge) { u64 size = (1ull << 32) + r.in(65, 4000), lo = (1ull << 32) - 128, words = (size + 63) / 64; h << "size " << size; CASE(h.str()); BitMap b(size); for (u64 w = lo / 64; w < words; w++) b.data()[w] = 0; std::set<u64> s;
    for (int k = r.in(0, 6); k--;) { u64 p = r.in(lo, size - 1); h << " set(" << p << ")"; CASE(h.str()); b.set_bit(p); s.insert(p); }
    for (u64 p = lo; p < size; p += r.in(1, 40)) { auto it = s.upper_bound(p); long e = it == s.end() ? -1 : (long)*it; long g = b.get_next_bit(p); HCHECK(g == e, "get_next_bit(" << p << ") is " << g << ", expected " << e); HCHECK(b.get_bit(p) == (bool)s.count(p), "get_bit(" << p << ")"); }
    ++*g_nontriv; return; }
  const int N = 3; std::vector<BitMap *> b(N, nullptr); std::vector<std::set<u64>> s(N); std::vector<u64> n(N, 0); bool nt = false;
  for (int k = r.in(3, 25); k--;) {
    int i = r.in(0, N - 1), j = r.in(0, N - 1), w = r.in(0, 11);
    if (!b[i]) { if (b[j] && r.p(.5)) { h << " b" << i << "=new(b" << j << ")"; CASE(h.str()); b[i] = new BitMap(*b[j]); s[i] = s[j]; n[i] = n[j]; } else if (r.p(.2)) { h << " b" << i << "=new()"; CASE(h.str()); b[i] = new BitMap(); s[i].clear(); n[i] = 0; } else { n[i] = r.p(.3) ? 64 * r.in(1, 5) : r.in(1, 400); h << " b" << i << "=new(" << n[i] << ")"; CASE(h.str()); b[i] = new BitMap(n[i]); b[i]->reset(); s[i].clear(); } }
    else if (w < 6) { if (n[i]) { u64 p = r.p(.3) ? std::min<u64>(n[i] - 1, 64 * r.in(0, 6) + r.pick({0, 1, 63, 62})) : r.in(0, n[i] - 1); h << " b" << i << ".set(" << p << ")"; CASE(h.str()); if (r.p(.3)) b[i]->set_bit_atomic(p); else b[i]->set_bit(p); s[i].insert(p); } }
    else if (w < 8 && b[j]) { h << " b" << i << "=b" << j; CASE(h.str()); BitMap &x = (*b[i] = *b[j]); HCHECK(&x == b[i], "assignment returns another object"); s[i] = s[j]; n[i] = n[j]; }
    else if (w < 9) { h << " b" << i << ".reset"; CASE(h.str()); b[i]->reset(); s[i].clear(); }
    else if (w < 10 && b[j] && n[i] == n[j]) { h << " b" << i << ".copy_from(b" << j << ")"; CASE(h.str()); b[i]->copy_from(b[j]); s[i] = s[j]; }
    else { h << " delete b" << i; CASE(h.str()); delete b[i]; b[i] = nullptr; }
    for (int x = 0; x < N; x++) if (b[x]) { chk(*b[x], s[x], 0, n[x], r, ("b" + std::to_string(x)).c_str()); if (s[x].size() > 1) nt = true; }
  }
  for (auto p : b) delete p; if (nt) ++*g_nontriv;
}
int main(int c, char **v) { return drive(c, v, bitmaps); }
#endif
#ifdef H_CONV
// CSC -> CSR, CSR <-> CSC transposition, CSC from triples, tuples, arrays, edges; against the list of entries
#include "util/transpose.h"
struct Ent { i64 i, j; u64 v; bool operator<(const Ent &o) const { return std::tie(i, j, v) < std::tie(o.i, o.j, o.v); } bool operator==(const Ent &o) const { return i == o.i && j == o.j && v == o.v; } };
template<class IT> void offsetsok(const IT *p, i64 n, i64 nnz, const char *nm) { HCHECK(p[0] == 0, nm << ": first offset"); for (i64 i = 0; i < n; i++) HCHECK(p[i] <= p[i + 1], nm << ": offset " << i + 1 << " smaller than its predecessor"); HCHECK(p[n] == (IT)nnz, nm << ": last offset is " << p[n] << ", expected " << nnz); }
template<class IT, class NT> void entries(const IT *p, const IT *ix, const NT *val, i64 n, i64 other, bool sorted, bool csc, std::vector<Ent> e, const char *nm) {
  i64 nnz = e.size(); offsetsok(p, n, nnz, nm); std::vector<Ent> g;
  for (i64 i = 0; i < n; i++) for (IT x = p[i]; x < p[i + 1]; x++) { HCHECK((i64)ix[x] >= 0 && (i64)ix[x] < other, nm << ": index " << ix[x] << " out of range"); if (sorted && x > p[i]) HCHECK(ix[x - 1] <= ix[x], nm << ": line " << i << " is not sorted"); g.push_back(csc ? Ent{(i64)ix[x], i, (u64)val[x]} : Ent{i, (i64)ix[x], (u64)val[x]}); }
  std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); for (i64 k = 0; k < nnz; k++) HCHECK(g[k] == e[k], nm << ": entries differ, has (" << g[k].i << "," << g[k].j << "," << g[k].v << ") where (" << e[k].i << "," << e[k].j << "," << e[k].v << ") is expected");
}
template<class IT, class NT> void convs(u64 seed, Rng &r) {
  std::cout.setstate(std::ios::failbit); omp_set_num_threads(r.pick({1, 1, 2, 3, 5})); i64 m = r.p(.1) ? 0 : r.in(1, 9), n = r.p(.1) ? 0 : r.in(1, 9); if (r.p(.1)) m = r.in(10, 60), n = r.in(10, 60);
  i64 nz = m && n && !r.p(.1) ? r.in(0, r.p(.5) ? 5 : 2 * (m + n)) : 0; std::vector<Ent> e; bool dup = r.p(.4); std::set<std::pair<i64, i64>> seen; i64 ci = r.in(0, 8);
  for (i64 k = 0; k < nz; k++) { i64 i = r.in(0, m - 1), j = r.in(0, n - 1); if (r.p(.3)) j = std::min(n - 1, ci); if (r.p(.2)) i = m - 1; if (dup || seen.insert({i, j}).second) e.push_back({i, j, (u64)r.in(1, 1000)}); } nz = e.size();
  std::ostringstream d; d << m << "x" << n << " entries"; for (auto &x : e) d << " (" << x.i << "," << x.j << "," << x.v << ")"; if (nz > 1) ++*g_nontriv; int w = r.in(0, 6);
  const char *kind[] = {"CSR(CSC)", "CSR(CSC,bool)", "csr2csc", "CSC(triples)", "CSC(tuples)", "CSC(arrays)", "CSC(edges)"}; CASE("threads=" << omp_get_max_threads() << " " << kind[w] << " " << d.str());
  if (w < 2) { // a CSC with the entries of each column in the order given
    CSC<IT, NT> *c = new CSC<IT, NT>(); CSC<IT, NT> &S = *c; S.rows = m; S.cols = n; S.nnz = nz; S.colptr = my_malloc<IT>(n + 1); S.rowids = my_malloc<IT>(nz); S.values = my_malloc<NT>(nz); IT p = 0;
    for (i64 j = 0; j < n; j++) { S.colptr[j] = p; for (auto &x : e) if (x.j == j) { S.rowids[p] = x.i; S.values[p] = x.v; p++; } } S.colptr[n] = p; CSC<IT, NT> keep(S); bool tr = w == 1 && r.p(.5); 
    if (w == 0) { CSR<IT, NT> R(S); HCHECK(R.rows == (IT)m && R.cols == (IT)n && R.nnz == (IT)nz && R.zerobased, kind[w] << ": other dimensions"); entries(R.rowptr, R.colids, R.values, m, n, true, false, e, kind[w]); if (nz) HCHECK(R.rowptr != S.colptr && R.colids != S.rowids && R.values != S.values, "storage is shared with the source"); }
    else { CSR<IT, NT> R(S, tr); HCHECK(R.rows == (IT)(tr ? n : m) && R.cols == (IT)(tr ? m : n) && R.nnz == (IT)nz && R.zerobased, kind[w] << ": other dimensions"); std::vector<Ent> t = e; if (tr) for (auto &x : t) std::swap(x.i, x.j); entries(R.rowptr, R.colids, R.values, tr ? n : m, tr ? m : n, !tr, false, t, kind[w]); if (nz) HCHECK(R.rowptr != S.colptr && R.colids != S.rowids && R.values != S.values, "storage is shared with the source"); }
    HCHECK(S.rows == (IT)m && S.cols == (IT)n && S.nnz == (IT)nz, "the source was changed"); for (i64 j = 0; n && j <= n; j++) HCHECK(S.colptr[j] == keep.colptr[j], "the source was changed"); for (i64 k = 0; k < nz; k++) HCHECK(S.rowids[k] == keep.rowids[k] && S.values[k] == keep.values[k], "the source was changed"); delete c; return; }
  if (w == 2) { std::vector<IT> p(m + 1), c(nz), q(n + 1, 77), o(nz, 77); std::vector<NT> v(nz), u(nz, 77); IT k = 0; for (i64 i = 0; i < m; i++) { p[i] = k; for (auto &x : e) if (x.i == i) { c[k] = x.j; v[k] = x.v; k++; } } p[m] = k; auto p0 = p; auto c0 = c; auto v0 = v;
    csr2csc_atomic_nosort<IT, NT>(m, n, nz, p.data(), c.data(), v.data(), q.data(), o.data(), u.data()); entries(q.data(), o.data(), u.data(), n, m, false, true, e, kind[w]); HCHECK(p == p0 && c == c0 && v == v0, "the source was changed"); return; }
  if (w == 5 && (!nz || !m)) return;
  CSC<IT, NT> *C = nullptr;
  if (w == 3) { std::vector<Triple<IT, NT>> t; for (auto &x : e) t.push_back(Triple<IT, NT>(x.i, x.j, x.v)); C = new CSC<IT, NT>(t.data(), (IT)nz, (IT)m, (IT)n); }
  if (w == 4) { std::vector<std::tuple<IT, IT, NT>> t; for (auto &x : e) t.push_back(std::make_tuple((IT)x.i, (IT)x.j, (NT)x.v)); C = new CSC<IT, NT>(t, (IT)m, (IT)n, CAdd()); }
  if (w == 5) { std::vector<IT> a, b; std::vector<NT> v; for (auto &x : e) { a.push_back(x.i); b.push_back(x.j); v.push_back(x.v); } C = new CSC<IT, NT>(a.data(), b.data(), v.data(), (IT)nz, (IT)m, (IT)n); }
  if (w == 6) { std::vector<std::pair<int64_t, int64_t>> t; for (auto &x : e) { t.push_back({x.i, x.j}); x.v = 1; } C = new CSC<IT, NT>(t, (IT)nz, (IT)m, (IT)n); }
  HCHECK(C->rows == (IT)m && C->cols == (IT)n && C->nnz == (IT)nz, kind[w] << ": other dimensions"); entries(C->colptr, C->rowids, C->values, n, m, true, true, e, kind[w]); delete C;
}
int main(int c, char **v) { return drive(c, v, [](u64 seed, Rng &r) { if (r.p(.5)) convs<int, double>(seed, r); else convs<i64, u64>(seed, r); }); }
#endif
#ifdef H_SORT
// merge sort of keys with values, sorting the rows of a matrix, and the report whether its lines are ordered
template<class IT> void sorts(u64 seed, Rng &r) {
  omp_set_num_threads(r.pick({1, 1, 2, 3, 5})); int w = std::is_same<IT, int>::value ? r.in(0, 3) : r.in(1, 3); std::ostringstream d;
  if constexpr (std::is_same<IT, int>::value) if (w == 0) { i64 n = r.p(.1) ? 0 : r.p(.2) ? r.in(20, 200) : r.in(1, 12); i64 span = r.p(.5) ? r.in(1, 6) : 1000, lo = r.p(.3) ? -span / 2 : 0; std::vector<IT> k(n); std::vector<double> v(n); for (i64 i = 0; i < n; i++) { k[i] = lo + r.in(0, span); v[i] = i + 1; d << " " << k[i]; }
    CASE("cpu_sorting_key_value, keys" << d.str()); if (n > 1) ++*g_nontriv; auto k0 = k; cpu_sorting_key_value<IT, double>(k.data(), v.data(), (IT)n); std::vector<char> seen(n, 0);
    for (i64 i = 0; i < n; i++) { if (i) HCHECK(k[i - 1] <= k[i], "key " << i << " is smaller than its predecessor"); i64 s = (i64)v[i] - 1; HCHECK(s >= 0 && s < n && !seen[s], "value " << v[i] << " at " << i << " is lost or duplicated"); seen[s] = 1; HCHECK(k0[s] == k[i], "the value of key " << k0[s] << " is now at key " << k[i]); } return; }
  i64 m = r.p(.1) ? 0 : r.in(1, 8); std::vector<IT> p(m + 1, 0), c; std::vector<double> v; bool ord = r.p(.5); i64 span = r.p(.5) ? 4 : 50;
  for (i64 i = 0; i < m; i++) { int L = r.p(.3) ? 0 : r.in(1, r.p(.1) ? 40 : 6); std::vector<IT> t; for (int q = 0; q < L; q++) t.push_back(r.in(0, span)); if (ord) { std::sort(t.begin(), t.end()); if (L > 1 && r.p(.15)) { int q = r.in(0, L - 2); std::swap(t[q], t[q + 1]); } } d << " ["; for (IT x : t) { d << " " << x; c.push_back(x); v.push_back(v.size() + 1); } d << " ]"; p[i + 1] = c.size(); }
  i64 nz = c.size(); if (nz > 1) ++*g_nontriv; CASE((w == 1 ? "CSR::sortIds" : w == 2 ? "CSR::Sorted" : "CSC::Sorted") << " threads=" << omp_get_max_threads() << d.str());
  auto fill = [&](IT *&a, IT *&b, double *&x) { a = my_malloc<IT>(m + 1); b = my_malloc<IT>(nz); x = my_malloc<double>(nz); for (i64 i = 0; i <= m; i++) a[i] = p[i]; for (i64 i = 0; i < nz; i++) b[i] = c[i], x[i] = v[i]; };
  if (w == 1) { CSR<IT, double> A; A.rows = m; A.cols = span + 1; A.nnz = nz; fill(A.rowptr, A.colids, A.values); A.sortIds(); HCHECK(A.rows == (IT)m && A.nnz == (IT)nz, "dimensions changed"); std::vector<char> seen(nz, 0);
    for (i64 i = 0; i <= m; i++) HCHECK(A.rowptr[i] == p[i], "row offset " << i << " changed");
    for (i64 i = 0; i < m; i++) for (IT x = p[i]; x < p[i + 1]; x++) { if (x > p[i]) HCHECK(A.colids[x - 1] <= A.colids[x], "row " << i << " is not ordered"); i64 s = (i64)A.values[x] - 1; HCHECK(s >= p[i] && s < p[i + 1] && !seen[s], "value " << A.values[x] << " is lost, duplicated or in another row"); seen[s] = 1; HCHECK(c[s] == A.colids[x], "value " << A.values[x] << " belongs to column " << c[s] << ", is at " << A.colids[x]); }
    return; }
  bool want = true; for (i64 i = 0; i < m; i++) for (IT x = p[i] + 1; x < p[i + 1]; x++) if (c[x] < c[x - 1]) want = false;
  std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf());
  if (w == 2) { CSR<IT, double> A; A.rows = m; A.cols = span + 1; A.nnz = nz; fill(A.rowptr, A.colids, A.values); A.Sorted(); } else { CSC<IT, double> A; A.cols = m; A.rows = span + 1; A.nnz = nz; fill(A.colptr, A.rowids, A.values); A.Sorted(); }
  std::cout.rdbuf(old); std::string s = o.str(); while (s.size() && isspace((unsigned char)s.back())) s.pop_back();
  HCHECK(s.size() && s.back() == (want ? '1' : '0'), "reports \"" << s << "\", ordered is " << want);
}
int main(int c, char **v) { return drive(c, v, [](u64 seed, Rng &r) { if (r.p(.5)) sorts<int>(seed, r); else sorts<i64>(seed, r); }); }
#endif
