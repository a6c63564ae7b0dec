// The drivers of spgemm-blocks (MaskedSpGEMM1p / 2p, row-major and inner-product): shape, offsets, content per row,
// independence from the number of threads, unchanged operands, output that is one of the operands.
#include "repo.hpp"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include <thread>
static u64 g_salt; static int g_slow; static std::atomic<int> g_bad; static char g_msg[400];
static void lag(int kind) { if (!g_slow) return; int t = omp_get_thread_num(); u64 h = mix(g_salt * 131 + t * 7 + kind); if ((h & 3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(h % 97 * g_slow)); }
#define ROWCHECK(c, ...) do { if (!(c)) { if (!g_bad.exchange(1)) snprintf(g_msg, sizeof g_msg, __VA_ARGS__); } } while (0)
// what the made-up row algorithm yields for row r, at most `most` entries
static i64 syncount(i64 r, i64 most) { return most <= 0 ? 0 : (i64)(mix(g_salt + r * 3) % (u64)(most + 1)); }
static i64 syncol(i64 r, i64 k) { return (i64)(mix(g_salt + r * 11 + k * 5) % 100000); }
static u64 synval(i64 r, i64 k) { return mix(g_salt + r * 13 + k * 17); }
template<class IT, class NT> static i64 rowflops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT r) { i64 f = 0; for (IT j = A.rowptr[r]; j < A.rowptr[r + 1]; j++) f += B.rowptr[A.colids[j] + 1] - B.rowptr[A.colids[j]]; return f; }
static std::vector<i64> g_bound;   // per row: the most entries a row algorithm may yield
template<class IT> struct SynAcc {
  IT n, mA, mM, mF; std::byte *buf = nullptr; size_t size = 0;
  void setBuffer(std::byte *b, size_t s, size_t dirty) { ROWCHECK(!buf, "setBuffer on an accumulator that holds a buffer"); ROWCHECK((size_t)b % 64 == 0, "scratch buffer is not aligned as asked"); ROWCHECK(s >= 8 + 2 * (size_t)mF, "scratch buffer smaller than asked"); ROWCHECK(dirty <= s, "dirty part larger than the buffer");
    if (dirty < s) for (size_t i = dirty; i < s; i++) ROWCHECK(b[i] == std::byte(0xAB), "scratch memory declared clean is not");
    buf = b; size = s; memset(b, 0xCD, s); }
  size_t releaseBuffer() { ROWCHECK(buf, "releaseBuffer without a buffer"); memset(buf, 0xAB, size); buf = nullptr; return 0; }
};
template<class IT, class NT, bool Compl, bool SA, bool SM, bool SF> struct Syn {
  inline const static bool COMPLEMENTED = Compl, CALC_MAX_ROW_SIZE_A = SA, CALC_MAX_ROW_SIZE_M = SM, CALC_MAX_ROW_FLOPS = SF;
  SynAcc<IT> s, n; IT nc;
  Syn(IT cols, IT a, IT m, IT f) : s{cols, a, m, f}, n{cols, a, m, f}, nc(cols) {}
  std::tuple<size_t, size_t> getMemoryRequirement() { return {8 + 2 * (size_t)n.mF, 64}; }
  auto &getSymbolicAccumulator() { return s; }
  auto &getNumericAccumulator() { return n; }
  void pre(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT row, IT flops, SynAcc<IT> &x, SynAcc<IT> &y, bool numeric2) {
    lag(row);
    ROWCHECK(x.buf && !y.buf, "row computed without its buffer");
    ROWCHECK(nc == B.cols, "row algorithm built for %lld columns", (long long)nc);
    ROWCHECK(row >= 0 && row < A.rows, "row %lld does not exist", (long long)row);
    if (SA) ROWCHECK(A.rowptr[row + 1] - A.rowptr[row] <= x.mA, "row %lld of A is longer than announced", (long long)row);
    if (SM) ROWCHECK(M.rowptr[row + 1] - M.rowptr[row] <= x.mM, "row %lld of M is longer than announced", (long long)row);
    if (SF) ROWCHECK(flops <= x.mF, "row %lld needs more work than announced", (long long)row);
    ROWCHECK(flops >= 1, "row %lld without work is computed", (long long)row);
    if (numeric2) ROWCHECK(flops >= syncount(row, g_bound[row]), "row %lld: size passed to the second phase is too small", (long long)row);
    else ROWCHECK(flops >= rowflops(A, B, row), "row %lld: work estimate is too small", (long long)row);
  }
  void symbolicRow(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT row, IT *rowNvals, IT flops) { two = true; pre(A, B, M, row, flops, s, n, false); rowNvals[row] = syncount(row, g_bound[row]); }
  bool two = false;
  template<class Mu, class Ad> void numericRow(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, Mu, Ad, IT row, IT *&c, NT *&v, IT flops) {
    pre(A, B, M, row, flops, n, s, two);
    for (i64 k = 0, e = syncount(row, g_bound[row]); k < e; k++) { *c++ = syncol(row, k); *v++ = synval(row, k); }
  }
};
template<class IT, class NT> using SynP = Syn<IT, NT, false, true, true, true>;
template<class IT, class NT> using SynC = Syn<IT, NT, true, true, true, true>;
template<class IT, class NT> using SynP0 = Syn<IT, NT, false, false, true, true>;
template<class IT, class NT> using SynCF = Syn<IT, NT, true, false, false, true>;
struct LMul { u64 operator()(u64 a, u64 b) const { lag((int)(a + b)); return HMul()(a, b); } };
template<class IT> struct Arr { IT rows, cols, nnz; std::vector<IT> p, c; std::vector<u64> v; };
template<class IT> Arr<IT> take(const CSR<IT, u64> &C) { Arr<IT> a{C.rows, C.cols, C.nnz}; a.p.assign(C.rowptr, C.rowptr + C.rows + 1); a.c.assign(C.colids, C.colids + C.nnz); a.v.assign(C.values, C.values + C.nnz); return a; }
template<class IT> void checksyn(const CSR<IT, u64> &C, i64 rows, i64 cols) {
  HCHECK(!g_bad, g_msg);
  HCHECK(C.rows == (IT)rows && C.cols == (IT)cols, "shape " << C.rows << "x" << C.cols);
  HCHECK(C.rowptr[0] == 0, "first row offset " << C.rowptr[0]);
  IT p = 0;
  for (i64 r = 0; r < rows; r++) { HCHECK(C.rowptr[r] == p, "row offset " << r << " is " << C.rowptr[r] << ", expected " << p); p += syncount(r, g_bound[r]); }
  HCHECK(C.rowptr[rows] == p && C.nnz == p, "last offset " << C.rowptr[rows] << ", nnz " << C.nnz << ", expected " << p);
  for (i64 r = 0; r < rows; r++) for (IT x = C.rowptr[r]; x < C.rowptr[r + 1]; x++) HCHECK(C.colids[x] == (IT)syncol(r, x - C.rowptr[r]) && C.values[x] == synval(r, x - C.rowptr[r]), "entry " << x - C.rowptr[r] << " of row " << r << " is not what the row algorithm yielded");
}
template<class IT> struct Ops { Mat A, B, M; };
template<class IT> Ops<IT> ops(Rng &r, bool square) {
  Ops<IT> o; i64 m = r.in(0, 14), k = r.in(0, 12), n = r.in(0, 14); if (r.p(.1)) m = r.in(1, 60); if (r.p(.1)) n = r.in(1, 300);
  if (square) m = k = n = r.in(1, 20);
  Gen g{true, true}; double d = r.pick({0.05, 0.2, 0.5, 1.0});
  o.A = randmat(r, m, k, d, g); o.B = randmat(r, k, n, d, g); o.M = randmat(r, m, n, r.pick({0.1, 0.4, 1.0}), g);
  if (r.p(.2) && m > 2) for (i64 i = r.in(0, m - 1); i < m; i++) { o.A.col[i].clear(); o.A.val[i].clear(); }       // the last rows need no work
  if (r.p(.2) && m > 2) for (i64 i = 0, e = r.in(0, m - 1); i < e; i++) { o.A.col[i].clear(); o.A.val[i].clear(); } // nor the first
  if (square) o.B = o.M = o.A;
  return o;
}
template<class IT> void setbound(const Ops<IT> &o, bool compl_) {
  g_bound.assign(o.A.rows, 0);
  for (i64 i = 0; i < o.A.rows; i++) {
    i64 f = 0; std::set<i64> s; for (i64 k : o.A.col[i]) { f += o.B.col[k].size(); s.insert(o.B.col[k].begin(), o.B.col[k].end()); }
    i64 in = 0; for (i64 c : o.M.col[i]) in += s.count(c);
    g_bound[i] = compl_ ? (i64)s.size() - in : in;
  }
}
static std::string head(u64 seed, const char *nm, int ph, unsigned nt, const Mat &A, const Mat &B, const Mat &M, int al = 0, int w = 8) {
  const char *as[] = {"", " output is A", " output is B", " output is M", " all operands and the output are one matrix"};
  return "seed=" + std::to_string(seed) + " algorithm=" + nm + " phases=" + std::to_string(ph) + " threads=" + std::to_string(nt) + " index bytes=" + std::to_string(w) + as[al] + "\n" + A.str("A") + B.str("B") + M.str("M");
}
template<class IT, template<class, class> class Alg> void syn(const char *nm, u64 seed, Rng &r, bool compl_) {
  Ops<IT> o = ops<IT>(r, false); setbound(o, compl_); g_salt = r.next() | 1; g_slow = r.p(.5) ? 3 : 0;
  int ph = r.in(1, 2); CSR<IT, u64> A, B, M; fill(A, o.A); fill(B, o.B); fill(M, o.M);
  for (int k = 0; k < 3; k++) {
    unsigned nt = r.pick({0u, 1u, 2u, 3u, 4u, 5u, 8u, 16u, (unsigned)o.A.rows, (unsigned)o.A.rows + 1});
    setcase(head(seed, nm, ph, nt, o.A, o.B, o.M, 0, sizeof(IT))); g_bad = 0;
    CSR<IT, u64> C; if (r.p(.3)) fill(C, o.A);
    if (ph == 1) MaskedSpGEMM1p<Alg>(A, B, C, M, LMul(), OAdd(), nt); else MaskedSpGEMM2p<Alg>(A, B, C, M, LMul(), OAdd(), nt);
    checksyn(C, o.A.rows, o.B.cols); same(A, o.A, "A"); same(B, o.B, "B"); same(M, o.M, "M");
    if (C.nnz > 1) ++*g_nontriv;
  }
}
template<class IT, template<class, class> class Alg> void real(const char *nm, u64 seed, Rng &r, bool compl_) {
  int al = r.p(.5) ? r.in(1, 4) : 0; Ops<IT> o = ops<IT>(r, al == 4); g_salt = r.next() | 1; g_slow = r.p(.3) ? 2 : 0;
  Arr<IT> ref; std::string first;
  for (int k = 0; k < 3; k++) {
    int ph = r.in(1, 2); unsigned nt = r.pick({1u, 2u, 3u, 4u, 7u, 8u, 20u});
    setcase(head(seed, nm, ph, nt, o.A, o.B, o.M, al, sizeof(IT)));
    CSR<IT, u64> A, B, M, C; fill(A, o.A); if (al != 4) { fill(B, o.B); fill(M, o.M); }
    CSR<IT, u64> &b = al == 4 ? A : B, &m = al == 4 ? A : M, &c = al == 0 ? C : al == 2 ? B : al == 3 ? M : A;
    if (ph == 1) MaskedSpGEMM1p<Alg>(A, b, c, m, LMul(), OAdd(), nt); else MaskedSpGEMM2p<Alg>(A, b, c, m, LMul(), OAdd(), nt);
    checkC(c, o.A, o.B, o.M, compl_, false, false, HMul(), OAdd());
    if (al == 0 || al == 2 || al == 3) same(A, o.A, "A"); if (al == 0 || al == 1 || al == 3) same(B, o.B, "B"); if (al <= 2) same(M, o.M, "M");
    Arr<IT> a = take(c);
    if (k == 0) { ref = a; first = std::to_string(nt) + " threads, phases=" + std::to_string(ph); }
    else HCHECK(a.p == ref.p && a.c == ref.c && a.v == ref.v, "the arrays of C differ from those computed with " << first);
    if (c.nnz > 1) ++*g_nontriv;
  }
}
template<class IT> void inner(u64 seed, Rng &r) {
  int al = r.p(.5) ? r.pick({1, 3}) : 0; Ops<IT> o = ops<IT>(r, false); g_salt = r.next() | 1; g_slow = r.p(.5) ? 2 : 0;
  Arr<IT> ref; std::string first;
  for (int k = 0; k < 3; k++) {
    int ph = r.in(1, 2); unsigned nt = r.pick({0u, 1u, 2u, 3u, 4u, 7u, 8u, 20u});
    setcase(head(seed, "MaskedInner", ph, nt, o.A, o.B, o.M, al, sizeof(IT)));
    CSR<IT, u64> A, M, C; CSC<IT, u64> B; fill(A, o.A); fill(B, o.B); fill(M, o.M);
    CSR<IT, u64> &c = al == 0 ? C : al == 3 ? M : A; if (al == 0 && r.p(.3)) fill(C, o.M);
    if (ph == 1) MaskedSpGEMM1p<MaskedInner, false>(A, B, c, M, LMul(), OAdd(), nt); else MaskedSpGEMM2p<MaskedInner, false>(A, B, c, M, LMul(), OAdd(), nt);
    checkC(c, o.A, o.B, o.M, false, true, true, HMul(), OAdd());
    if (al != 1) same(A, o.A, "A"); if (al != 3) same(M, o.M, "M");
    Arr<IT> a = take(c);
    if (k == 0) { ref = a; first = std::to_string(nt) + " threads, phases=" + std::to_string(ph); }
    else HCHECK(a.p == ref.p && a.c == ref.c && a.v == ref.v, "the arrays of C differ from those computed with " << first);
    if (c.nnz > 1) ++*g_nontriv;
  }
}
template<class IT> void all(u64 seed, Rng &r) {
  switch (seed % 10) {
    case 0: case 1: syn<IT, SynP>("made-up rows", seed, r, false); break;
    case 2: case 3: syn<IT, SynC>("made-up rows, complemented", seed, r, true); break;
    case 4: syn<IT, SynP0>("made-up rows", seed, r, false); break;
    case 5: syn<IT, SynCF>("made-up rows, complemented", seed, r, true); break;
    case 6: real<IT, MSA1A<false, false>::template Impl>("MSA1A", seed, r, false); break;
    case 7: real<IT, MaskedHash<true, true>::template Impl>("MaskedHash complemented sorted", seed, r, true); break;
    default: inner<IT>(seed, r);
  }
}
int main(int argc, char **argv) {
  omp_set_dynamic(0);
  return drive(argc, argv, [](u64 seed, Rng &r) { if ((seed / 16) % 2) all<int>(seed, r); else all<long>(seed, r); });
}
