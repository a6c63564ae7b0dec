// The building blocks of the drivers against their definitions.  -DH_SCAN -DH_WORK -DH_EST select.
#include "repo.hpp"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
template<class T> struct Arr { T *p; size_t n; Arr(size_t n) : p((T *)malloc(n * sizeof(T))), n(n) {} ~Arr() { free(p); } T &operator[](size_t i) { return p[i]; } };
#define CASE(...) do { std::ostringstream o_; o_ << "seed=" << seed << " " << __VA_ARGS__; setcase(o_.str()); } while (0)
template<class T> void scans(u64 seed, Rng &r) {
  int which = r.in(0, 4);
  i64 n = r.in(0, 9) < 6 ? r.in(0, 40) : r.in(0, 3) ? r.in(0, 2000) : 0;
  int nt = r.pick({1, 2, 3, 4, 5, 8, 12, 16}); if (r.p(.2)) nt = r.in(1, 40);
  if ((which == 1 || which == 2) && r.p(.35)) { n = (1 << 17) + r.in(-3, 3) + (r.p(.5) ? r.in(0, 5000) : 0); }
  i64 nin = which == 2 && n > 0 ? n - 1 : n;
  Arr<T> in(nin), out(n); for (i64 i = 0; i < nin; i++) in[i] = r.p(.2) ? 0 : r.in(0, 9);
  std::vector<T> ref(n); T s = 0; for (i64 i = 0; i < n; i++) { T v = i < nin ? in[i] : 0; ref[i] = which == 1 ? s + v : s; s += v; }
  const char *nm[] = {"exclusiveScan", "inclusiveScan", "scan", "CumulativeSum", "seq_scan"};
  std::vector<T> org(in.p, in.p + nin);
  CASE(nm[which] << " length=" << n << " threads=" << nt << " bytes=" << sizeof(T) << (n < 3000 ? " input=" + show(org) : std::string()));
  for (i64 i = 0; i < n; i++) out[i] = 12345;
  if (which == 0) exclusiveScan<T>(in.p, n, out.p, nt);
  if (which == 1) inclusiveScan<T>(in.p, n, out.p, nt);
  if (which == 2) { omp_set_num_threads(nt); scan<T>(in.p, out.p, (T)n); omp_set_num_threads(4); }
  if (which == 3) { for (i64 i = 0; i < n; i++) out[i] = in[i]; T t = CumulativeSum<T>(out.p, (T)n); HCHECK(t == s, "total " << t << " expected " << s); }
  if (which == 4) { seq_scan<T>(in.p, out.p, (T)n); }
  for (i64 i = 0; i < n; i++) HCHECK(out[i] == ref[i], "position " << i << " is " << out[i] << " expected " << ref[i]);
  for (i64 i = 0; i < nin; i++) HCHECK(in[i] == org[i], "input changed at " << i);
  if (n > 1) ++*g_nontriv;
}
template<class IT> void work(u64 seed, Rng &r) {
  i64 n = r.in(0, 4) ? r.in(0, 20) : r.in(0, 300); int nt = r.in(0, 3) ? r.in(1, 9) : r.in(1, 2 * n + 3);
  std::vector<IT> w(n); int mode = r.in(0, 4); i64 mx = r.pick({1, 3, 10, 1000, 100000});
  for (i64 i = 0; i < n; i++) w[i] = mode == 0 ? 0 : mode == 1 ? (r.p(.1) ? mx : 0) : mode == 2 ? r.in(0, mx) : mode == 3 ? (i + 1 == n ? mx : 0) : (i == 0 ? mx : r.in(0, 1));
  Arr<IT> acc(n); IT s = 0; for (i64 i = 0; i < n; i++) { acc[i] = s; s += w[i]; }
  CASE("distributeWork rows=" << n << " threads=" << nt << " bytes=" << sizeof(IT) << " work=" << show(w));
  IT prev = 0;
  for (int t = 0; t < nt; t++) {
    auto [b, e] = distributeWork<IT>(s, acc.p, (IT)n, nt, t);
    HCHECK(b == prev, "thread " << t << " starts at row " << b << ", the one before ends at " << prev);
    HCHECK(b <= e && e <= (IT)n, "thread " << t << " has rows " << b << " .. " << e);
    prev = e;
  }
  HCHECK(prev == (IT)n, "the last thread ends at row " << prev);
  if (n > 1 && nt > 1) ++*g_nontriv;
}
template<class IT> void est(u64 seed, Rng &r) {
  i64 m = r.in(0, 20), k = r.in(1, 15), n = r.in(1, 30); Gen g{r.p(.5), r.p(.7)}, gm{r.p(.5), true};
  Mat a = randmat(r, m, k, r.pick({.1, .4, 1.}), g), b = randmat(r, k, n, r.pick({.1, .4, 1.}), g), c = randmat(r, m, n, r.pick({.05, .3, 1.}), gm);
  int nt = r.in(1, 9);
  CASE("work estimates, threads=" << nt << " bytes=" << sizeof(IT) << "\n" << a.str("A") << b.str("B") << c.str("M"));
  CSR<IT, u64> A, B, M; CSC<IT, u64> Bc; fill(A, a); fill(B, b); fill(M, c); fill(Bc, b);
  std::vector<i64> f(m), fm(m), wk(m), sz(m), szc(m); i64 tf = 0, tm = 0, tw = 0; HMul mu; OAdd ad;
  std::vector<i64> colcnt(n); for (i64 i = 0; i < k; i++) for (i64 x : b.col[i]) colcnt[x]++;
  for (i64 i = 0; i < m; i++) {
    for (i64 x : a.col[i]) f[i] += b.col[x].size(); if (c.col[i].size()) fm[i] = f[i];
    for (i64 x : c.col[i]) if (a.col[i].size() && colcnt[x]) wk[i] += a.col[i].size() + colcnt[x];
    tf += f[i]; tm += fm[i]; tw += wk[i];
    auto o = rowprod(a, b, i, mu, ad); std::set<i64> mk(c.col[i].begin(), c.col[i].end()); for (auto &kv : o) (mk.count(kv.first) ? sz[i] : szc[i])++;
  }
  { IT x = calculateMultOps<IT, u64>(A, B, nt); HCHECK(x == (IT)tf, "calculateMultOps " << x << " expected " << tf); }
  { IT x = calculateMultOps<IT, u64>(A, B); HCHECK(x == (IT)tf, "calculateMultOps " << x << " expected " << tf); }
  Arr<IT> p(m), pm(m), pw(m);
  { IT x = calculateFlops<IT, u64>(A, B, p.p, nt); HCHECK(x == (IT)tf, "calculateFlops " << x << " expected " << tf); for (i64 i = 0; i < m; i++) HCHECK(p[i] == (IT)f[i], "calculateFlops row " << i << ": " << p[i] << " expected " << f[i]); }
  { IT x = calculateFlops<IT, u64>(A, B, M, pm.p, nt); HCHECK(x == (IT)tm, "calculateFlops (mask) " << x << " expected " << tm); for (i64 i = 0; i < m; i++) HCHECK(pm[i] == (IT)fm[i], "calculateFlops (mask) row " << i << ": " << pm[i] << " expected " << fm[i]); }
  { IT x = calculateWork<IT, u64>(A, Bc, M, pw.p, nt); HCHECK(x == (IT)tw, "calculateWork " << x << " expected " << tw); for (i64 i = 0; i < m; i++) HCHECK(pw[i] == (IT)wk[i], "calculateWork row " << i << ": " << pw[i] << " expected " << wk[i]); }
  i64 lo = r.in(0, m), hi = r.in(lo, m), need = 0, needc = 0, mA = 0, mM = 0, mF = 0;
  for (i64 i = lo; i < hi; i++) { need += sz[i]; needc += szc[i]; mA = std::max<i64>(mA, a.col[i].size()); mM = std::max<i64>(mM, c.col[i].size()); mF = std::max<i64>(mF, fm[i]); }
  { IT x = estimateResultSize<IT, u64>(lo, hi, pm.p, A, B, M); HCHECK(x >= (IT)need, "estimateResultSize " << lo << ".." << hi << ": " << x << ", the rows produce " << need); }
  { auto [s, x, y, z] = scanInputs<false, true, true, true, true, IT, u64>(lo, hi, pm.p, A, B, M); HCHECK(s >= (IT)need, "scanInputs size " << s << " needed " << need); HCHECK(x >= (IT)mA && y >= (IT)mM && z >= (IT)mF, "scanInputs maxima " << x << " " << y << " " << z << " needed " << mA << " " << mM << " " << mF); }
  { mF = 0; for (i64 i = lo; i < hi; i++) mF = std::max<i64>(mF, f[i]); auto [s, x, y, z] = scanInputs<true, true, true, true, true, IT, u64>(lo, hi, p.p, A, B, M); HCHECK(s >= (IT)needc, "scanInputs (complement) size " << s << " needed " << needc); HCHECK(x >= (IT)mA && y >= (IT)mM && z >= (IT)mF, "scanInputs maxima"); }
  same(A, a, "A"); same(B, b, "B"); same(M, c, "M");
  if (tf) ++*g_nontriv;
}
template<class IT> void one(u64 seed, Rng &r) {
#ifdef H_SCAN
  scans<IT>(seed, r);
#endif
#ifdef H_WORK
  work<IT>(seed, r);
#endif
#ifdef H_EST
  est<IT>(seed, r);
#endif
}
int main(int argc, char **argv) {
  omp_set_dynamic(0);
  return drive(argc, argv, [](u64 seed, Rng &r) { if (seed % 2) one<int>(seed, r); else one<long>(seed, r); });
}
