// Masked products of spgemm-blocks against the row-by-row oracle.
// -DH_MSA -DH_HASH -DH_MCA -DH_HEAP -DH_INNER select the algorithms.
#include "repo.hpp"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
template<class IT> struct Case { Mat A, B, M; unsigned nt; std::string txt; };
static Mat transpose_none(const Mat &a) { return a; }
template<class IT> Case<IT> gen(Rng &r, bool sorted, bool dupAB) {
  Case<IT> c; i64 m, k, n; double d;
  int shape = r.in(0, 9);
  if (shape < 6) { m = r.in(1, 12); k = r.in(1, 12); n = r.in(1, 14); d = r.pick({0.1, 0.3, 0.6, 1.0}); }
  else if (shape < 9) { m = r.in(1, 60); k = r.in(1, 40); n = r.in(1, 200); d = r.pick({0.02, 0.1, 0.3}); }
  else { m = r.in(1, 40); k = r.in(1, 60); n = r.in(200, 3000); d = r.pick({0.005, 0.02, 0.05}); }
  i64 stride = r.p(0.4) ? r.pick({1, 2, 4, 8, 16, 32, 64, 128}) : 1;
  Gen gab{sorted, !dupAB || r.p(0.7)}, gm{sorted || r.p(0.4), true};
  if (!sorted && r.p(0.4)) gab.sorted = true;
  c.A = randmat(r, m, k, d, gab); c.B = randmat(r, k, n, d, gab, stride); c.M = randmat(r, m, n, r.pick({0.02, 0.2, 0.5, 1.0}), gm, stride);
  if (r.p(0.1)) for (auto &x : c.M.col) x.clear(); if (r.p(0.1)) for (size_t i = 0; i < c.M.col.size(); i++) if (r.p(.5)) c.M.col[i].clear();
  for (size_t i = 0; i < c.M.col.size(); i++) c.M.val[i].resize(c.M.col[i].size(), 1);
  c.nt = r.pick({1u, 2u, 3u, 4u, 5u, 7u, 8u, 13u}); if (r.p(0.2)) c.nt = r.in(1, 2 * m + 1); if (r.p(.02)) c.nt = 0;
  return c;
}
enum { PLAIN, COMPL };
template<class IT, template<class, class> class Alg, class Add> void run(const char *nm, u64 seed, Rng &r, bool compl_, bool srt, bool needsorted, Add add) {
  Case<IT> c = gen<IT>(r, needsorted, !needsorted);
  for (int ph = 1; ph <= 2; ph++) {
    setcase("seed=" + std::to_string(seed) + " algorithm=" + nm + " phases=" + std::to_string(ph) + " index bytes=" + std::to_string(sizeof(IT)) + " threads=" + std::to_string(c.nt) + "\n" + c.A.str("A") + c.B.str("B") + c.M.str("M"));
    CSR<IT, u64> A, B, M, C; fill(A, c.A); fill(B, c.B); fill(M, c.M);
    bool pre = r.p(0.3); if (pre) fill(C, c.A);
    if (ph == 1) MaskedSpGEMM1p<Alg>(A, B, C, M, HMul(), add, c.nt); else MaskedSpGEMM2p<Alg>(A, B, C, M, HMul(), add, c.nt);
    checkC(C, c.A, c.B, c.M, compl_, !compl_, srt, HMul(), add);
    same(A, c.A, "A"); same(B, c.B, "B"); same(M, c.M, "M");
    if (C.nnz) ++*g_nontriv;
  }
}
template<class IT> void runinner(const char *nm, u64 seed, Rng &r) {
  Case<IT> c = gen<IT>(r, true, false);
  for (int ph = 1; ph <= 4; ph++) {
    setcase("seed=" + std::to_string(seed) + " algorithm=" + nm + " variant=" + std::to_string(ph) + " index bytes=" + std::to_string(sizeof(IT)) + " threads=" + std::to_string(c.nt) + "\n" + c.A.str("A") + c.B.str("B") + c.M.str("M"));
    CSR<IT, u64> A, M, C; CSC<IT, u64> B; fill(A, c.A); fill(B, c.B); fill(M, c.M);
    if (ph == 1) MaskedSpGEMM1p<MaskedInner, false>(A, B, C, M, HMul(), OAdd(), c.nt);
    if (ph == 2) MaskedSpGEMM2p<MaskedInner, false>(A, B, C, M, HMul(), OAdd(), c.nt);
    if (ph == 3) MaskedSpGEMM1pInnerProduct(A, B, C, M, HMul(), OAdd(), c.nt);
    if (ph == 4) MaskedSpGEMM2pInnerProduct(A, B, C, M, HMul(), OAdd(), c.nt);
    checkC(C, c.A, c.B, c.M, false, true, true, HMul(), OAdd());
    same(A, c.A, "A"); same(M, c.M, "M");
    if (C.nnz) ++*g_nontriv;
  }
}
template<class IT> void all(u64 seed, Rng &r) {
#define PL(X, S, NS, A) run<IT, X::template Impl>(#X, seed, r, false, S, NS, A)
#define CO(X, S, NS, A) run<IT, X::template Impl>(#X, seed, r, true, S, NS, A)
  using MSA1 = MSA1A<false, false>; using MSA2 = MSA2A<false, false>; using MSA1c = MSA1A<true, false>; using MSA2c = MSA2A<true, false>; using MSA1cs = MSA1A<true, true>; using MSA2cs = MSA2A<true, true>;
  using H = MaskedHash<false, false>; using Hc = MaskedHash<true, false>; using Hcs = MaskedHash<true, true>; using Mc = MCA<false, false>;
  std::vector<std::function<void()>> v;
#ifdef H_MSA
  v.push_back([&] { PL(MSA1, false, false, OAdd()); }); v.push_back([&] { PL(MSA2, false, false, OAdd()); });
#endif
#ifdef H_MSAC
  v.push_back([&] { CO(MSA1c, false, false, OAdd()); }); v.push_back([&] { CO(MSA2c, false, false, OAdd()); });
  v.push_back([&] { CO(MSA1cs, true, false, OAdd()); }); v.push_back([&] { CO(MSA2cs, true, false, OAdd()); });
#endif
#ifdef H_HASH
  v.push_back([&] { PL(H, false, false, OAdd()); }); v.push_back([&] { CO(Hc, false, false, OAdd()); }); v.push_back([&] { CO(Hcs, true, false, OAdd()); });
#endif
#ifdef H_MCA
  v.push_back([&] { PL(Mc, true, true, OAdd()); });
#endif
#ifdef H_HEAP
  using H0 = MaskedHeap<false, true, 0>; using H1 = MaskedHeap<false, true, 1>; using H3 = MaskedHeap<false, true, 3>; using HD = MaskedHeap<false, true, MaskedHeapDot>; using HC = MaskedHeap<true, true, 0>;
  v.push_back([&] { PL(H0, true, true, CAdd()); }); v.push_back([&] { PL(H1, true, true, CAdd()); }); v.push_back([&] { PL(H3, true, true, CAdd()); }); v.push_back([&] { PL(HD, true, true, CAdd()); }); v.push_back([&] { CO(HC, true, true, CAdd()); });
  v.push_back([&] { run<IT, MaskedHeap_v0>("MaskedHeap_v0", seed, r, false, true, true, CAdd()); }); v.push_back([&] { run<IT, MaskedHeap_v1>("MaskedHeap_v1", seed, r, false, true, true, CAdd()); }); v.push_back([&] { run<IT, MaskedHeap_v2>("MaskedHeap_v2", seed, r, false, true, true, CAdd()); });
#endif
#ifdef H_INNER
  v.push_back([&] { runinner<IT>("Inner", seed, r); });
#endif
  v[seed % v.size()]();
}
int main(int argc, char **argv) {
  omp_set_dynamic(0);
  return drive(argc, argv, [](u64 seed, Rng &r) {
    if ((seed / 16) % 2) all<int>(seed, r);
    else all<long>(seed, r);
  });
}
