// Translation unit dumped by clang on every run: the real headers of /repo,
// with the templates under contract instantiated (index type long, value type
// double, functors left opaque).  Contains no verified code of its own.
#include <bits/stdc++.h>
#include <omp.h>
#include <unistd.h>
extern "C" {
#include VREPO_GRAPH
}
#include <GraphBLAS.h>
namespace vfy {
#include VREPO_CSR
#include VREPO_CSC
#include VREPO_MS
#include VREPO_MSI
#include VREPO_INNER
#include VREPO_TRANS
#include VREPO_TUTIL
#include VREPO_SPLIT
struct Mul { double operator()(double a, double b) const; };
struct Add { double operator()(double a, double b) const; };
template class internal::MSA1A<long, double, false, false>;
template class internal::MSA1A<long, double, true, false>;
template class internal::MSA1A<long, double, true, true>;
template class internal::MSA2A<long, double, false, false>;
template class internal::MSA2A<long, double, true, false>;
template class internal::MSA2A<long, double, true, true>;
template<template<class, class> class Alg> void both(CSR<long, double> &A, CSR<long, double> &B, CSR<long, double> &C, CSR<long, double> &M, Mul m, Add a) {
    MaskedSpGEMM1p<Alg>(A, B, C, M, m, a, 3);
    MaskedSpGEMM2p<Alg>(A, B, C, M, m, a, 3);
}
// A row algorithm about which only its contract is known (see contracts/drv.py): the drivers are verified for it.
// The bodies only say what may be written; they are never verified and never run.
template<class IT> struct AnyAcc {
    IT maxIndex, mA, mM, mF, ready, size;
    AnyAcc(IT a, IT b, IT c, IT d) : maxIndex(a), mA(b), mM(c), mF(d), ready(0), size(0) {}
    void setBuffer(std::byte *buffer, size_t bufferSize, const size_t dirty) { ready = 1; size = bufferSize; }
    size_t releaseBuffer() { ready = 0; return size; }
};
template<class IT, class NT, bool Compl> struct AnyRow {
    inline const static bool COMPLEMENTED = Compl;
    inline const static bool CALC_MAX_ROW_SIZE_A = true;
    inline const static bool CALC_MAX_ROW_SIZE_M = true;
    inline const static bool CALC_MAX_ROW_FLOPS = true;
    AnyAcc<IT> sym, num;
    AnyRow(IT a, IT b, IT c, IT d) : sym(a, b, c, d), num(a, b, c, d) {}
    std::tuple<size_t, size_t> getMemoryRequirement() { return {1, 1}; }
    AnyAcc<IT> &getSymbolicAccumulator() { return sym; }
    AnyAcc<IT> &getNumericAccumulator() { return num; }
    void symbolicRow(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT row, IT *rowNvals, IT flops) { rowNvals[row] = 0; }
    template<class Mu, class Ad> void numericRow(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, Mu mu, Ad ad, IT row, IT *&currColId, NT *&currValue, IT flops) {
        *currColId = 0; *currValue = NT(0); currColId++; currValue++;
    }
};
template<class IT, class NT> using AnyRowP = AnyRow<IT, NT, false>;
template<class IT, class NT> using AnyRowC = AnyRow<IT, NT, true>;
void use_scan(const long *s, long *d, size_t n, int nt, long N) {
    exclusiveScan<long>(s, n, d, nt);
    inclusiveScan<long>(s, n, d, nt);
    scan<long>(d, d, N);
    CumulativeSum<long>(d, N);
}
struct E24 { long a, b, c; };
void use_mem() {
    mallocAligned<std::byte>(1, 1); mallocAligned<long>(1, 1); mallocAligned<E24>(1, 1);
    freeAligned((std::byte *) 0); freeAligned((long *) 0); freeAligned((E24 *) 0);
    roundUp<1>(1ul); roundUp<2>(1ul); roundUp<3>(1ul); roundUp<8>(1ul); roundUp<16>(1ul); roundUp<24>(1ul);
    roundDown<1>(1ul); roundDown<2>(1ul); roundDown<3>(1ul); roundDown<8>(1ul); roundDown<16>(1ul); roundDown<24>(1ul);
}
void use_hash(HashAccumulator<long, void, void> &k, HashAccumulator<long, double, bool> &v, long *i, double *d) {
    k.insert<false>(1L); k.insert<true>(1L); k.init(); v.init(); k.resetStates(); v.resetStates();
    v.insert<false>(1L, 2.0, true); v.insert<true>(1L, 2.0, true); v.gather<long, double>(i, d);
    v.gatherList<true>(i, d); v.gatherList<false>(i, d); k.resetStatesList();
}
void use_copy(CSR<long, double> &A, CSC<long, double> &Bc) {
    CSR<long, double> c(A), d; d = A; d.make_empty(); d.sortIds(); d.Sorted();
    CSC<long, double> e(Bc), f; f = Bc; f.make_empty(); f.Sorted();
}
void use_conv(CSC<long, double> &Bc, CSR<long, double> &A, Triple<long, double> *t, long *p, double *q, std::vector<std::pair<int64_t, int64_t>> &ed, std::vector<std::tuple<long, long, double>> &tu, Add a) {
    CSR<long, double> x(Bc), y(Bc, true);
    CSC<long, double> u(t, 1, 2, 3), v(ed, 1L, 2L, 3L), w(tu, 2L, 3L, a), z(p, p, q, 1L, 2L, 3L);
    csr2csc_atomic_nosort<long, double>(1, 2, 3, p, p, q, p, p, q);
    Intersect(x, y, a);
    removeDuplicates<long, double>(3, t);
    { int *pi = 0; cpu_sorting_key_value<int, double>(pi, q, 3); }
    std::vector<long> ri; u.SpRef(ri, ri); u.SpRef1(ri, ri);
    SplitTuples<long, double> s1(u, 3), s2(A, 3);
    x.ConvertOneBased(); x.ConvertZeroBased(); x.sumall();
}
void use_work(CSR<long, double> &A, CSR<long, double> &B, CSR<long, double> &M, CSC<long, double> &Bc, long *f) {
    calculateMultOps(A, B, 3);
    calculateFlops(A, B, f, 3);
    calculateFlops(A, B, M, f, 3);
    calculateWork(A, Bc, M, f, 3);
    estimateResultSize(0L, 1L, f, A, B, M);
}
void use(CSR<long, double> &A, CSR<long, double> &B, CSR<long, double> &C, CSR<long, double> &M, CSC<long, double> &Bc, Mul m, Add a) {
    both<AnyRowP>(A, B, C, M, m, a);
    both<AnyRowC>(A, B, C, M, m, a);
    both<MSA1A<false, false>::Impl>(A, B, C, M, m, a);
    both<MSA1A<true, false>::Impl>(A, B, C, M, m, a);
    both<MSA1A<true, true>::Impl>(A, B, C, M, m, a);
    both<MSA2A<false, false>::Impl>(A, B, C, M, m, a);
    both<MSA2A<true, false>::Impl>(A, B, C, M, m, a);
    both<MSA2A<true, true>::Impl>(A, B, C, M, m, a);
    both<MaskedHash<false, false>::Impl>(A, B, C, M, m, a);
    both<MaskedHash<true, false>::Impl>(A, B, C, M, m, a);
    both<MaskedHash<true, true>::Impl>(A, B, C, M, m, a);
    both<MCA<false, false>::Impl>(A, B, C, M, m, a);
    both<MaskedHeap_v0>(A, B, C, M, m, a);
    both<MaskedHeap_v1>(A, B, C, M, m, a);
    both<MaskedHeap_v2>(A, B, C, M, m, a);
    both<MaskedHeap<false, true, 0>::Impl>(A, B, C, M, m, a);
    both<MaskedHeap<false, true, 1>::Impl>(A, B, C, M, m, a);
    both<MaskedHeap<false, true, 3>::Impl>(A, B, C, M, m, a);
    both<MaskedHeap<false, true, MaskedHeapDot>::Impl>(A, B, C, M, m, a);
    both<MaskedHeap<true, true, 0>::Impl>(A, B, C, M, m, a);
    MaskedSpGEMM1p<MaskedInner, false>(A, Bc, C, M, m, a, 3);
    MaskedSpGEMM2p<MaskedInner, false>(A, Bc, C, M, m, a, 3);
    MaskedSpGEMM1pInnerProduct(A, Bc, C, M, m, a, 3);
    MaskedSpGEMM2pInnerProduct(A, Bc, C, M, m, a, 3);
}
}
