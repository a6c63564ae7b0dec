// Scratch memory: aligned allocation, buffer splitting, and histories of row algorithms sharing one buffer.
#include "repo.hpp"
#include "spgemm-blocks/masked-spgemm.h"
#define CASE(...) do { std::ostringstream o_; o_ << "seed=" << seed << " " << __VA_ARGS__; setcase(o_.str()); } while (0)
struct E24 { u64 a, b, c; }; struct E3 { uint8_t a[3]; };
template<class T> void alloc(u64 seed, Rng &r, const char *nm) {
  size_t n = r.in(0, 3) ? r.in(0, 60) : r.in(0, 5000), al = r.in(0, 1) ? (size_t)1 << r.in(0, 9) : r.in(1, 300);
  if (r.p(.5)) al = std::lcm(al, alignof(T)); bool dflt = r.p(.2);
  CASE("mallocAligned<" << nm << ">(" << n << ", " << (dflt ? sizeof(T) : al) << ")");
  T *p = dflt ? mallocAligned<T>(n) : mallocAligned<T>(n, al); if (dflt) al = sizeof(T);
  HCHECK((uintptr_t)p % al == 0, "address " << (uintptr_t)p); HCHECK(isAligned(p, al), "isAligned disagrees");
  u64 h = 7; unsigned char *b = (unsigned char *)p; for (size_t i = 0; i < n * sizeof(T); i++) b[i] = (h = mix(h)) & 255;
  void *q = mallocAligned<T>(n / 2 + 1, al); memset(q, 0, (n / 2 + 1) * sizeof(T));
  h = 7; for (size_t i = 0; i < n * sizeof(T); i++) HCHECK(b[i] == ((h = mix(h)) & 255), "blocks overlap");
  if (r.p(.5)) { freeAligned(p); freeAligned((T *)q); } else { freeAligned((T *)q); freeAligned(p); }
  if (n > 1) ++*g_nontriv;
}
template<size_t D> void rounding(u64 seed, Rng &r) {
  size_t x = r.in(0, 5000); CASE("roundUp / roundDown<" << D << ">(" << x << ")");
  size_t u = roundUp<D>(x), d = roundDown<D>(x); HCHECK(u % D == 0 && u >= x && u < x + D, u); HCHECK(d % D == 0 && d <= x && d + D > x, d);
}
template<class D, class C> void split(u64 seed, Rng &r, const char *nm) {
  size_t ms = r.in(0, 200), i = r.in(0, 12), j = r.in(0, 12), dirty = r.in(0, ms); if (r.p(.3)) dirty = ms; if (r.p(.2)) dirty = 0;
  size_t need = roundUp<sizeof(C)>(i * sizeof(D)) + j * sizeof(C); if (r.p(.4)) { ms = need + r.in(0, 2 * sizeof(C)); dirty = r.in(0, ms); }
  if (need > roundDown<sizeof(C)>(ms)) return;
  bool clean = r.p(.3); CASE((clean ? "getCleanMemory " : "splitMemory ") << nm << " size " << ms << " dirty " << dirty << " dirty objects " << i << " clean objects " << j);
  if (clean) i = 0;
  std::byte *m = mallocAligned<std::byte>(ms, std::lcm(sizeof(D), sizeof(C))); memset(m, 0x55, dirty); memset(m + dirty, 0xFF, ms - dirty);
  D *dp = (D *)m; C *cp; size_t nd = dirty; if (clean) getCleanMemory(m, ms, nd, cp, j); else splitMemory(m, ms, nd, dp, i, cp, j);
  std::byte *c = (std::byte *)cp, *d = (std::byte *)dp;
  HCHECK(nd <= dirty, "dirty size grew to " << nd);
  if (i) HCHECK(d >= m && d + i * sizeof(D) <= m + ms && (size_t)(d - m) % sizeof(D) == 0, "dirty block at " << (d - m));
  if (j) HCHECK(c >= m && c + j * sizeof(C) <= m + ms && (size_t)(c - m) % sizeof(C) == 0, "clean block at " << (c - m));
  if (i && j) HCHECK(d + i * sizeof(D) <= c || c + j * sizeof(C) <= d, "blocks overlap: " << (d - m) << " and " << (c - m));
  for (size_t x = 0; x < j * sizeof(C); x++) HCHECK(c[x] == (std::byte)0xFF, "clean block is dirty at byte " << x);
  for (size_t x = nd; x < ms; x++) HCHECK(m[x] == (std::byte)0xFF, "byte " << x << " is not clean, dirty size is " << nd);
  freeAligned(m); if (i && j) ++*g_nontriv;
}
template<class IT> struct Env { Mat a, b, c; CSR<IT, u64> A, B, M; std::vector<IT> fl, flm; std::byte *buf; size_t size, dirty; std::string log; u64 seed; };
template<class IT, class Alg> void use(Env<IT> &e, Rng &r, const char *nm, bool compl_, bool srt, size_t &needsz, size_t &needal, bool measure) {
  IT mA = 0, mM = 0, mF = 0; for (i64 i = 0; i < e.a.rows; i++) { mA = std::max<IT>(mA, e.a.col[i].size()); mM = std::max<IT>(mM, e.c.col[i].size()); mF = std::max(mF, e.fl[i]); }
  Alg alg((IT)e.b.cols, mA, mM, mF); auto [sz, al] = alg.getMemoryRequirement(); if (measure) { needsz = std::max(needsz, sz); needal = std::lcm(needal, al); return; }
  bool sym = r.p(.5); std::vector<i64> rows; for (i64 i = 0; i < e.a.rows; i++) if (r.p(.7) && (compl_ ? e.fl[i] : e.flm[i])) rows.push_back(i);
  e.log += std::string("\n ") + nm + (sym ? " symbolic" : " numeric") + " dirty=" + std::to_string(e.dirty) + " rows " + show(rows);
  { std::ostringstream o; o << "seed=" << e.seed << " buffer of " << e.size << " bytes, index bytes=" << sizeof(IT) << e.log << "\n" << e.a.str("A") << e.b.str("B") << e.c.str("M"); setcase(o.str()); }
  std::vector<IT> nv(e.a.rows + 1);
  if (sym) alg.getSymbolicAccumulator().setBuffer(e.buf, e.size, e.dirty); else alg.getNumericAccumulator().setBuffer(e.buf, e.size, e.dirty);
  for (i64 i : rows) {
    auto o = rowprod(e.a, e.b, i, HMul(), OAdd()); std::set<i64> mk(e.c.col[i].begin(), e.c.col[i].end()); std::map<i64, u64> w; for (auto &kv : o) if (mk.count(kv.first) != (size_t)compl_) w.insert(kv);
    IT f = e.fl[i]; 
    if (sym) { nv[i] = -7; alg.symbolicRow(e.A, e.B, e.M, (IT)i, nv.data(), f); HCHECK(nv[i] == (IT)w.size(), "row " << i << " counted " << nv[i] << " expected " << w.size()); }
    else {
      std::vector<IT> ci(w.size() + 1); std::vector<u64> cv(w.size() + 1); IT *pc = ci.data(); u64 *pv = cv.data();
      if (r.p(.5)) f = std::max<IT>(w.size(), 1);   // what the two-phase driver passes
      alg.numericRow(e.A, e.B, e.M, HMul(), OAdd(), (IT)i, pc, pv, f);
      HCHECK((size_t)(pc - ci.data()) == w.size() && (size_t)(pv - cv.data()) == w.size(), "row " << i << " has " << (pc - ci.data()) << " entries, expected " << w.size());
      std::set<i64> seen; for (size_t k = 0; k < w.size(); k++) { HCHECK(w.count(ci[k]) && seen.insert(ci[k]).second, "row " << i << " column " << ci[k]); HCHECK(w[ci[k]] == cv[k], "row " << i << " column " << ci[k] << " has a wrong value"); }
    }
  }
  size_t nd = sym ? alg.getSymbolicAccumulator().releaseBuffer() : alg.getNumericAccumulator().releaseBuffer();
  HCHECK(nd <= e.size, "released with dirty size " << nd);
  for (size_t x = nd; x < e.size; x++) HCHECK(e.buf[x] == (std::byte)0xFF, "released with dirty size " << nd << ", but byte " << x << " is not clean");
  e.dirty = nd; if (rows.size() > 1) ++*g_nontriv;
}
template<class IT> void history(u64 seed, Rng &r) {
  Env<IT> e; e.seed = seed; i64 m = r.in(1, 12), k = r.in(1, 10), n = r.in(1, 40); Gen g{true, true}; double d = r.pick({.1, .3, .8});
  e.a = randmat(r, m, k, d, g); e.b = randmat(r, k, n, d, g, r.pick({1, 1, 8})); e.c = randmat(r, m, n, r.pick({.1, .4, 1.}), g);
  fill(e.A, e.a); fill(e.B, e.b); fill(e.M, e.c);
  e.fl.resize(m); e.flm.resize(m); for (i64 i = 0; i < m; i++) { for (i64 x : e.a.col[i]) e.fl[i] += e.b.col[x].size(); if (e.c.col[i].size()) e.flm[i] = e.fl[i]; }
  size_t sz = 0, al = 1; auto step = [&](int w, bool measure) {
    switch (w) {
#define S(I, X, C, SR) case I: use<IT, typename X::template Impl<IT, u64>>(e, r, #X, C, SR, sz, al, measure); break
      using M1 = MSA1A<false, false>; using M2 = MSA2A<false, false>; using M1c = MSA1A<true, false>; using M2c = MSA2A<true, false>; using M1s = MSA1A<true, true>; using M2s = MSA2A<true, true>;
      using H = MaskedHash<false, false>; using Hc = MaskedHash<true, false>; using Hs = MaskedHash<true, true>; using Mc = MCA<false, false>;
      S(0, M1, false, false); S(1, M2, false, false); S(2, M1c, true, false); S(3, M2c, true, false); S(4, M1s, true, true); S(5, M2s, true, true); S(6, H, false, false); S(7, Hc, true, false); S(8, Hs, true, true); S(9, Mc, false, false);
    } };
  int only = r.p(.4) ? r.in(0, 9) : -1;
  for (int w = 0; w < 10; w++) if (only < 0 || w == only) step(w, true);
  e.size = sz + r.pick({0, 0, 1, 8, 24, 100}); e.buf = mallocAligned(e.size, al);
  e.dirty = r.p(.4) ? e.size : r.p(.3) ? 0 : r.in(0, e.size); memset(e.buf, 0x3C, e.dirty); memset(e.buf + e.dirty, 0xFF, e.size - e.dirty);
  int steps = r.in(1, 6); for (int s = 0; s < steps; s++) step(only < 0 ? r.in(0, 9) : only, false);
  freeAligned(e.buf);
}
int main(int argc, char **argv) {
  return drive(argc, argv, [](u64 seed, Rng &r) {
    switch (r.in(0, 9)) {
      case 0: alloc<std::byte>(seed, r, "byte"); alloc<u64>(seed, r, "u64"); alloc<E24>(seed, r, "24 bytes"); alloc<uint16_t>(seed, r, "u16"); break;
      case 1: rounding<1>(seed, r); rounding<2>(seed, r); rounding<3>(seed, r); rounding<8>(seed, r); rounding<24>(seed, r); break;
      case 2: split<uint8_t, uint8_t>(seed, r, "1/1"); split<u64, uint8_t>(seed, r, "8/1"); split<uint8_t, u64>(seed, r, "1/8"); split<E3, uint16_t>(seed, r, "3/2"); break;
      case 3: split<u64, u64>(seed, r, "8/8"); split<uint32_t, E24>(seed, r, "4/24"); split<E24, uint32_t>(seed, r, "24/4"); split<uint8_t, E3>(seed, r, "1/3"); break;
      case 4: case 5: case 6: history<int>(seed, r); break;
      default: history<i64>(seed, r);
    } });
}
