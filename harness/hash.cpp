// The open-addressing accumulators as maps: random histories against std::map.
#include "repo.hpp"
#include "spgemm-blocks/hash/HashAccumulator.h"
#define CASE(...) do { std::ostringstream o_; o_ << "seed=" << seed << " " << __VA_ARGS__; setcase(o_.str()); } while (0)
template<class A> struct Buf { std::byte *raw, *p; size_t n; A &a;
  Buf(A &a, size_t extra) : a(a) { auto [sz, al] = a.getMemoryRequirement(); n = sz + extra; raw = (std::byte *)malloc(n + al + 1); p = raw + (al - (size_t)raw % al) % al; memset(raw, 0x5a, n + al); a.setBuffer(p, n, n); }
  ~Buf() { free(raw); } };
template<class IT> struct Keys { Rng &r; i64 n; std::vector<i64> pool;
  Keys(Rng &r, i64 n, i64 cap) : r(r), n(n) { int mode = r.in(0, 3); i64 t = 16; while (t < 4 * (n + 1)) t *= 2;
    std::set<i64> s; for (int tries = 0; tries < 4000 && (i64)s.size() < n + 6; tries++) {
      i64 x = mode == 0 ? r.in(0, 1000) : mode == 1 ? r.in(0, 50) * t + r.in(0, 2) : mode == 2 ? r.in(0, 200000) : r.in(0, 4000);
      if (mode == 2 && (x * 107) % t < t - 3 && (x * 107) % t > 1) continue;
      s.insert(x); }
    pool.assign(s.begin(), s.end()); }
  i64 any() { return pool[r.in(0, pool.size() - 1)]; } };
template<class A> void empties(A &a, size_t cap, const char *when) { for (size_t i = 0; i < cap; i++) HCHECK(a[i].key == A::EMPTY, "slot " << i << " is not empty after " << when << " (key " << a[i].key << ")"); }
template<class IT> void setk(u64 seed, Rng &r) {
  typedef HashAccumulator<IT, void, void> A; i64 cap = r.in(0, 3) ? r.in(0, 20) : r.in(0, 300); A a(cap); Buf<A> b(a, r.in(0, 64)); size_t slots = std::get<0>(a.getMemoryRequirement()) / sizeof(HashAccumEntryT<IT>);
  std::ostringstream h; h << "key set, capacity " << cap << " bytes " << sizeof(IT) << ":"; if (r.p(.3)) { a.init(); h << " init"; }
  empties(a, slots, "setBuffer");
  for (int round = r.in(1, 4); round--;) {
    i64 n = r.p(.5) ? cap : r.in(0, cap); a.resize(n); h << " resize(" << n << ")"; Keys<IT> ks(r, n, cap); std::set<i64> s; bool track = r.p(.5);
    for (int op = r.in(0, 3 * n + 3); op--;) {
      i64 x = ks.any(); int w = r.in(0, track ? 6 : 9);
      if (w < 5) { if ((i64)s.size() >= n && !s.count(x)) continue; h << " insert" << track << "(" << x << ")"; CASE(h.str()); bool ins = track ? a.template insert<true>(x) : a.template insert<false>(x); HCHECK(ins == s.insert(x).second, "insert(" << x << ") returned " << ins); }
      else if (w < 7) { h << " find(" << x << ")"; CASE(h.str()); }
      else { h << " erase(" << x << ")"; CASE(h.str()); bool e = a.erase(x); HCHECK(e == (bool)s.erase(x), "erase(" << x << ") returned " << e); }
      for (i64 y : ks.pool) { auto i = a.find(y); HCHECK((i != A::NOT_FOUND) == (bool)s.count(y), "find(" << y << ") after the last operation"); if (s.count(y)) HCHECK(a[i].key == (IT)y, "find(" << y << ") points to key " << a[i].key); }
    }
    if (s.size() > 1) ++*g_nontriv;
    if (track) { h << " resetStatesList"; CASE(h.str()); a.resetStatesList(); } else if (r.p(.5)) { h << " resetStates"; CASE(h.str()); a.resetStates(); }
    else { std::vector<i64> v(s.begin(), s.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.in(0, i - 1)]); for (i64 x : v) { h << " erase(" << x << ")"; CASE(h.str()); HCHECK(a.erase(x), "erase(" << x << ") of a stored key"); s.erase(x); for (i64 y : ks.pool) HCHECK((a.find(y) != A::NOT_FOUND) == (bool)s.count(y), "find(" << y << ")"); } }
    empties(a, slots, "removing every key");
  }
}
template<class IT> void mapv(u64 seed, Rng &r) {
  typedef HashAccumulator<IT, u64, bool> A; i64 cap = r.in(0, 3) ? r.in(0, 20) : r.in(0, 300); A a(cap); Buf<A> b(a, r.in(0, 64)); size_t slots = std::get<0>(a.getMemoryRequirement()) / sizeof(HashAccumEntryT<IT, u64, bool>);
  std::ostringstream h; h << "map, capacity " << cap << " bytes " << sizeof(IT) << ":";
  empties(a, slots, "setBuffer");
  for (int round = r.in(1, 4); round--;) {
    i64 n = r.p(.5) ? cap : r.in(0, cap); a.resize(n); h << " resize(" << n << ")"; Keys<IT> ks(r, n, cap); std::map<i64, std::pair<bool, u64>> m; bool track = r.p(.5); std::vector<IT> order;
    for (int op = r.in(0, 3 * n + 3); op--;) {
      i64 x = ks.any(); int w = r.in(0, track ? 6 : 9); bool full = (i64)m.size() >= n && !m.count(x);
      if (w < 2) { if (full || track) continue; h << " insert(" << x << ")"; CASE(h.str()); bool ins = a.insert(x); HCHECK(ins == !m.count(x), "insert(" << x << ") returned " << ins); if (ins) { m[x] = {false, 0}; order.push_back(x); } }
      else if (w < 4) { if (full) continue; u64 v = r.next() % 1000; bool f = r.p(.7); h << " insert(" << x << "," << v << "," << f << ")"; CASE(h.str()); bool ins = track ? a.template insert<true>(x, v, f) : a.template insert<false>(x, v, f); HCHECK(ins == !m.count(x), "insert returned " << ins); if (ins) { m[x] = {f, v}; order.push_back(x); } }
      else if (w < 7) { u64 v = r.next() % 1000; h << " set(" << x << "," << v << ")"; CASE(h.str()); auto i = a.find(x); if (m.count(x)) { HCHECK(i != A::NOT_FOUND, "stored key not found"); a[i].value1 = v; a[i].value2 = true; m[x] = {true, v}; } }
      else { h << " erase(" << x << ")"; CASE(h.str()); bool e = a.erase(x); HCHECK(e == (bool)m.erase(x), "erase returned " << e); if (e) order.erase(std::find(order.begin(), order.end(), (IT)x)); }
      for (i64 y : ks.pool) { auto i = a.find(y); HCHECK((i != A::NOT_FOUND) == (bool)m.count(y), "find(" << y << ") after the last operation"); if (m.count(y)) HCHECK(a[i].key == (IT)y && a[i].value2 == m[y].first && (!m[y].first || a[i].value1 == m[y].second), "entry of key " << y << " is " << a[i].value1 << "," << a[i].value2 << " expected " << m[y].second << "," << m[y].first); }
    }
    if (m.size() > 1) ++*g_nontriv;
    std::vector<IT> ci(m.size() + 1, 77); std::vector<u64> cv(m.size() + 1, 77); IT *p = ci.data(); u64 *q = cv.data(); size_t want = 0; for (auto &e : m) want += e.second.first;
    bool srt = r.p(.5); int how = track ? r.in(0, 2) : r.in(0, 1); std::vector<IT> exporder;
    for (IT x : order) if (m[x].first) exporder.push_back(x);
    if (how == 2) { h << " gatherList" << srt; CASE(h.str()); if (srt) { a.template gatherList<true>(p, q); std::sort(exporder.begin(), exporder.end()); } else a.template gatherList<false>(p, q); }
    else if (how == 1) { h << " gather(keys)"; CASE(h.str()); a.gather(p, q, order.data(), order.data() + order.size()); if (track) { order.clear(); } }
    else { h << " gather"; CASE(h.str()); a.gather(p, q); exporder.clear(); }
    HCHECK((size_t)(p - ci.data()) == want && (size_t)(q - cv.data()) == want, "gathered " << p - ci.data() << " keys and " << q - cv.data() << " values, expected " << want);
    std::set<i64> seen; for (size_t i = 0; i < want; i++) { i64 x = ci[i]; HCHECK(m.count(x) && m[x].first && seen.insert(x).second && cv[i] == m[x].second, "gathered entry " << x << " -> " << cv[i]); if (how) HCHECK(x == exporder[i], "gathered key " << x << " at position " << i << " expected " << exporder[i]); }
    empties(a, slots, "gathering");
    if (track && how != 2) return; // the list of keys still names the removed ones
  }
}
int main(int c, char **v) { return drive(c, v, [](u64 seed, Rng &r) { switch (r.in(0, 3)) { case 0: setk<int32_t>(seed, r); break; case 1: setk<int64_t>(seed, r); break; case 2: mapv<int32_t>(seed, r); break; default: mapv<int64_t>(seed, r); } }); }
