// Runtime contract validation / failing-input search on the real code.
// Each harness program is compiled from /repo's headers on every run.
#pragma once
#include <bits/stdc++.h>
#include <fcntl.h>
#include <omp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
typedef uint64_t u64; typedef int64_t i64;
struct Rng { u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  i64 in(i64 a, i64 b) { return b <= a ? a : a + (i64)(next() % (u64)(b - a + 1)); }
  bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + in(0, l.size() - 1)); } };
inline u64 mix(u64 x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; return x ^ (x >> 33); }
// opaque operators: mul is neither commutative nor associative; OAdd is order-sensitive, CAdd is commutative and associative
struct HMul { u64 operator()(u64 a, u64 b) const { return mix(a * 3 + 1) ^ (mix(b * 5 + 7) * 0x9E3779B97F4A7C15ull); } };
struct OAdd { u64 operator()(u64 a, u64 b) const { return mix(a * 0x10001 + 3) * 31 + mix(b) * 17 + 1; } };
struct CAdd { u64 operator()(u64 a, u64 b) const { return a + b; } };

// ---- reporting: the running case is described in shared memory so that a crash can be reported with its input
static char *g_case; static u64 *g_count, *g_nontriv; static const size_t CASESZ = 1 << 20;
static std::string g_kind;
inline void setcase(const std::string &s) { size_t n = std::min(s.size(), CASESZ - 1); memcpy(g_case, s.data(), n); g_case[n] = 0; }
struct Fail { std::string msg; };
#define HCHECK(c, ...) do { if (!(c)) { std::ostringstream o_; o_ << #c << "  " << __VA_ARGS__; throw Fail{o_.str()}; } } while (0)

// runs `body(seed, rng)` on cases seed0, seed0+1, ... in forked batches, until `seconds` have passed
// prints  CASES n NONTRIVIAL m   and for a failure   FAILURE <message> \n <case text>
inline int drive(int argc, char **argv, const std::function<void(u64, Rng &)> &body, int per_case_s = 20) {
  g_case = (char *)mmap(0, CASESZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_count = (u64 *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_nontriv = g_count + 1;
  u64 *cur = g_count + 2;
  u64 seed0 = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 5; u64 maxn = argc > 3 ? strtoull(argv[3], 0, 10) : ~0ull;
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  u64 k = 0;
  while (k < maxn && (k == 0 || el() < secs)) {
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      int dn = open("/dev/null", 1); if (!getenv("HVERBOSE")) { dup2(dn, 1); }
      for (u64 i = 0; i < 400 && k + i < maxn; i++) {
        if (i && el() > secs) break;
        *cur = k + i; setcase("seed=" + std::to_string(seed0 * 1000000 + k + i));
        alarm(per_case_s);
        Rng r(seed0 * 1000000 + k + i);
        try { body(seed0 * 1000000 + k + i, r); }
        catch (Fail &f) { std::string s = g_case; setcase(f.msg + "\n" + s); _exit(77); }
        catch (std::exception &e) { std::string s = g_case; setcase(std::string("exception ") + e.what() + "\n" + s); _exit(77); }
        ++*g_count;
      }
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      std::string why = WIFEXITED(st) ? (WEXITSTATUS(st) == 77 ? "" : "the run ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit, see above)\n")
                       : WTERMSIG(st) == SIGALRM ? "no result within " + std::to_string(per_case_s) + " s (does not terminate?)\n" : std::string("the run was ended by signal ") + strsignal(WTERMSIG(st)) + "\n";
      printf("CASES %llu NONTRIVIAL %llu\nFAILURE %s%s\n", (unsigned long long)*g_count, (unsigned long long)*g_nontriv, why.c_str(), g_case);
      return 1;
    }
    k = *cur + 1;
  }
  printf("CASES %llu NONTRIVIAL %llu\nLAST %s\n", (unsigned long long)*g_count, (unsigned long long)*g_nontriv, g_case);
  return 0;
}
template<class T> std::string show(const T *a, size_t n) { std::ostringstream o; o << "["; for (size_t i = 0; i < n && i < 4000; i++) o << (i ? " " : "") << +a[i]; if (n > 4000) o << " ..."; o << "]"; return o.str(); }
template<class V> std::string show(const V &v) { return show(v.data(), v.size()); }
