// Support for the drivers: seeded generator, time budget, failure reporting.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <gmpxx.h>
#include <NTL/ZZ.h>
#include <NTL/vec_ZZ.h>
#include <NTL/mat_ZZ.h>
namespace drv {
static uint64_t S = 1;
inline uint64_t r64() { uint64_t z = (S += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline long rnd(long a, long b) { return a + (long)(r64() % (uint64_t)(b - a + 1)); }
inline bool coin(int n = 2) { return r64() % n == 0; }
static std::map<std::string, long> groups;
static long cases = 0;
static std::set<std::string> seen;
static std::string cur = "(none)", curgroup = "start";
static int nfail = 0;
inline std::string clean(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; if (s.size() > 1500) s = s.substr(0, 1500) + "..."; return s; }
inline void fail(const std::string &key, const std::string &what) {
  if (!seen.insert(key).second) return;
  printf("FAIL %s %s\n", key.c_str(), clean(what + " ; case: " + cur).c_str()); fflush(stdout); nfail++;
}
static void onsig(int s) {
  char b[2048]; int n = snprintf(b, sizeof b, "FAIL %s:signal%d the code died with signal %d%s ; case: %s\n", curgroup.c_str(), s, s, s == SIGALRM ? " (no termination within 30 s)" : "", clean(cur).c_str());
  if (n > (int)sizeof b - 1) { n = sizeof b - 1; b[n - 1] = '\n'; }
  if (write(1, b, n)) {}
  _exit(1);
}
extern "C" void __asan_on_error() { onsig(0); }
extern "C" void __ubsan_on_report() { onsig(100); }
static std::chrono::steady_clock::time_point T0; static double budget = 5;
inline bool more(double f = 1) { alarm(30); if (nfail && std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > std::min(budget, 6.0)) return false; return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() < budget * f; }
inline void begin(const char *group) { curgroup = group; groups[group]++; cases++; }
template <class T> std::string str(const T &x) { std::ostringstream o; o << x; return o.str(); }
inline mpz_class Z(const NTL::ZZ &z) { return mpz_class(str(z)); }
inline NTL::ZZ N(const mpz_class &m) { NTL::ZZ z; std::istringstream i(m.get_str()); i >> z; return z; }
// small numbers, numbers at word boundaries, big numbers
inline mpz_class zint(int maxbits = 200) {
  switch (r64() % 8) {
  case 0: case 1: case 2: return mpz_class(rnd(-6, 6));
  case 3: return mpz_class(rnd(-60, 60));
  case 4: return mpz_class(rnd(-100000, 100000));
  case 5: { if (maxbits < 30) return mpz_class(rnd(-9, 9)); static const int ks[] = {29, 30, 31, 32, 33, 49, 50, 51, 59, 60, 61, 62, 63, 64, 65, 127, 128}; int k = ks[r64() % 17]; if (k > maxbits) k = maxbits - 1;
    mpz_class m = (mpz_class(1) << k) + rnd(-2, 2); return coin() ? m : -m; }
  default: { int bits = rnd(1, maxbits); mpz_class m = 0; for (int i = 0; i < bits; i += 32) m = (m << 32) + (unsigned long)(r64() >> 32); m >>= ((bits + 31) / 32 * 32 - bits); return coin() ? m : -m; }
  }
}
inline mpz_class znz(int maxbits = 200) { mpz_class m; do m = zint(maxbits); while (m == 0); return m; }
inline void init(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; S = seed * 0x2545F4914F6CDD1DULL + 12345; r64(); r64();
  budget = argc > 2 ? atof(argv[2]) : 5; T0 = std::chrono::steady_clock::now();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  alarm(30);
}
inline int done() {
  alarm(0);
  std::string g; for (auto &p : groups) g += (g.empty() ? "" : ", ") + ("\"" + p.first + "\": " + std::to_string(p.second));
  printf("STATS {\"cases\": %ld, \"groups\": {%s}}\n", cases, g.c_str()); fflush(stdout);
  return nfail ? 1 : 0;
}
// silence the chatter of the code under test
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
}
#endif
