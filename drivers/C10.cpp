// C10: Taylor and Todd series. Oracle: defining identities over mpq_class (products of truncated series, Bernoulli-free closed checks).
#include "common.h"
#include "todd/todd-expansion.h"
using namespace drv;
typedef std::vector<mpq_class> Ser;
static std::string sh(const Ser &l) { std::string s = "["; for (auto &e : l) s += e.get_str() + " "; return s + "]"; }
static Ser mul(const Ser &a, const Ser &b, size_t n) { Ser c(n); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size() && i + j < n; j++) c[i + j] += a[i] * b[j]; return c; }
static mpq_class pw(const mpq_class &x, int k) { mpq_class r(1); while (k-- > 0) r *= x; return r; }
static mpq_class fac(int k) { mpq_class r(1); for (int i = 2; i <= k; i++) r *= i; return r; }
static mpq_class rat(int bits) { mpq_class q(coin(4) ? mpz_class(0) : zint(bits), znz(bits)); q.canonicalize(); return q; }
static void canon(const Ser &s) { for (auto &e : s) { mpq_class q(e); q.canonicalize(); if (mpz_cmp(q.get_num_mpz_t(), e.get_num_mpz_t()) || mpz_cmp(q.get_den_mpz_t(), e.get_den_mpz_t())) fail("canonical", sh(s)); } }
static void shape(const char *k, const Ser &s, size_t n) { if (s.size() != n) fail(k, "length " + std::to_string(s.size()) + " instead of " + std::to_string(n)); canon(s); }
static void expo(int n) { cur = "exponential of order " + std::to_string(n); Ser e = taylor_exponential(n); shape("exponential", e, n + 1); if ((int)e.size() == n + 1) for (int i = 0; i <= n; i++) if (e[i] * fac(i) != 1) { fail("exponential", sh(e)); return; } }
// t/(1-exp t) * (1-exp t)/t = 1
static void forTodd(int n) { cur = "t/(1-exp t) of order " + std::to_string(n); Ser e = taylor_for_todd(n); shape("factor", e, n + 1); if ((int)e.size() != n + 1) return; Ser d(n + 1); for (int i = 0; i <= n; i++) d[i] = -1 / fac(i + 1); Ser p = mul(e, d, n + 1); for (int i = 0; i <= n; i++) if (p[i] != (i == 0 ? 1 : 0)) { fail("factor", sh(e)); return; } }
static void recip(const Ser &a) { cur = "reciprocal of " + sh(a); Ser b = taylor_reciprocal(a); shape("reciprocal", b, a.size()); if (b.size() != a.size()) return; Ser p = mul(a, b, a.size()); for (size_t i = 0; i < p.size(); i++) if (p[i] != (i == 0 ? 1 : 0)) { fail("reciprocal", sh(b)); return; } }
static void prod(const std::vector<Ser> &l) { cur = "product of"; for (auto &s : l) cur += " " + sh(s); std::vector<Ser> keep(l); Ser r = taylor_product(l); size_t n = l.empty() ? 1 : l[0].size(); for (auto &s : l) n = std::min(n, s.size()); shape("product", r, n); if (r.size() != n) return; Ser w(n); if (n) w[0] = 1; for (auto &s : l) w = mul(w, s, n); if (w != r) fail("product", sh(r)); if (keep != l) fail("input", "the factors changed"); }
static void todd(const std::vector<mpz_class> &x) {
  cur = "Todd polynomials at"; for (auto &e : x) cur += " " + e.get_str(); std::vector<mpz_class> keep(x); Ser r = evaluate_todd(x); int d = x.size(); shape("todd", r, d + 1); if ((int)r.size() != d + 1) return;
  // r * prod (1-exp(x_i t))/(x_i t) = 1
  Ser w(r); for (auto &e : x) { Ser f(d + 1); for (int k = 0; k <= d; k++) f[k] = -pw(mpq_class(e), k) / fac(k + 1); w = mul(w, f, d + 1); }
  for (int k = 0; k <= d; k++) if (w[k] != (k == 0 ? 1 : 0)) { fail("todd", sh(r)); return; }
  if (keep != x) fail("input", "the argument changed");
}
int main(int c, char **v) {
  init(c, v); Quiet qt; drv::begin("orders");
  for (int n = 0; n <= 24; n++) { expo(n); forTodd(n); }
  prod({}); todd({}); for (int a = -2; a <= 2; a++) { todd({mpz_class(a)}); for (int b = -2; b <= 2; b++) { todd({mpz_class(a), mpz_class(b)}); for (int e = -2; e <= 2; e++) todd({mpz_class(a), mpz_class(b), mpz_class(e)}); } }
  while (more()) { drv::begin("random");
    if (coin(6)) { expo(rnd(0, 90)); forTodd(rnd(0, 60)); }
    { Ser a(rnd(1, 9)); int b = rnd(1, 90); for (auto &e : a) e = rat(b); if (a[0] == 0) a[0] = znz(b); recip(a); }
    { std::vector<Ser> l(rnd(0, 4)); int n = rnd(1, 7), b = rnd(1, 60); bool eq = coin(); for (auto &s : l) { s.resize(eq ? n : rnd(1, 8)); for (auto &e : s) e = rat(b); } prod(l); }
    { std::vector<mpz_class> x(rnd(1, 9)); int b = rnd(1, 120); for (auto &e : x) e = coin(5) ? mpz_class(0) : coin(5) ? mpz_class(rnd(-1, 1)) : zint(b); todd(x); }
  }
  return done();
}
