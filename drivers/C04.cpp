// C04: conversions between number types. Oracle: decimal text.
#include "common.h"
#include <csignal>
#include <csetjmp>
#include <climits>
#include "latte_ntl.h"
#include "latte_gmp.h"
using namespace drv; using namespace NTL;
ZZ convert_mpq_to_ZZ(mpq_class);
static std::string str(const ZZ &z) { std::ostringstream o; o << z; return o.str(); }
static sigjmp_buf jb; static void onabort(int) { siglongjmp(jb, 1); }
static void one(const mpz_class &x) {
  cur = "number " + x.get_str(); ZZ z; { std::istringstream i(x.get_str()); i >> z; }
  mpz_class y = convert_ZZ_to_mpz(z); if (y.get_str() != x.get_str()) fail("to-mpz", y.get_str());
  mpz_class w(coin() ? 77 : -5); convert_ZZ_to_mpz(z, w); if (w != x) fail("to-mpz:out", w.get_str());
  ZZ b = convert_mpz_to_ZZ(x); if (str(b) != x.get_str()) fail("to-zz", str(b)); if (b != z || sign(b) != sgn(x)) fail("to-zz:sign", str(b));
  mpq_class q = convert_ZZ_to_mpq(z); if (q.get_num() != x || q.get_den() != 1) fail("to-mpq", q.get_str()); ZZ (*qz)(mpq_class) = &convert_mpq_to_ZZ; ZZ c = qz(mpq_class(x)); if (str(c) != x.get_str()) fail("from-mpq", str(c));
  if (str(z) != x.get_str()) fail("input", "the argument changed");
  bool fits = abs(x) <= INT_MAX; volatile bool died = false; volatile int r = 0; struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = onabort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, &old);
  if (!sigsetjmp(jb, 1)) r = convert_ZZ_to_int(z); else died = true; sigaction(SIGABRT, &old, 0);
  if (died ? fits : x != (int)r) fail("to-int", died ? std::string("refused") : std::to_string((int)r));
}
int main(int c, char **v) {
  init(c, v); Quiet qt; drv::begin("boundaries");
  for (int e = 0; e <= 200; e++) for (int d = -2; d <= 2; d++) { mpz_class p = (mpz_class(1) << e) + d; one(p); one(-p); }
  while (more()) { drv::begin("numbers"); one(zint(rnd(1, 700)));
    drv::begin("vectors"); int n = rnd(0, 9), bits = rnd(1, 120); vec_ZZ a, b; a.SetLength(n); b.SetLength(n); std::vector<mpz_class> w(n), u(n); cur = "vector"; for (int i = 0; i < n; i++) { w[i] = coin(5) ? mpz_class(0) : zint(bits); a[i] = N(w[i]); u[i] = zint(bits); b[i] = N(u[i]); cur += " " + w[i].get_str(); }
    mpz_vector r = convert_vec_ZZ_to_mpz_vector(a); if (std::vector<mpz_class>(r.begin(), r.end()) != w) fail("vector", "entries differ"); int x = rnd(0, 3); mpz_vector s(n + x, mpz_class(9)); convert_vec_ZZ_to_mpz_vector(a, s); bool ok = (int)s.size() == n + x; for (int i = 0; ok && i < n + x; i++) ok = i < n ? s[i] == w[i] : s[i] == 9; if (!ok) fail("vector:out", "entries differ");
    mpz_class m = znz(rnd(1, 150)), d(0), t; for (int i = 0; i < n; i++) d += w[i] * u[i]; mpz_fdiv_r(t.get_mpz_t(), d.get_mpz_t(), m.get_mpz_t()); ZZ res; InnerProductModulo(res, a, b, N(m)); if (Z(res) != t) fail("modulo", Z(res).get_str() + " instead of " + t.get_str() + " modulo " + m.get_str());
  }
  return done();
}
