// C02: rational vectors. Oracle: std::vector<mpq_class>.
#include "common.h"
#include "rational.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> VZ; typedef std::vector<mpq_class> VQ;
static vec_ZZ V(const VZ &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static mpq_class q(const mpz_class &n, const mpz_class &d) { mpq_class r(n, d); r.canonicalize(); return r; }
static VQ val(const rationalVector &v, const char *k) { VQ r; int n = v.numerators().length(); if (v.denominators().length() != n) { fail(k, "numerator and denominator lengths differ"); return r; }
  for (int i = 0; i < n; i++) { mpz_class d = Z(v.denominators()[i]); if (d <= 0) { fail(k, "denominator " + d.get_str()); return VQ(); } r.push_back(q(Z(v.numerators()[i]), d)); } return r; }
static std::string sh(const VQ &v) { std::string s = "("; for (auto &x : v) s += x.get_str() + " "; return s + ")"; }
static void want(const char *k, const rationalVector &v, const VQ &e) { VQ g = val(v, k); if (g != e) fail(k, "got " + sh(g) + " expected " + sh(e)); }
static void scale(const char *k, rationalVector *v, const VQ &e) { ZZ f; vec_ZZ s = scaleRationalVectorToInteger(v, e.size(), f); mpz_class F = Z(f); if (F <= 0) { fail(k, "scale factor " + F.get_str()); return; }
  if (s.length() != (long)e.size()) { fail(k, "wrong length"); return; } for (size_t i = 0; i < e.size(); i++) if (q(Z(s[i]), F) != e[i]) fail(k, "entry " + std::to_string(i) + " scaled to " + Z(s[i]).get_str() + "/" + F.get_str() + " expected " + e[i].get_str()); }
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    int n = rnd(0, 6); bool small = coin(); VZ num, den; VQ e; 
    for (int i = 0; i < n; i++) { mpz_class a = small ? mpz_class(rnd(-12, 12)) : zint(120), b = abs(small ? mpz_class(rnd(1, 12)) : znz(90)), g = coin(3) ? abs(znz(20)) : mpz_class(1); num.push_back(a * g); den.push_back(b * g); e.push_back(q(a, b)); }
    cur = "vector"; for (int i = 0; i < n; i++) cur += " " + num[i].get_str() + "/" + den[i].get_str();
    begin("construct");
    { rationalVector z(n); want("zero", z, VQ(n)); rationalVector *p = createRationalVector(n); want("create", *p, VQ(n)); scale("create-scale", p, VQ(n)); delete p; 
      mpz_class d = abs(znz(80)); rationalVector r(V(num), N(d)); VQ f; for (auto &x : num) f.push_back(q(x, d)); want("one-denominator", r, f); scale("one-denominator-scale", &r, f);
      vector<RationalNTL> w; for (int i = 0; i < n; i++) w.push_back(RationalNTL(N(num[i]), N(den[i]))); rationalVector s(w); want("from-rationals", s, e); scale("from-rationals-scale", &s, e); }
    rationalVector x(V(num), V(den)); want("from-vectors", x, e); scale("scale", &x, e); scale("scale-again", &x, e); want("scale-keeps", x, e);
    begin("edit");
    { VQ f = e; for (int t = rnd(0, 3); t > 0 && n; t--) { int i = rnd(0, n - 1); mpz_class a = zint(60), b = abs(znz(60)); int k = rnd(0, 3); cur += " set" + std::to_string(k) + "[" + std::to_string(i) + "]=" + a.get_str() + "/" + b.get_str();
        if (k < 2) { x.set_entry(i, N(a), N(b), k == 1); f[i] = q(a, b); } else if (k == 2) { mpz_class d = Z(x.denominators()[i]); x.set_numerator(i, N(a)); f[i] = q(a, d); } else { mpz_class m = Z(x.numerators()[i]); x.set_denominator(i, N(b)); f[i] = q(m, b); } 
        want("set", x, f); if (coin()) scale("set-scale", &x, f); }
      e = f; scale("edit-scale", &x, e);
      for (int i = 0; i < n; i++) { ZZ a, b; x.getEntry(i, a, b); if (Z(a) != Z(x.numerators()[i]) || Z(b) != Z(x.denominators()[i])) fail("get", "entry " + std::to_string(i)); } }
    rationalVector *y = copyRationalVector(&x); want("copy", *y, e);
    begin("canonicalize");
    { rationalVector *z = copyRationalVector(&x); canonicalizeRationalVector(z, n); want("canonicalize", *z, e); scale("canonicalize-scale", z, e);
      for (int i = 0; i < n; i++) if (Z(z->numerators()[i]) != e[i].get_num() || Z(z->denominators()[i]) != e[i].get_den()) fail("canonical-form", "entry " + std::to_string(i) + " is " + Z(z->numerators()[i]).get_str() + "/" + Z(z->denominators()[i]).get_str()); 
      delete z; }
    begin("multiply");
    { mpz_class a = zint(80), b = abs(znz(80)); rationalVector z(x); z.scalarMultiplication(N(a), N(b)); VQ f; for (auto &t : e) f.push_back(t * q(a, b)); cur += " times " + a.get_str() + "/" + b.get_str(); want("multiply", z, f); scale("multiply-scale", &z, f); }
    begin("normalize");
    { rationalVector *z = copyRationalVector(&x); normalizeRationalVector(z, n); VQ g = val(*z, "normalize"); if ((int)g.size() == n) { mpq_class k = 0; bool ok = true;
        for (int i = 0; i < n; i++) { if (Z(z->denominators()[i]) != 1) ok = false; if (e[i] != 0 && k == 0) k = g[i] / e[i]; } if (k == 0) k = 1; if (k < 0) ok = false; for (int i = 0; i < n; i++) if (g[i] != k * e[i]) ok = false;
        if (!ok) fail("normalize", "got " + sh(g) + " from " + sh(e)); scale("normalize-scale", z, g); } delete z; }
    want("copy-independent", *y, e);
    begin("ray");
    { VZ n2, d2; VQ f; for (int i = 0; i < n; i++) { mpz_class a = small ? mpz_class(rnd(-12, 12)) : zint(90), b = abs(small ? mpz_class(rnd(1, 12)) : znz(60)); if (coin(4)) { a = e[i].get_num(); b = e[i].get_den(); } n2.push_back(a); d2.push_back(b); f.push_back(q(a, b)); }
      if (f != e) { rationalVector w(V(n2), V(d2)); cur += " to " + sh(f); vec_ZZ r = constructRay(&x, &w, n); mpq_class k = 0; mpz_class g = 0; bool ok = r.length() == n; 
        for (int i = 0; ok && i < n; i++) { mpq_class d = f[i] - e[i]; mpz_class ri = Z(r[i]); g = gcd(g, ri); if (d == 0) { if (ri != 0) ok = false; } else if (k == 0) k = mpq_class(ri) / d; if (mpq_class(ri) != k * d && k != 0) ok = false; }
        if (!ok || k <= 0 || g != 1) { std::string s; for (int i = 0; i < r.length(); i++) s += Z(r[i]).get_str() + " "; fail("ray", "got ( " + s + ")"); } want("ray-keeps", x, e); want("ray-keeps", w, f); } }
    delete y;
  }
  return done();
}
