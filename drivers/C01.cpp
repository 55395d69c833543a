// C01: exact rational arithmetic. Oracle: GMP's mpq.
#include "common.h"
#include "rational.h"
using namespace drv; using namespace NTL;
typedef mpq_class Q;
static Q q(const mpz_class &n, const mpz_class &d) { Q r(n, d); r.canonicalize(); return r; }
static Q Qof(const RationalNTL &r) { return q(Z(r.getNumerator()), Z(r.getDenominator())); }
static std::string sh(const RationalNTL &r) { return str(r.getNumerator()) + "/" + str(r.getDenominator()); }
static void want(const char *op, const RationalNTL &r, const Q &e) {
  mpz_class n = Z(r.getNumerator()), d = Z(r.getDenominator());
  if (!(n == e.get_num() && d == e.get_den())) fail(std::string(op), "got " + sh(r) + " expected (lowest terms, positive denominator) " + e.get_str());
}
static void wantb(const char *op, bool got, bool e) { if (got != e) fail(op, std::string("got ") + (got ? "true" : "false")); }
struct R { mpz_class n, d; RationalNTL r; Q v; };
static R gen() {
  R x; x.n = zint(); x.d = znz();
  if (coin(3)) { mpz_class g = znz(80); x.n *= g; x.d *= g; }
  x.r = RationalNTL(N(x.n), N(x.d)); x.v = q(x.n, x.d); return x;
}
static int sint() { switch (r64() % 5) { case 0: return INT32_MAX; case 1: return INT32_MIN; default: return (int)rnd(-40, 40); } }
static int snz() { int x; do x = sint(); while (!x); return x; }
int main(int c, char **v) {
  init(c, v);
  // small exhaustive part: all n/d, m/e with |n|,|m| <= 3, 1 <= |d|,|e| <= 3
  for (int n = -3; n <= 3; n++) for (int d = -3; d <= 3; d++) if (d) for (int m = -3; m <= 3; m++) for (int e = -3; e <= 3; e++) if (e) {
    begin("exhaustive"); cur = std::to_string(n) + "/" + std::to_string(d) + " , " + std::to_string(m) + "/" + std::to_string(e);
    RationalNTL a(n, d), b(m, e); Q A = q(n, d), B = q(m, e);
    want("construct", a, A); want("plus", a + b, A + B); want("minus", a - b, A - B); want("times", a * b, A * B);
    if (m) want("divide", a / b, A / B);
    wantb("eq", a == b, A == B); wantb("ne", a != b, A != B);
  }
  while (more()) {
    R a = gen(), b = gen(); mpz_class k = zint(), kz = znz(); int i = sint(), inz = snz(); long ll = coin() ? rnd(-50, 50) : (coin() ? INT64_MAX : INT64_MIN + 1);
    begin("ops");
    cur = "a=" + a.n.get_str() + "/" + a.d.get_str() + " b=" + b.n.get_str() + "/" + b.d.get_str() + " k=" + k.get_str() + " kz=" + kz.get_str() + " i=" + std::to_string(i) + " l=" + std::to_string(ll);
    want("ctor_zz", a.r, a.v);
    want("ctor_zi", RationalNTL(N(a.n), inz), q(a.n, inz)); want("ctor_iz", RationalNTL(i, N(a.d)), q(i, a.d)); want("ctor_ii", RationalNTL(i, inz), q(i, inz));
    want("ctor_ss", RationalNTL(a.n.get_str(), a.d.get_str()), a.v);
    want("ctor_s", RationalNTL(a.n.get_str() + "/" + a.d.get_str()), a.v); want("ctor_s1", RationalNTL(a.n.get_str()), Q(a.n));
    want("ctor_0", RationalNTL(), Q(0)); { RationalNTL cp(a.r); want("copy", cp, a.v); }
    want("plus", a.r + b.r, a.v + b.v); want("minus", a.r - b.r, a.v - b.v); want("times", a.r * b.r, a.v * b.v);
    want("times_z", a.r * N(k), a.v * k); want("times_i", a.r * i, a.v * i);
    if (b.v != 0) want("divide", a.r / b.r, a.v / b.v);
    want("divide_z", a.r / N(kz), a.v / kz);
    want("operands_changed", a.r, a.v); want("operands_changed", b.r, b.v);
    RationalNTL t;
#define M(op, expr, ex) { t = a.r; RationalNTL &rr = (expr); want(op, t, ex); if (&rr != &t) fail(op, "result is not the object"); }
    M("pluseq", t += b.r, a.v + b.v) M("minuseq", t -= b.r, a.v - b.v) M("timeseq", t *= b.r, a.v * b.v) M("timeseq_z", t *= N(k), a.v * k) M("timeseq_i", t *= i, a.v * i)
    M("add", t.add(b.r), a.v + b.v) M("add_zz", t.add(N(k), N(kz)), a.v + q(k, kz)) M("mult", t.mult(b.r), a.v * b.v) M("mult_zz", t.mult(N(k), N(kz)), a.v * q(k, kz)) M("mult_z", t.mult(N(k)), a.v * k)
    M("div_z", t.div(N(kz)), a.v / kz) if (b.v != 0) M("div", t.div(b.r), a.v / b.v)
    begin("alias");
    M("pluseq_self", t += t, a.v + a.v) M("minuseq_self", t -= t, Q(0)) M("timeseq_self", t *= t, a.v * a.v) M("add_self", t.add(t), a.v + a.v) M("mult_self", t.mult(t), a.v * a.v)
    if (a.v != 0) M("div_self", t.div(t), Q(1))
    M("assign_self", t = t, a.v)
    { t = a.r; want("minus_self", t - t, Q(0)); want("plus_self", t + t, a.v + a.v); want("times_self", t * t, a.v * a.v); if (a.v != 0) want("divide_self", t / t, Q(1)); wantb("eq_self", t == t, true); }
    begin("assign");
    M("assign", t = b.r, b.v) M("assign_l", t = ll, Q(mpz_class(ll))) M("assign_z", t = N(k), Q(k))
    { t = a.r; t.changeSign(); want("changeSign", t, -a.v); t.changeSign(); want("changeSign2", t, a.v); }
    begin("power");
    { long e = rnd(-9, 9); mpz_class pn, pd; R s = a; if (coin()) { s.n = rnd(-9, 9); s.d = rnd(1, 9); s.r = RationalNTL(N(s.n), N(s.d)); s.v = q(s.n, s.d); }
      if (e >= 0 || s.v != 0) { unsigned long ae = e < 0 ? -e : e; mpz_pow_ui(pn.get_mpz_t(), s.v.get_num_mpz_t(), ae); mpz_pow_ui(pd.get_mpz_t(), s.v.get_den_mpz_t(), ae); Q ex = e >= 0 ? q(pn, pd) : q(pd, pn);
        cur += " base=" + s.v.get_str() + " e=" + std::to_string(e);
        want("power_s", RationalNTL::power(s.r, e), ex); t = s.r; t.power(e); want("power", t, ex); } }
    begin("compare");
    wantb("eq", a.r == b.r, a.v == b.v); wantb("ne", a.r != b.r, a.v != b.v); wantb("eq_l", a.r == ll, a.v == mpz_class(ll)); wantb("ne_l", a.r != ll, a.v != mpz_class(ll)); wantb("eq_z", a.r == N(k), a.v == k);
    { RationalNTL same(N(a.n * kz), N(a.d * kz)); wantb("eq_same", a.r == same, true); wantb("ne_same", a.r != same, false); RationalNTL w(N(k), 1); wantb("eq_int", w == N(k), true); RationalNTL x(N(mpz_class(ll)), 1); wantb("eq_int_l", x == ll, true); wantb("ne_int_l", x != ll, false); }
    begin("text");
    { if (str(a.r) != a.v.get_str() || a.r.str() != a.v.get_str()) fail("str", "got " + a.r.str() + " expected " + a.v.get_str());
      static const char *ws[] = {"", " ", "  ", "\t", "\n "}; static const char *tails[] = {"", "]x", " tail", "blah", " "};
      bool fr = coin(); std::string tail = tails[r64() % 5];
      std::string s = std::string(ws[r64() % 5]) + (a.n >= 0 && coin() ? "+" : "") + a.n.get_str() + (fr ? std::string(ws[r64() % 5]) + "/" + ws[r64() % 5] + a.d.get_str() : std::string()) + tail;
      std::istringstream in(s); RationalNTL x; in >> x; cur = "stream text '" + s + "'"; want("read", x, fr ? a.v : Q(a.n));
      std::string rest, expect = tail; std::getline(in, rest, '\0');
      auto strip = [](std::string z) { size_t p = z.find_first_not_of(" \t\n"); return p == std::string::npos ? std::string() : z.substr(p); };
      if (strip(rest) != strip(expect)) fail("read_rest", "left '" + rest + "' in the stream, expected '" + expect + "'"); 
      std::istringstream in2(a.r.str()); RationalNTL y; in2 >> y; want("roundtrip", y, a.v); }
    begin("vector");
    { int n = (int)rnd(0, 5), m; vec_RationalNTL x, y; x.SetLength(n); y.SetLength(n); Q s = 0; std::vector<Q> xs; cur = "vectors of length " + std::to_string(n) + ":";
      for (int j = 0; j < n; j++) { R g = gen(), h = gen(); x[j] = g.r; y[j] = h.r; xs.push_back(g.v); s += g.v * h.v; cur += " " + g.v.get_str() + "*" + h.v.get_str(); }
      want("inner", vec_RationalNTL::innerProduct(x, y), s); if (x.length() != n) fail("length", "length " + std::to_string(x.length()));
      vec_RationalNTL z(x), w; w = x; m = (int)rnd(0, 7); w.SetLength(m);
      for (int j = 0; j < n; j++) { want("vcopy", z[j], xs[j]); const vec_RationalNTL &cz = z; want("vindex", cz[j], xs[j]); }
      if (w.length() != m) fail("setlength", "wrong length"); for (int j = 0; j < m; j++) want("setlength_entries", w[j], j < n ? xs[j] : Q(0));
      for (int j = 0; j < n; j++) want("vsource", x[j], xs[j]);
      w.kill(); if (w.length() != 0) fail("kill", "length after kill"); w = x; w.SetLength(n); for (int j = 0; j < n; j++) want("vassign", w[j], xs[j]); }
  }
  return done();
}
