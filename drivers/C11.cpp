// C11: contribution of a cone by the exponential substitution. Oracle: Laurent series over mpq_class, and counting by inspection for simplices.
#include "common.h"
#include "cone.h"
#include "dual.h"
#include "genFunction/piped.h"
#include "ExponentialSubst.h"
#include "latte_gmp.h"
#include "barvinok/barvinok.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M;
static vec_ZZ V(const R &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static R W(const vec_ZZ &v) { R r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static M back(const listVector *p) { M l; int g = 0; for (; p && g < 100000; p = p->rest, g++) l.push_back(W(p->first)); return l; }
static listVector *build(const M &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) r = new listVector(V(l[i]), r); return r; }
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static mpz_class dotp(const R &a, const R &b) { mpz_class s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
static M gen(int n) {
  M a(n, R(n));
  for (;;) {
    int kind = rnd(0, 4);
    if (kind <= 2) { int lim = n == 1 ? 300 : n <= 3 ? rnd(1, 8) : rnd(1, 3); for (auto &r : a) for (auto &x : r) x = rnd(-lim, lim); }
    else if (kind == 3) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? (coin() ? 1 : -1) * mpz_class(rnd(1, 7)) : mpz_class(0); }
    else { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? (coin() ? 1 : -1) : 0; }
    if (kind >= 3 || coin(3)) for (int t = rnd(0, 6); t > 0 && n > 1; t--) { int i = rnd(0, n - 1), j = rnd(0, n - 1); if (i == j) continue; mpz_class q = coin(5) ? znz(70) : znz(6); if (coin()) for (int k = 0; k < n; k++) a[i][k] += q * a[j][k]; else for (int k = 0; k < n; k++) a[k][i] += q * a[k][j]; }
    if (coin()) std::swap(a[0], a[n - 1]);
    mpz_class d = abs(detm(a)); if (d == 0 || d > 1200) continue;
    bool ok = true; for (auto &r : a) { mpz_class g = 0; for (auto &x : r) g = gcd(g, x); if (g == 0) ok = false; }
    if (ok) return a;
  }
}
typedef std::vector<mpq_class> Ser;
static mpq_class pw(const mpz_class &x, int k) { mpz_class r(1); while (k-- > 0) r *= x; return mpq_class(r); }
static mpq_class fac(int k) { mpz_class r(1); for (int i = 2; i <= k; i++) r *= i; return mpq_class(r); }
static Ser mul(const Ser &a, const Ser &b, int n) { Ser c(n); for (int i = 0; i < n; i++) for (int j = 0; i + j < n; j++) c[i + j] += a[i] * b[j]; return c; }
static Ser inv(const Ser &a, int n) { Ser b(n); for (int i = 0; i < n; i++) { mpq_class t(i == 0 ? 1 : 0); for (int j = 1; j <= i; j++) t -= a[j] * b[i - j]; b[i] = t / a[0]; } return b; }
static listCone *cone(const M &a, const R &vn, const R &vd, int coef) { int n = a.size(); listCone *k = createListCone(); k->rays = build(a); k->coefficient = coef; rationalVector *rv = new rationalVector(n); for (int i = 0; i < n; i++) rv->set_entry(i, N(vn[i]), N(vd[i])); k->vertex = new Vertex(rv); computeDetAndFacetsOfSimplicialCone(k, n); return k; }
static void one() {
  int n = rnd(1, 4); if (coin(6)) n = rnd(5, 7); M a = gen(n); R vn(n), vd(n), gv(n); int big = coin(3) ? 90 : 6;
  for (int i = 0; i < n; i++) { vn[i] = zint(big); vd[i] = coin() ? mpz_class(1) : abs(znz(5)); gv[i] = coin(5) ? mpz_class(rnd(-1, 1)) : zint(big); }
  BarvinokParameters pa; pa.Number_of_Variables = n; pa.smithform = BarvinokParameters::IlioSmithForm;
  int coef = rnd(-3, 3); listCone *k = cone(a, vn, vd, coef); M f = back(k->facets), r = back(k->rays); mpz_class det = Z(k->determinant); vec_ZZ g = V(gv);
  cur = "rays " + sh(r) + "vertex " + sh(M{vn, vd}) + "vector " + sh(M(1, gv)); drv::begin("residue");
  R x(n); bool gen = true; mpz_class P(1); for (int i = 0; i < n; i++) { x[i] = dotp(gv, r[i]); if (x[i] == 0) gen = false; P *= x[i]; }
  if (coin()) computePointsInParallelepiped(k, n, &pa); M before = back(k->latticePoints);
  bool threw = false; mpq_class res; try { res = computeExponentialResidue_Single(g, k, n, &pa); } catch (NotGenericException) { threw = true; }
  if (threw == gen) { fail("generic", threw ? "refused a vector orthogonal to no ray" : "accepted a vector orthogonal to a ray"); freeCone(k); return; }
  if (gen) {
    // weights: coefficients of prod x_i t / (1 - exp(x_i t)), over prod x_i and k!
    Ser t(n + 1); t[0] = 1; for (auto &e : x) { Ser q(n + 1); for (int j = 0; j <= n; j++) q[j] = -pw(e, j) / fac(j + 1); t = mul(t, inv(q, n + 1), n + 1); }
    mpz_class pp; mpq_vector w = computeExponentialResidueWeights(g, pp, k, n), w2 = computeExponentialResidueWeights(g, k, n); if (pp != P) fail("product", "product of the scalar products " + pp.get_str()); if (w != w2) fail("overload", "the two ways to get the weights differ");
    if ((int)w.size() != n + 1) fail("weights:length", std::to_string(w.size())); else for (int j = 0; j <= n; j++) if (w[j] != t[n - j] / P / fac(j)) { fail("weights", "weight " + std::to_string(j) + " is " + w[j].get_str()); break; }
    R pr = W(k->lattice_points_scalar_products); mpq_class want; R sm(n + 1); for (auto &s : pr) { mpz_class q = 1; for (int j = 0; j <= n; j++) { sm[j] += q; want += mpq_class(q) / fac(j) * t[n - j] / P; q *= s; } }
    if (mpz_class((unsigned long)pr.size()) != abs(det)) fail("points", std::to_string(pr.size()) + " scalar products for index " + det.get_str());
    if (res != want * coef) fail("residue", "residue " + res.get_str() + " instead of " + mpq_class(want * coef).get_str());
    { vec_ZZ o; o.SetLength(n); for (int i = 0; i < n; i++) o[i] = N(zint(20)); R s2(n + 1); vec_ZZ got = compute_sums_of_scalar_powers(k, n, o, &pa); computePointsInParallelepiped(k, n, &pa); for (auto &y : back(k->latticePoints)) { mpz_class d = dotp(W(o), y), q = 1; for (int j = 0; j <= n; j++) { s2[j] += q; q *= d; } } if (W(got) != s2) fail("sums:other", "sums of powers for another vector"); }
    if (W(compute_sums_of_scalar_powers(k, n, g, &pa)) != sm) fail("sums", "sums of powers"); mpz_vector sz = compute_sums_of_scalar_powers_mpz(k, n, g, &pa); if (R(sz.begin(), sz.end()) != sm) fail("sums", "converted sums of powers");
    if (!r.empty()) { int e = rnd(0, 9); mpz_class q = 1; for (int j = 0; j < e; j++) q *= x[0]; if (Z(scalar_power(g, V(r[0]), e)) != q) fail("power", "power " + std::to_string(e)); mpz_class sum = 0; for (auto &y : x) { mpz_class z = 1; for (int j = 0; j < e; j++) z *= y; sum += z; }  }
  }
  if (back(k->rays) != r || back(k->facets) != f || Z(k->determinant) != det || k->coefficient != coef || (!before.empty() && back(k->latticePoints) != before) || W(g) != gv) fail("input", "the cone or the vector changed");
  freeCone(k);
}
static void simplex() {   // all cones of a lattice simplex: the count
  int n = rnd(1, 3), lim = n == 3 ? 4 : 7; M p(n + 1, R(n)); M e(n, R(n)); do { for (auto &q : p) for (auto &y : q) y = rnd(-lim, lim); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i][j] = p[i + 1][j] - p[0][j]; } while (detm(e) == 0);
  drv::begin("simplex"); cur = "simplex " + sh(p); BarvinokParameters pa; pa.Number_of_Variables = n; pa.smithform = BarvinokParameters::IlioSmithForm; listCone *l = 0; mpz_class D = detm(e);
  for (int v = 0; v <= n; v++) { M a; for (int j = 0; j <= n; j++) if (j != v) { R r(n); mpz_class g = 0; for (int i = 0; i < n; i++) { r[i] = p[j][i] - p[v][i]; g = gcd(g, r[i]); } for (auto &y : r) y /= g; a.push_back(r); } listCone *k = cone(a, p[v], R(n, 1), 1); k->rest = l; l = k; }
  long cnt = 0; R y(n, -lim); for (;;) { bool in = true; mpz_class s = 0; for (int i = 0; i < n && in; i++) { M m(e); for (int j = 0; j < n; j++) m[i][j] = y[j] - p[0][j]; mpz_class q = detm(m); if (D < 0) q = -q; if (q < 0) in = false; s += q; } if (in && s <= abs(D)) cnt++; int i = 0; while (i < n && y[i] == lim) y[i++] = -lim; if (i == n) break; y[i] += 1; }
  ZZ got = computeExponentialResidue(l, n, &pa); if (Z(got) != cnt) fail("simplex", "count " + Z(got).get_str() + " instead of " + std::to_string(cnt)); freeListCone(l);
}
int main(int c, char **v) { init(c, v); Quiet qt; while (more()) { one(); if (coin(3)) simplex(); } return done(); }
