// C09: lattice points of the half-open parallelepiped. Oracle: facet inequalities, determinants and inner products over mpz_class.
#include "common.h"
#include "cone.h"
#include "dual.h"
#include "genFunction/piped.h"
#include "genFunction/IntCombEnum.h"
#include "barvinok/barvinok.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M;
static vec_ZZ V(const R &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static R W(const vec_ZZ &v) { R r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static M back(const listVector *p) { M l; int g = 0; for (; p && g < 100000; p = p->rest, g++) l.push_back(W(p->first)); return l; }
static listVector *build(const M &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) r = new listVector(V(l[i]), r); return r; }
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static mpz_class dotp(const R &a, const R &b) { mpz_class s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
static M gen(int n) {
  M a(n, R(n));
  for (;;) {
    int kind = rnd(0, 4);
    if (kind <= 2) { int lim = n == 1 ? 300 : n <= 3 ? rnd(1, 8) : rnd(1, 3); for (auto &r : a) for (auto &x : r) x = rnd(-lim, lim); }
    else if (kind == 3) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? (coin() ? 1 : -1) * mpz_class(rnd(1, 7)) : mpz_class(0); }
    else { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? (coin() ? 1 : -1) : 0; }
    if (kind >= 3 || coin(3)) for (int t = rnd(0, 6); t > 0 && n > 1; t--) { int i = rnd(0, n - 1), j = rnd(0, n - 1); if (i == j) continue; mpz_class q = coin(5) ? znz(70) : znz(6); if (coin()) for (int k = 0; k < n; k++) a[i][k] += q * a[j][k]; else for (int k = 0; k < n; k++) a[k][i] += q * a[k][j]; }
    if (coin()) std::swap(a[0], a[n - 1]);
    mpz_class d = abs(detm(a)); if (d == 0 || d > 1200) continue;
    bool ok = true; for (auto &r : a) { mpz_class g = 0; for (auto &x : r) g = gcd(g, x); if (g == 0) ok = false; }
    if (ok) return a;
  }
}
int main(int c, char **v) {
  init(c, v); Quiet qt;
  while (more()) {
    int n = rnd(1, 5); if (coin(8)) n = 6; M a = gen(n); mpz_class D = abs(detm(a)); R vn(n), vd(n), gv(n); int big = coin(3) ? 130 : 8; mpz_class den = coin() ? rnd(1, 12) : 0;
    for (int i = 0; i < n; i++) { vn[i] = zint(big); vd[i] = den != 0 ? den : coin(4) ? abs(znz(big)) : mpz_class(rnd(1, 9)); if (coin(6)) vn[i] = 0; gv[i] = zint(big); }
    BarvinokParameters pa; pa.Number_of_Variables = n; pa.smithform = BarvinokParameters::IlioSmithForm;
    listCone *k = createListCone(); k->rays = build(a); rationalVector *rv = new rationalVector(n); for (int i = 0; i < n; i++) rv->set_entry(i, N(vn[i]), N(vd[i])); k->vertex = new Vertex(rv);
    computeDetAndFacetsOfSimplicialCone(k, n); M f = back(k->facets), r = back(k->rays);
    cur = "rays " + sh(r) + "vertex " + sh(M{vn, vd}) + "vector " + sh(M(1, gv)); begin("points");
    auto inbox = [&](const R &x) { for (int i = 0; i < n; i++) { mpq_class vs = 0; for (int j = 0; j < n; j++) { mpq_class t(vn[j] * f[i][j], vd[j]); t.canonicalize(); vs += t; } mpq_class p(dotp(f[i], x)); if (!(p <= vs) || !(p > vs + mpq_class(dotp(f[i], r[i])))) return false; } return true; };
    auto cmp = [&](const char *w, const M &p) { if (mpz_class((unsigned long)p.size()) != D) fail(std::string(w) + ":count", std::to_string(p.size()) + " points for index " + D.get_str()); std::set<R> s; for (auto &x : p) { if (!s.insert(x).second) { fail(std::string(w) + ":twice", "twice " + sh(M(1, x))); break; } if ((int)x.size() != n || !inbox(x)) { fail(std::string(w) + ":outside", "outside " + sh(M(1, x))); break; } } };
    bool also = coin(); if (also) { PointsScalarProductsGenerator pre(k, n, V(gv), &pa); }
    computeLatticePointsScalarProducts(k, n, V(gv), &pa); R sp = W(k->lattice_points_scalar_products);
    computePointsInParallelepiped(k, n, &pa); M p = back(k->latticePoints); cmp("list", p);
    { begin("products"); std::multiset<mpz_class> x, y; for (auto &q : p) x.insert(dotp(gv, q)); for (auto &q : sp) y.insert(q); if (x != y) fail("products:set", "the products are not those of the points"); 
      R gw(n); for (auto &q : gw) q = zint(big); computeLatticePointsScalarProducts(k, n, V(gw), &pa); R s2 = W(k->lattice_points_scalar_products); if (s2.size() != p.size()) fail("products:len", "length " + std::to_string(s2.size())); else for (size_t i = 0; i < p.size(); i++) if (s2[i] != dotp(gw, p[i])) { fail("products:order", "product " + std::to_string(i) + " of vector " + sh(M(1, gw))); break; } }
    { begin("generator"); PointsInParallelepipedGenerator g(k, n, &pa); PointsScalarProductsGenerator g2(k, n, V(gv), &pa); R mx = W(g.GetMaxMultipliers()); mpz_class vol = 1; for (auto &q : mx) vol *= q; if (vol != D || (int)mx.size() != n) fail("generator:volume", "multiplier bounds " + sh(M(1, mx))); int *mi = g.GetMaxMultipliers_int(); for (int i = 0; i < n; i++) if (mpz_class(mi[i]) != mx[i]) fail("generator:int", "int bounds differ"); delete[] mi;
      M all; std::vector<int> m(n, 0); for (long t = 0; vol == D && t < D.get_si(); t++) { R mm(m.begin(), m.end()); R x = W(g.GeneratePoint(V(mm))), y = W(g.GeneratePoint(m.data())); if (x != y) fail("generator:overloads", "the two ways to generate a point differ"); if (Z(g2.GeneratePointScalarProduct(m.data())) != dotp(gv, y)) fail("generator:product", "product of " + sh(M(1, y))); all.push_back(y); for (int i = n - 1; i >= 0; i--) { if (++m[i] < mx[i]) break; m[i] = 0; } } cmp("generator", all);
      std::set<R> s(all.begin(), all.end()), q(p.begin(), p.end()); if (s != q) fail("generator:points", "list and generator give different points"); }
    if (coin()) { begin("transducer"); listCone *k2 = createListCone(); k2->rays = build(r); k2->facets = build(f); k2->facet_divisors = k->facet_divisors; k2->determinant = k->determinant; k2->vertex = new Vertex(*k->vertex); listCone *k3 = 0; if (coin()) { k3 = createListCone(); k3->rays = build(r); k3->facets = build(f); k3->facet_divisors = k->facet_divisors; k3->determinant = k->determinant; k3->vertex = new Vertex(*k->vertex); k2->rest = k3; } computePointsInParallelepipeds(k2, n, &pa); cmp("lists", back(k2->latticePoints)); if (k3) { cmp("lists", back(k3->latticePoints)); } 
      struct Keep : public ConeConsumer { listCone *got = 0; int ConsumeCone(listCone *x) { got = x; return 7; } } keep; k2->rest = 0; freeListVector(k2->latticePoints); k2->latticePoints = 0; PointsInParallelepipedComputingConeTransducer t(&pa); t.SetConsumer(&keep); if (t.ConsumeCone(k2) != 7 || keep.got != k2) fail("transducer:pass", "cone not passed on"); else cmp("transducer", back(k2->latticePoints)); freeCone(k2); if (k3) freeCone(k3); }
    freeCone(k);
    if (coin()) { begin("far"); int n = rnd(1, 4); M a(n, R(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? mpz_class(coin() ? 1 : rnd(1, 9)) : j > i ? (coin(3) ? zint(90) : zint(5)) : mpz_class(0); a[rnd(0, n - 1)][n - 1] = abs(znz(100)) + 1; a[n - 1][n - 1] = abs(znz(coin() ? 40 : 100)) + 1;
      for (int t = rnd(0, 5); t > 0 && n > 1; t--) { int i = rnd(0, n - 1), j = rnd(0, n - 1); if (i == j) continue; mpz_class q = znz(4); if (coin()) for (int l = 0; l < n; l++) a[i][l] += q * a[j][l]; else for (int l = 0; l < n; l++) a[l][i] += q * a[l][j]; } mpz_class D = abs(detm(a)); if (coin()) std::swap(a[0], a[n - 1]);
      listCone *k = createListCone(); k->rays = build(a); R vn(n), vd(n); rationalVector *rv = new rationalVector(n); for (int i = 0; i < n; i++) { vn[i] = zint(40); vd[i] = coin() ? mpz_class(1) : abs(znz(30)); rv->set_entry(i, N(vn[i]), N(vd[i])); } k->vertex = new Vertex(rv);
      cur = "rays " + sh(a) + "vertex " + sh(M{vn, vd}); computeDetAndFacetsOfSimplicialCone(k, n); M f = back(k->facets), r = back(k->rays); BarvinokParameters pf; pf.Number_of_Variables = n; pf.smithform = BarvinokParameters::IlioSmithForm;
      PointsInParallelepipedGenerator g(k, n, &pf); R mx = W(g.GetMaxMultipliers()); mpz_class vol = 1; for (auto &q : mx) vol *= q; if (vol != D) fail("far:volume", "multiplier bounds " + sh(M(1, mx)));
      else { std::set<R> ms, ps; for (int t = 0; t < 24; t++) { R mm(n); for (int i = 0; i < n; i++) { mpz_class q = coin(3) ? mpz_class(mpz_class(1) << rnd(0, 110)) : abs(zint(110)); mm[i] = coin(8) ? mpz_class(mx[i] - 1) : mpz_class(q % mx[i]); } if (!ms.insert(mm).second) continue; cur = "rays " + sh(a) + "vertex " + sh(M{vn, vd}) + "multipliers " + sh(M(1, mm)); R x = W(g.GeneratePoint(V(mm)));
          for (int i = 0; i < n; i++) { mpq_class vs = 0; for (int j = 0; j < n; j++) { mpq_class t2(vn[j] * f[i][j], vd[j]); t2.canonicalize(); vs += t2; } mpq_class p(dotp(f[i], x)); if (!(p <= vs) || !(p > vs + mpq_class(dotp(f[i], r[i])))) { fail("far:outside", "outside " + sh(M(1, x))); break; } }
          if (!ps.insert(x).second) fail("far:twice", "two multiplier vectors give " + sh(M(1, x))); } } freeCone(k); }
    { begin("combinations"); int l = rnd(1, 5); std::vector<int> u(l); long tot = 1; for (auto &x : u) { x = rnd(0, 3); tot *= x + 1; } IntCombEnum e(u.data(), l); std::set<std::vector<int>> s; long cnt = 0; int *q; cur = "bounds"; for (int x : u) cur += " " + std::to_string(x); while (cnt <= tot && (q = e.getNext())) { std::vector<int> w(q, q + l); cnt++; for (int i = 0; i < l; i++) if (w[i] < 0 || w[i] > u[i]) fail("combinations:range", "out of bounds"); if (!s.insert(w).second) fail("combinations:twice", "twice"); } if (cnt != tot) fail("combinations:count", std::to_string(cnt) + " of " + std::to_string(tot)); }
  }
  return done();
}
