// C07: simplicial duality and matrix conversions. Oracle: fraction-free elimination and inner products over mpz_class.
#include "common.h"
#include "cone.h"
#include "convert.h"
#include "dual.h"
#include "barvinok/barvinok.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M;
static vec_ZZ V(const R &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static R W(const vec_ZZ &v) { R r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static M back(const listVector *p) { M l; int g = 0; for (; p && g < 1000; p = p->rest, g++) l.push_back(W(p->first)); return l; }
static M backm(const mat_ZZ &m) { M l; for (int i = 0; i < m.NumRows(); i++) l.push_back(W(m[i])); return l; }
static listVector *build(const M &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) r = new listVector(V(l[i]), r); return r; }
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static mpz_class dotp(const R &a, const R &b) { mpz_class s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
static M gen(int n) { M a(n, R(n)); int bits = rnd(1, 5) == 1 ? 70 : 0; int lim = rnd(1, 9); for (auto &r : a) { for (auto &x : r) x = bits ? zint(bits) : mpz_class(rnd(-lim, lim)); if (coin(3)) for (auto &x : r) x *= rnd(1, 6); }
  if (coin(4)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j > i) a[i][j] = 0; else if (i == j && a[i][j] == 0) a[i][j] = coin() ? 1 : -1; return a; }
static bool prim(const R &v) { mpz_class g = 0; for (auto &x : v) g = gcd(g, x); return g == 1; }
static void chkdual(const char *k, const M &rays, const M &f, const R &fd, const mpz_class &det, const mpz_class &ddet) {
  int n = rays.size(); mpz_class d = detm(rays);
  if (det != d) fail(k, "determinant " + det.get_str() + " expected " + d.get_str());
  if ((int)f.size() != n || (int)fd.size() != n) { fail(k, "wrong number of facets or divisors"); return; }
  for (int i = 0; i < n; i++) { if (!prim(f[i])) fail(k, "facet not primitive: " + sh(M(1, f[i])));
    for (int r = 0; r < n; r++) { mpz_class p = dotp(rays[r], f[i]); if (r != i ? p != 0 : p >= 0) { fail(k, "ray " + std::to_string(r) + " times facet " + std::to_string(i) + " is " + p.get_str()); return; } if (r == i && (fd[i] <= 0 || -p != fd[i])) fail(k, "facet divisor " + fd[i].get_str() + ", ray times facet is " + p.get_str()); }
  }
  if (ddet != detm(f)) fail(k, "dual determinant " + ddet.get_str() + " expected " + detm(f).get_str());
}
int main(int c, char **v) {
  init(c, v); Quiet qt;
  while (more()) {
    int n = rnd(1, 5); M a; do a = gen(n); while (detm(a) == 0);
    begin("simplicial"); cur = "rays " + sh(a);
    listCone *k = createListCone(); k->rays = build(a); k->coefficient = 3; k->index_hint = 7; std::set<const void *> rn; for (listVector *p = k->rays; p; p = p->rest) rn.insert(p);
    computeDetAndFacetsOfSimplicialCone(k, n);
    M f = back(k->facets); R fd = W(k->facet_divisors); chkdual("facets", a, f, fd, Z(k->determinant), Z(k->dual_determinant));
    if (back(k->rays) != a || k->coefficient != 3 || k->index_hint != 7 || k->rest || k->equalities || k->subspace_generators || k->latticePoints) fail("frame", "another attribute of the cone changed");
    for (listVector *p = k->facets; p; p = p->rest) if (rn.count(p)) fail("shared", "facets share memory with the rays");
    begin("matrices");
    { int m = rnd(0, n); if (backm(createConeDecMatrix(k, m, n)) != M(a.begin(), a.begin() + m)) fail("ray-matrix", "wrong rows");
      M x = backm(createFacetMatrix(k, n, n)), y = backm(createFacetMatrix2(k, n, n)); mpz_class d = detm(a); bool ok = x.size() == f.size() && y.size() == f.size();
      for (int i = 0; ok && i < n; i++) for (int j = 0; j < n; j++) if (x[i][j] != f[i][j] * (d / fd[i]) || y[i][j] != f[i][j] * (abs(d) / fd[i])) ok = false; if (!ok) fail("facet-matrix", "got " + sh(x) + " and " + sh(y));
      M b(rnd(1, 5), R(rnd(1, 4))); for (auto &r : b) for (auto &t : r) t = zint(80); listVector *l = build(b); cur += " list " + sh(b); mat_ZZ mm = convert_listVector_to_mat_ZZ(l); bool okt = mm.NumRows() == (long)b[0].size() && mm.NumCols() == (long)b.size();
      for (size_t i = 0; okt && i < b.size(); i++) for (size_t j = 0; j < b[0].size(); j++) if (Z(mm[j][i]) != b[i][j]) okt = false; if (!okt) fail("list-to-matrix", "wrong entries"); if (back(l) != b) fail("list-to-matrix", "list changed");
      mat_ZZ t = transpose(mm); int q = rnd(0, b.size()); listVector *l2 = transformArrayBigVectorToListVector(t, q, b[0].size()); if (back(l2) != M(b.begin(), b.begin() + q)) fail("matrix-to-list", "wrong rows"); freeListVector(l); freeListVector(l2); }
    begin("exchange");
    { BarvinokParameters bp; bp.Number_of_Variables = n; bp.dualization = BarvinokParameters::DualizationWithCdd;
      M e(rnd(0, 2), R(n)), s(rnd(0, 2), R(n)); for (auto &r : e) for (auto &t : r) t = zint(9); for (auto &r : s) for (auto &t : r) t = zint(9); k->equalities = build(e); k->subspace_generators = build(s);
      mpz_class d1 = Z(k->determinant), d2 = Z(k->dual_determinant); dualizeCone(k, n, &bp);
      if (back(k->rays) != f || back(k->facets) != a || Z(k->determinant) != d2 || Z(k->dual_determinant) != d1 || back(k->equalities) != s || back(k->subspace_generators) != e || k->coefficient != 3) fail("swap", "exchange of a complete cone");
      if (coin()) { listVector *z = k->rays; k->rays = 0; dualizeCone(k, n, &bp); if (back(k->rays) != a || k->facets || Z(k->determinant) != d1) fail("swap-facets-only", "exchange of a cone without rays"); freeListVector(z); }
      freeCone(k); 
      listCone *list = 0; std::vector<M> as; int m = rnd(1, 3); for (int i = 0; i < m; i++) { M b; do b = gen(n); while (detm(b) == 0); as.push_back(b); } for (int i = m; i-- > 0;) { listCone *q = createListCone(); q->rays = build(as[i]); q->rest = list; list = q; }
      cur = "list of cones"; for (auto &b : as) cur += " | " + sh(b);
      dualizeCones(list, n, &bp); int i = 0; for (listCone *q = list; q; q = q->rest, i++) { if (i >= m) { fail("dualize-list", "too many cones"); break; } if (back(q->facets) != as[i]) fail("dualize-list", "facets are not the former rays"); else chkdual("dualize-list", as[i], back(q->rays), W(q->facet_divisors), Z(q->dual_determinant), Z(q->determinant)); } if (i != m) fail("dualize-list", "cones lost");
      while (list) { listCone *q = list; list = list->rest; freeCone(q); } }
  }
  return done();
}
