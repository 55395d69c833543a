// C06: signed decomposition. Oracle: membership of integer points, determinants and inner products over mpz_class.
#include "common.h"
#include "cone.h"
#include "convert.h"
#include "dual.h"
#include "Irrational.h"
#include "barvinok/barvinok.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M;
static vec_ZZ V(const R &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static R W(const vec_ZZ &v) { R r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static M back(const listVector *p) { M l; int g = 0; for (; p && g < 1000; p = p->rest, g++) l.push_back(W(p->first)); return l; }
static listVector *build(const M &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) r = new listVector(V(l[i]), r); return r; }
static mat_ZZ mat(const M &l) { mat_ZZ m; m.SetDims(l.size(), l[0].size()); for (size_t i = 0; i < l.size(); i++) m[i] = V(l[i]); return m; }
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static mpz_class dotp(const R &a, const R &b) { mpz_class s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
// 1 inside, 0 outside, -1 on some facet hyperplane
static int inside(const M &r, const R &x) { int n = r.size(), res = 1; mpz_class d = detm(r); for (int i = 0; i < n; i++) { M t = r; t[i] = x; int s = sgn(detm(t)) * sgn(d); if (s == 0) return -1; if (s < 0) res = 0; } return res; }
static bool prim(const R &v) { mpz_class g = 0; for (auto &x : v) g = gcd(g, x); return g == 1; }
struct Got { int coef; mpz_class det, ddet; M rays, facets; R fd; R vn, vd; };
struct Sink : public Single_Cone_Parameters { std::vector<Got> g; int stop = -1; 
  int ConsumeCone(listCone *c) { Got x; x.coef = c->coefficient; x.det = Z(c->determinant); x.ddet = Z(c->dual_determinant); x.rays = back(c->rays); x.facets = back(c->facets); x.fd = W(c->facet_divisors); x.vn = W(c->vertex->vertex->numerators()); x.vd = W(c->vertex->vertex->denominators()); if (c->rest) fail("chain", "a delivered cone is linked to another"); g.push_back(x); freeCone(c); return (int)g.size() == stop ? -1 : 1; } };
static M gen(int n) { M a(n, R(n)); int lim = n <= 3 ? rnd(1, 40) : n == 4 ? rnd(1, 7) : rnd(1, 3); do { for (auto &r : a) { for (auto &x : r) x = mpz_class(rnd(-lim, lim)); if (coin(6)) { mpz_class q = coin() ? mpz_class(rnd(2, 5)) : abs(znz(130)); for (auto &x : r) x *= q; } } } while (detm(a) == 0); return a; }
static void check(const char *k, const Sink &s, const M &a, const R &vn, const R &vd, bool same_vertex, bool stopped) {
  int n = a.size();
  for (auto &e : s.g) { std::string w = " delivered rays " + sh(e.rays);
    if ((int)e.rays.size() != n || (int)e.facets.size() != n || (int)e.fd.size() != n) { fail(std::string(k) + ":size", "wrong number of rays or facets" + w); return; }
    mpz_class d = detm(e.rays); if (d == 0 || d != e.det) fail(std::string(k) + ":det", "recorded determinant " + e.det.get_str() + w); if (e.ddet != detm(e.facets) || e.ddet == 0) fail(std::string(k) + ":dualdet", "recorded dual determinant " + e.ddet.get_str() + w);
    if (e.coef != 1 && e.coef != -1) fail(std::string(k) + ":sign", "coefficient " + std::to_string(e.coef) + w);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { mpz_class p = dotp(e.rays[i], e.facets[j]); if (i == j ? (e.fd[i] <= 0 || p != -e.fd[i]) : p != 0) { fail(std::string(k) + ":pairing", "facets do not match" + w + " facets " + sh(e.facets)); i = n; break; } }
    const M &gn = s.decomposition == BarvinokParameters::DualDecomposition ? e.facets : e.rays; for (auto &r : gn) if (!prim(r)) fail(std::string(k) + ":primitive", "generator not primitive" + w);
    if (s.max_determinant != 0 && abs(d) > s.max_determinant) fail(std::string(k) + ":index", "index " + d.get_str() + " above the limit " + std::to_string(s.max_determinant) + w);
    if (same_vertex) { for (int i = 0; i < n; i++) if (e.vn[i] * vd[i] != vn[i] * e.vd[i]) fail(std::string(k) + ":vertex", "vertex differs" + w); }
    else { for (int i = 0; i < n; i++) { mpq_class p = 0; for (int j = 0; j < n; j++) { mpq_class t(e.vn[j] * e.facets[i][j], e.vd[j]); t.canonicalize(); p += t; } if (p.get_den() == 1) fail(std::string(k) + ":irrational", "a facet hyperplane contains lattice points" + w); } }
  }
  if (stopped) return;
  for (int t = 0; t < 40; t++) { R x(n); int lim = coin(3) ? 3 : coin() ? 60 : 100000; if (coin(3)) { for (auto &y : x) y = 0; for (auto &r : a) { long q = rnd(1, 50); for (int j = 0; j < n; j++) x[j] += q * r[j]; } for (auto &y : x) y = y * 97 + rnd(-9, 9); } else for (auto &y : x) y = rnd(-lim, lim);
    int want = inside(a, x); if (want < 0) continue; int sum = 0; bool gen = true;
    for (auto &e : s.g) { const M &gn = s.decomposition == BarvinokParameters::DualDecomposition ? e.facets : e.rays; int z = inside(gn, x); if (z < 0) { gen = false; break; } sum += e.coef * z; }
    if (gen && sum != want) { fail(std::string(k) + ":sum", "signed membership of " + sh(M(1, x)) + "is " + std::to_string(sum) + ", expected " + std::to_string(want)); return; } }
}
static void conf(Sink &s, int n) { s.Number_of_Variables = n; s.max_determinant = coin(3) ? rnd(1, 30) : coin(8) ? 0 : 1; s.shortvector = BarvinokParameters::LatteLLL; s.dualization = BarvinokParameters::DualizationWithCdd; s.triangulation_assume_fulldim = true; s.triangulation_special_cone = 0; s.triangulation_prescribed_height_data = 0; s.nonsimplicial_subdivision = false; s.debug_triangulation = false; s.triangulation = BarvinokParameters::RegularTriangulationWithCddlib; }
int main(int c, char **v) {
  init(c, v); Quiet qt;
  while (more()) {
    int n = rnd(2, 5); if (n == 5 && !coin(4)) n = 3; M a = gen(n); R vn(n), vd(n); mpz_class den = coin() ? rnd(1, 12) : 0; for (int i = 0; i < n; i++) { vn[i] = rnd(-30, 30); vd[i] = den != 0 ? den : mpz_class(rnd(1, 9)); }
    int mode = rnd(0, 2); if (coin()) mode = 0;
    { Sink s; conf(s, n); s.stop = coin(6) ? rnd(1, 3) : -1; rationalVector *rv = new rationalVector(n); for (int i = 0; i < n; i++) rv->set_entry(i, N(vn[i]), N(vd[i])); Vertex *vt = new Vertex(rv);
      cur = "rays " + sh(a) + "max index " + std::to_string(s.max_determinant) + " vertex " + sh(M{vn, vd});
      if (mode == 0) { begin("dual"); s.decomposition = BarvinokParameters::DualDecomposition; 
        if (coin()) { int r = barvinok_Single(mat(a), &s, vt); bool st = s.stop >= 0 && (int)s.g.size() >= s.stop; if (st ? r != -1 : r == -1) fail("dual:status", "status " + std::to_string(r)); check("dual", s, a, vn, vd, true, st); if (st && (int)s.g.size() != s.stop) fail("dual:stop", "cones delivered after the consumer asked to stop"); }
        else { listCone *k = createListCone(); k->rays = build(a); k->vertex = new Vertex(*vt); int r = barvinokDecomposition_Single(k, &s); bool st = s.stop >= 0 && (int)s.g.size() >= s.stop; if (st ? r != -1 : r == -1) fail("dual:status", "status " + std::to_string(r)); check("dual", s, a, vn, vd, true, st); if (back(k->rays) != a) fail("dual:input", "the input cone changed"); freeCone(k); } }
      else { // the cone whose dual is generated by the rows of a
        M f; listCone *k = createListCone(); k->rays = build(a); k->coefficient = 1; k->vertex = new Vertex(*vt); computeDetAndFacetsOfSimplicialCone(k, n); f = back(k->facets); bool st;
        if (mode == 1) { begin("irrational primal"); s.decomposition = BarvinokParameters::IrrationalPrimalDecomposition; int r = barvinok_Single(mat(a), &s, vt); st = s.stop >= 0 && (int)s.g.size() >= s.stop; if (st ? r != -1 : r == -1) fail("primal:status", "status " + std::to_string(r)); check("primal", s, f, vn, vd, false, st); }
        else { begin("all primal"); s.decomposition = BarvinokParameters::IrrationalAllPrimalDecomposition; irrationalizeCone(k, n); R wn = W(k->vertex->vertex->numerators()), wd = W(k->vertex->vertex->denominators()); int r = barvinok_Single(mat(a), &s, k->vertex); st = s.stop >= 0 && (int)s.g.size() >= s.stop; if (st ? r != -1 : r == -1) fail("allprimal:status", "status " + std::to_string(r)); check("allprimal", s, a, wn, wd, false, st); Sink s2; (void)s2; for (auto &e : s.g) for (int i = 0; i < n; i++) if (e.vn[i] * wd[i] != wn[i] * e.vd[i]) fail("allprimal:vertex", "vertex differs"); }
        freeCone(k); }
      delete vt; }
    begin("step");
    { Sink s; conf(s, n); s.decomposition = BarvinokParameters::DualDecomposition; listCone *k = createListCone(); M b = a; for (auto &r : b) { mpz_class g = 0; for (auto &x : r) g = gcd(g, x); for (auto &x : r) x /= g; } k->rays = build(b); k->coefficient = coin() ? 1 : -1; rationalVector *rv = new rationalVector(n); for (int i = 0; i < n; i++) rv->set_entry(i, N(vn[i]), N(vd[i])); k->vertex = new Vertex(rv); computeDetAndFacetsOfSimplicialCone(k, n);
      mpz_class d = detm(b); std::vector<listCone *> cs(n); vec_ZZ D; D.SetLength(n); cur = "step on rays " + sh(b);
      if (abs(d) > 1) { bool ok = barvinokStep(k, cs, D, n, &s); if (!ok) fail("step:fails", "no reduction"); else {
        M f = back(k->facets); bool pos = false; R z; for (int i = 0; i < n; i++) { if ((cs[i] == 0) != (Z(D[i]) == 0)) fail("step:null", "determinant and cone disagree"); if (cs[i]) { M r = back(cs[i]->rays); mpz_class e = detm(r); if (e != Z(D[i]) || e != Z(cs[i]->determinant)) fail("step:det", "child determinant"); if (abs(e) >= abs(d)) fail("step:index", "child index not smaller"); if (z.empty()) z = r[i]; else if (z != r[i]) fail("step:vector", "children use different vectors"); for (int q = 0; q < n; q++) if (q != i && r[q] != b[q]) fail("step:rows", "child rows"); if (cs[i]->coefficient != k->coefficient * sgn(d) * sgn(e)) fail("step:sign", "child coefficient"); if (sgn(e) * sgn(d) > 0) pos = true; freeCone(cs[i]); } }
        if (!pos) fail("step:orientation", "the new vector is opposite to the cone"); } }
      freeCone(k); }
  }
  return done();
}
