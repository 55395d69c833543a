// C22: perturbation of vertices. Oracle: floors of facet products over mpq_class.
#include "common.h"
#include "cone.h"
#include "convert.h"
#include "dual.h"
#include "Irrational.h"
#include "barvinok/barvinok.h"
#include <csetjmp>
static jmp_buf jb; static bool armed = false;
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept { if (armed) longjmp(jb, 1); fprintf(stderr, "%s:%u: assertion %s failed\n", f, l, e); abort(); }
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M; typedef std::vector<mpq_class> Qv;
static vec_ZZ V(const R &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static R W(const vec_ZZ &v) { R r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static M back(const listVector *p) { M l; int g = 0; for (; p && g < 1000; p = p->rest, g++) l.push_back(W(p->first)); return l; }
static listVector *build(const M &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) r = new listVector(V(l[i]), r); return r; }
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static std::string sq(const Qv &v) { std::string s = "("; for (auto &x : v) s += x.get_str() + " "; return s + ")"; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
static mpq_class prod(const R &f, const Qv &v) { mpq_class s = 0; for (size_t i = 0; i < f.size(); i++) s += f[i] * v[i]; return s; }
static mpz_class flo(const mpq_class &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static Qv qv(const rationalVector *v) { Qv r; R a = W(v->numerators()), b = W(v->denominators()); for (size_t i = 0; i < a.size(); i++) { if (b[i] == 0) { fail("denominator", "zero denominator"); return Qv(a.size()); } mpq_class t(a[i], b[i]); t.canonicalize(); r.push_back(t); } return r; }
static M gen(int n) { M a(n, R(n)); int lim = n <= 3 ? rnd(1, 40) : rnd(1, 6); bool big = coin(8); do { for (auto &r : a) for (auto &x : r) x = big ? zint(90) : mpz_class(rnd(-lim, lim)); } while (detm(a) == 0); for (auto &r : a) { mpz_class g = 0; for (auto &x : r) g = gcd(g, x); for (auto &x : r) x /= g; } return a; }
static listCone *mk(const M &a, const Qv &v, bool scaled) { listCone *k = createListCone(); k->rays = build(a); k->coefficient = 1; int n = a.size();
  rationalVector *rv; if (scaled) { mpz_class d = 1; for (auto &x : v) d = lcm(d, x.get_den()); d *= rnd(1, 3); R w; for (auto &x : v) w.push_back(mpz_class(x * d)); rv = new rationalVector(V(w), N(d)); } else { rv = new rationalVector(n); for (int i = 0; i < n; i++) { mpz_class s = rnd(1, 3); rv->set_entry(i, N(v[i].get_num() * s), N(v[i].get_den() * s)); } }
  k->vertex = new Vertex(rv); computeDetAndFacetsOfSimplicialCone(k, n); return k; }
struct Snap { M rays, facets; mpz_class d, dd; R fd; int co; const void *lr, *lf; };
static Snap snap(listCone *k) { Snap s; s.rays = back(k->rays); s.facets = back(k->facets); s.d = Z(k->determinant); s.dd = Z(k->dual_determinant); s.fd = W(k->facet_divisors); s.co = k->coefficient; s.lr = k->rays; s.lf = k->facets; return s; }
static bool same(const Snap &a, const Snap &b) { return a.rays == b.rays && a.facets == b.facets && a.d == b.d && a.dd == b.dd && a.fd == b.fd && a.co == b.co && a.lr == b.lr && a.lf == b.lf; }
static bool irr(const M &f, const Qv &v) { for (auto &q : f) if (prod(q, v).get_den() == 1) return false; return true; }
static void moved(const char *k, const M &f, const Qv &v, const Qv &w) {
  for (auto &q : f) { if (flo(prod(q, v)) != flo(prod(q, w))) fail(std::string(k) + ":floor", "the lattice points of the cone change: facet " + sh(M(1, q)) + "product " + prod(q, v).get_str() + " becomes " + prod(q, w).get_str() + " at " + sq(w)); if (prod(q, w).get_den() == 1) fail(std::string(k) + ":hit", "a facet hyperplane of the new cone contains lattice points: facet " + sh(M(1, q)) + "new vertex " + sq(w)); } }
struct Sink : public Single_Cone_Parameters { int got = 0; int ConsumeCone(listCone *c) { got++; Qv w = qv(c->vertex->vertex); for (auto &q : back(c->facets)) if (prod(q, w).get_den() == 1) fail("decomposed:hit", "a cone of the primal decomposition has lattice points on a facet hyperplane: rays " + sh(back(c->rays)) + " facet " + sh(M(1, q))); freeCone(c); return 1; } };
int main(int c, char **v) {
  init(c, v); Quiet qt;
  while (more()) {
    int n = rnd(1, 5); if (n == 1 && !coin(4)) n = 2; if (n == 5 && !coin(3)) n = 3; M a = gen(n); Qv x(n);
    int how = rnd(0, 3); for (auto &t : x) { mpz_class den = how == 0 ? mpz_class(1) : how == 1 ? mpz_class(rnd(1, 6)) : how == 2 ? mpz_class(rnd(1, 1000)) : abs(znz(100)); t = mpq_class(how == 3 ? zint(120) : mpz_class(rnd(-50, 50)), den); t.canonicalize(); }
    cur = "rays " + sh(a) + "vertex " + sq(x);
    { begin("test"); listCone *k = mk(a, x, coin()); M f = back(k->facets); Snap s = snap(k); bool r = isConeIrrational(k, n); if (r != irr(f, x)) fail("test", std::string("reported ") + (r ? "free of" : "having") + " lattice points on facet hyperplanes"); if (!same(s, snap(k)) || qv(k->vertex->vertex) != x) fail("test:changed", "the cone changed");
      bool thrown = false; try { checkConeIrrational(k, n); } catch (NotIrrationalException &) { thrown = true; } if (thrown == irr(f, x)) fail("test:throw", "the check and the test disagree");
      // equivalence check accepts the same vertex
      assertConesIntegerEquivalent(k, k->vertex->vertex, n, "same");
      // ... and refuses exactly the vertices with other floors
      begin("refusal"); for (int t = 0; t < 4; t++) { static Qv y; y = x; static bool want; want = true; for (auto &e : y) if (coin()) e += mpq_class(rnd(-3, 3), rnd(1, 1 << rnd(0, 12))); for (auto &e : y) e.canonicalize(); for (auto &q : f) if (flo(prod(q, x)) != flo(prod(q, y))) want = false;
        static rationalVector *rv; rv = new rationalVector(n); for (int i = 0; i < n; i++) rv->set_entry(i, N(y[i].get_num()), N(y[i].get_den())); static volatile bool ok; ok = false; armed = true; if (!setjmp(jb)) { assertConesIntegerEquivalent(k, rv, n, ""); ok = true; } armed = false; if (ok != want) fail("refusal", std::string(ok ? "accepted" : "refused") + " the vertex " + sq(y)); delete rv; }
      freeCone(k); }
    if (n >= 2) { begin("cube"); listCone *k = mk(a, x, coin()); M f = back(k->facets); Snap s = snap(k); ZZ ln, ld; rationalVector *r = computeConeStabilityCube(k, n, ln, ld); Qv w = qv(r); if (Z(ld) <= 0 || Z(ln) <= 0) fail("cube:length", "length " + Z(ln).get_str() + "/" + Z(ld).get_str()); else { mpq_class l(Z(ln), Z(ld)); l.canonicalize();
        for (auto &q : f) { mpz_class nn = 0; for (auto &y : q) nn += abs(y); mpq_class p = prod(q, w); mpz_class b = flo(prod(q, x)); if (p - nn * l < b || p + nn * l > b + 1) fail("cube", "the cube of radius " + l.get_str() + " around " + sq(w) + " leaves the region with the same lattice points: facet " + sh(M(1, q))); } }
      if (!same(s, snap(k)) || qv(k->vertex->vertex) != x) fail("cube:changed", "the cone changed"); delete r; freeCone(k); }
    if (n >= 2) { begin("move"); listCone *k = mk(a, x, coin()); listVector *eq = k->rays; Snap s = snap(k); M f = s.facets; irrationalizeCone(k, n); Qv w = qv(k->vertex->vertex); if (!same(s, snap(k)) || k->rays != eq) fail("move:changed", "more than the vertex changed"); moved("move", f, x, w);
      ZZ sc; vec_ZZ iv = scaleRationalVectorToInteger(k->vertex->vertex, n, sc); R ivw = W(iv); for (int i = 0; i < n; i++) if (mpq_class(ivw[i]) != w[i] * Z(sc)) fail("move:scale", "integer scaling of the new vertex");
      if (!isConeIrrational(k, n)) fail("move:test", "the moved cone does not pass the test");
      // a second move keeps the lattice points too
      if (coin()) { irrationalizeCone(k, n); moved("again", f, x, qv(k->vertex->vertex)); } freeCone(k); }
    if (n >= 2 && coin(3)) { begin("list"); std::vector<listCone *> ks; std::vector<M> fs; std::vector<Qv> vs; int m = rnd(1, 4); listCone *head = 0; for (int i = 0; i < m; i++) { M b = i ? gen(n) : a; Qv y = x; for (auto &t : y) t += rnd(0, 3); listCone *k = mk(b, y, coin()); k->rest = head; head = k; ks.push_back(k); fs.push_back(back(k->facets)); vs.push_back(y); }
      irrationalizeCones(head, n); for (int i = 0; i < m; i++) moved("list", fs[i], vs[i], qv(ks[i]->vertex->vertex)); while (head) { listCone *t = head->rest; head->rest = 0; freeCone(head); head = t; } }
    if (n >= 2 && n <= 4 && coin(3)) { mpz_class dt = abs(detm(a)); if (dt < 100000) { begin("decomposed"); Sink s; s.Number_of_Variables = n; s.max_determinant = 1; s.shortvector = BarvinokParameters::LatteLLL; s.dualization = BarvinokParameters::DualizationWithCdd; s.triangulation_assume_fulldim = true; s.triangulation_special_cone = 0; s.triangulation_prescribed_height_data = 0; s.nonsimplicial_subdivision = false; s.debug_triangulation = false; s.decomposition = BarvinokParameters::IrrationalAllPrimalDecomposition;
      listCone *k = mk(a, x, false); irrationalizeCone(k, n); mat_ZZ mm; mm.SetDims(n, n); for (int i = 0; i < n; i++) mm[i] = V(a[i]); barvinok_Single(mm, &s, k->vertex); freeCone(k); } }
  }
  return done();
}
