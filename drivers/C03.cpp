// C03: linked lists of vectors and of cones. Oracle: std::vector of values; address sanitizer watches the memory.
#include "common.h"
#include "cone.h"
#include "ramon.h"
using namespace drv; using namespace NTL;
typedef std::pair<std::vector<mpz_class>, int> E; typedef std::vector<E> L;
static vec_ZZ V(const std::vector<mpz_class> &v) { vec_ZZ r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = N(v[i]); return r; }
static std::vector<mpz_class> W(const vec_ZZ &v) { std::vector<mpz_class> r; for (int i = 0; i < v.length(); i++) r.push_back(Z(v[i])); return r; }
static std::string sh(const L &l) { std::string s = "("; for (auto &e : l) { s += "["; for (auto &x : e.first) s += x.get_str() + " "; s += "]h" + std::to_string(e.second) + " "; } return s + ")"; }
static L gen(int dim, int maxn, bool small = false) { L l; int n = rnd(0, maxn); for (int i = 0; i < n; i++) { std::vector<mpz_class> v; for (int j = 0; j < dim; j++) v.push_back(small ? mpz_class(rnd(0, 2)) : zint(100)); l.push_back(E(v, (int)rnd(-1, 5))); } return l; }
static listVector *build(const L &l) { listVector *r = 0; for (size_t i = l.size(); i-- > 0;) { r = appendVectorToListVector(V(l[i].first), r); r->index_hint = l[i].second; } return r; }
static L back(const listVector *p) { L l; int g = 0; for (; p && g < 1000; p = p->rest, g++) l.push_back(E(W(p->first), p->index_hint)); return l; }
static std::set<const void *> nodes(const listVector *p) { std::set<const void *> s; for (; p; p = p->rest) s.insert(p); return s; }
static void same(const char *k, const L &got, const L &want) { if (got != want) fail(k, "got " + sh(got) + " expected " + sh(want)); }
struct CV { int coef; mpz_class det, ddet; std::vector<mpz_class> fd, lps, num, den, ehr; int hint; L rays, facets, pts, sub, eq; };
static CV gencone(int dim) { CV c; c.coef = rnd(-3, 3); c.det = zint(); c.ddet = zint(); for (int i = 0; i < dim; i++) { c.fd.push_back(zint()); c.num.push_back(zint()); c.den.push_back(abs(znz())); c.ehr.push_back(zint()); } for (int i = rnd(0, 3); i > 0; i--) c.lps.push_back(zint()); c.hint = rnd(-1, 9);
  c.rays = gen(dim, 4); c.facets = gen(dim, 4); c.pts = gen(dim, 4); c.sub = gen(dim, 2); c.eq = gen(dim, 2); return c; }
static listCone *mk(const CV &c) { listCone *k = createListCone(); k->coefficient = c.coef; k->determinant = N(c.det); k->dual_determinant = N(c.ddet); k->facet_divisors = V(c.fd); k->lattice_points_scalar_products = V(c.lps); k->index_hint = c.hint;
  k->vertex = new Vertex(new rationalVector(V(c.num), V(c.den))); k->vertex->ehrhart_vertex = V(c.ehr); k->rays = build(c.rays); k->facets = build(c.facets); k->latticePoints = build(c.pts); k->subspace_generators = build(c.sub); k->equalities = build(c.eq); return k; }
static std::string cmpc(const listCone *k, const CV &c) {
  std::string s;
  if (k->coefficient != c.coef) s += "coefficient "; if (Z(k->determinant) != c.det) s += "determinant "; if (Z(k->dual_determinant) != c.ddet) s += "dual_determinant ";
  if (W(k->facet_divisors) != c.fd) s += "facet_divisors "; if (W(k->lattice_points_scalar_products) != c.lps) s += "scalar_products "; if (k->index_hint != c.hint) s += "index_hint ";
  if (!k->vertex) return s + "vertex "; 
  if (W(k->vertex->vertex->numerators()) != c.num || W(k->vertex->vertex->denominators()) != c.den) s += "vertex "; if (W(k->vertex->ehrhart_vertex) != c.ehr) s += "ehrhart_vertex ";
  if (back(k->rays) != c.rays) s += "rays "; if (back(k->facets) != c.facets) s += "facets "; if (back(k->latticePoints) != c.pts) s += "latticePoints "; if (back(k->subspace_generators) != c.sub) s += "subspace_generators "; if (back(k->equalities) != c.eq) s += "equalities ";
  return s;
}
static std::set<const void *> owned(const listCone *k) { std::set<const void *> s; for (const listVector *p : {k->rays, k->facets, k->latticePoints, k->subspace_generators, k->equalities}) for (auto x : nodes(p)) s.insert(x); s.insert(k); s.insert(k->vertex); s.insert(k->vertex->vertex); return s; }
static bool meets(const std::set<const void *> &a, const std::set<const void *> &b) { for (auto x : a) if (b.count(x)) return true; return false; }
static void scramble(listVector *p) { for (; p; p = p->rest) { for (int i = 0; i < p->first.length(); i++) p->first[i] += 77; p->index_hint += 5; } }
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    int dim = rnd(0, 4); L a = gen(dim, 5, coin()), b = gen(dim, 5, coin());
    begin("vectors"); cur = "a=" + sh(a) + " b=" + sh(b);
    listVector *p = build(a); same("append", back(p), a);
    if (lengthListVector(p) != (int)a.size()) fail("length", "got " + std::to_string(lengthListVector(p)));
    auto n0 = nodes(p); listVector *q = copyListVector(p); same("copy", back(q), a); same("copy-source", back(p), a);
    if (meets(n0, nodes(q))) fail("copy-shares", "copy shares nodes with the original");
    scramble(q); same("copy-independent", back(p), a); freeListVector(q); same("free-other", back(p), a);
    { listVector *e = createListVector(V(std::vector<mpz_class>(dim, 3))); if (lengthListVector(e) != 1 || e->rest || e->index_hint != -1 || W(e->first) != std::vector<mpz_class>(dim, 3)) fail("create", "wrong single-element list"); 
      listVector *f = createListVector(V(std::vector<mpz_class>(dim, 4))); f->rest = (listVector *)1; listVector *en = updateBasis(f, e); if (en != f || e->rest != f || f->rest) fail("updateBasis", "wrong links"); freeListVector(e); }
    if (createVector(dim).length() != dim) fail("createVector", "wrong length");
    if (p) { L w = a; if (w.size() > 1) w.erase(w.begin() + 1); removeListVector(p); same("remove", back(p), w); a = w; }
    // membership
    { L s = gen(dim, 4, true), t = gen(dim, 4, true); if (coin() && s.size()) t.push_back(s[rnd(0, s.size() - 1)]); if (coin(3)) { t = s; for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[rnd(0, i - 1)]); }
      cur += " s=" + sh(s) + " t=" + sh(t);
      listVector *ps = build(s), *pt = build(t); int nv = rnd(0, dim);
      bool all = true;
      for (auto &e : s) { bool in = false, inp = false; for (auto &f : t) { if (f.first == e.first) in = true; if (std::equal(f.first.begin(), f.first.begin() + nv, e.first.begin())) inp = true; } all = all && in;
        if ((isVectorInListVector(V(e.first), pt) != 0) != in) fail("member", "membership of " + sh(L(1, e)));
        if ((isVectorInListVector(V(e.first), pt, nv) != 0) != inp) fail("member-prefix", "membership on the first " + std::to_string(nv) + " coordinates of " + sh(L(1, e))); 
        for (auto &f : t) if ((isVectorEqualToVector(V(e.first), V(f.first), nv) != 0) != std::equal(f.first.begin(), f.first.begin() + nv, e.first.begin())) fail("veceq", sh(L(1, e)) + sh(L(1, f))); }
      bool r = isEqual(ps, pt); if (r != (s.size() == t.size() && all)) fail("listeq", r ? "got true" : "got false");
      same("member-source", back(pt), t); freeListVector(ps); freeListVector(pt); }
    freeListVector(p);
    begin("cones"); std::vector<CV> cs; int n = rnd(0, 4), m = rnd(0, n); for (int i = 0; i < n; i++) cs.push_back(gencone(dim));
    cur = std::to_string(n) + " cones, split " + std::to_string(m) + ", dimension " + std::to_string(dim);
    listCone *A = 0, *B = 0; for (int i = n; i-- > m;) { listCone *k = mk(cs[i]); k->rest = B; B = k; } for (int i = m; i-- > 0;) { listCone *k = mk(cs[i]); k->rest = A; A = k; }
    if (lengthListCone(A) != m || lengthListCone(B) != n - m) fail("cone-length", "wrong length");
    listCone *R = appendListCones(A, B);
    auto chk = [&](const char *k, const listCone *l) { int i = 0; for (; l && i < n + 2; l = l->rest, i++) { if (i >= n) { fail(k, "too many cones"); return; } std::string d = cmpc(l, cs[i]); if (d.size()) fail(k, "cone " + std::to_string(i) + " differs in " + d); } if (i != n) fail(k, "has " + std::to_string(i) + " cones"); };
    chk("concat", R); if (lengthListCone(R) != n) fail("cone-length", "wrong length after concatenation");
    if (ambient_cone_dimension(R) != (R ? dim : 0)) fail("dimension", "wrong ambient dimension");
    listCone *C2 = copyListCone(R); chk("conecopy", C2); chk("conecopy-source", R);
    { std::set<const void *> o; size_t tot = 0; for (listCone *k = R; k; k = k->rest) { auto w = owned(k); tot += w.size(); o.insert(w.begin(), w.end()); } std::set<const void *> o2; for (listCone *k = C2; k; k = k->rest) { auto w = owned(k); o2.insert(w.begin(), w.end()); } if (meets(o, o2)) fail("conecopy-shares", "copy shares memory with the original"); if (o2.size() != tot) fail("conecopy-shares", "cones of the copy share memory"); }
    for (listCone *k = C2; k; k = k->rest) { k->coefficient += 9; k->determinant += 1; scramble(k->rays); scramble(k->facets); scramble(k->latticePoints); if (dim) k->vertex->vertex->set_entry(0, to_ZZ(5), to_ZZ(7)); }
    chk("conecopy-independent", R); freeListCone(C2); chk("free-other", R);
    if (R) { listCone *one = copyCone(R); if (one->rest) fail("copyone-rest", "copy of one cone is linked to more cones"); std::string d = cmpc(one, cs[0]); if (d.size()) fail("copyone", "differs in " + d); freeCone(one); chk("free-other", R); }
    { listCone *z = createListCone(); if (z->coefficient != 1 || z->vertex || z->rays || z->facets || z->latticePoints || z->subspace_generators || z->equalities || z->rest || z->index_hint != -1 || z->determinant != 0 || z->dual_determinant != 0) fail("createcone", "fields not initialised"); freeCone(z); }
    freeListCone(R);
  }
  return done();
}
