@include dual.vc proved
@include geom.vc proved
@rs
// ---- a simplicial cone under decomposition
pub open spec fn rowsR(h: Hp, c: usize) -> Seq<Vc<Z>> { lrows(h.listVector@, h.listCone@[c].rays) }
pub open spec fn rowsF(h: Hp, c: usize) -> Seq<Vc<Z>> { lrows(h.listVector@, h.listCone@[c].facets) }
// R and F are dual to each other: products -fd[i] on the diagonal
pub open spec fn paired(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>) -> bool {
    R.len() == F.len() && fd.len() == F.len() && (forall|i: int| 0 <= i < F.len() ==> facets_ok(R, #[trigger] F[i], i, fd[i].v()) && fd[i].v() > 0)
}
pub open spec fn fdiv_ok(fd: Seq<Z>, d: int) -> bool { forall|i: int| 0 <= i < fd.len() ==> dvd((#[trigger] fd[i]).v(), d) }
pub open spec fn rvp(h: Hp, c: usize) -> usize { h.Vertex@[h.listCone@[c].vertex].vertex }
pub open spec fn rvr(h: Hp, c: usize) -> rationalVector { h.rationalVector@[rvp(h, c)] }
pub open spec fn vv(h: Hp, c: usize) -> (Vc<Z>, Vc<Z>) { (rvr(h, c).enumerator, rvr(h, c).denominator) }
pub open spec fn twolists(h: Hp, c: usize) -> bool { let k = h.listCone@[c]; k.latticePoints == 0 && k.subspace_generators == 0 && k.equalities == 0 && k.rest == 0 && k.rays != 0 && k.facets != 0 }
pub open spec fn kc(h: Hp, c: usize, n: int) -> bool {
    let k = h.listCone@[c]; let m = h.listVector@;
    &&& 1 <= n < 0x7fff_fffe && cone_wf(h, c) && twolists(h, c) && sep(lset(m, k.rays), lset(m, k.facets))
    &&& rowsR(h, c).len() == n && square(rowsR(h, c)) && rowsF(h, c).len() == n && square(rowsF(h, c))
    &&& k.determinant.v() == mdet(rowsR(h, c)) && mdet(rowsR(h, c)) != 0 && k.dual_determinant.v() == mdet(rowsF(h, c)) && mdet(rowsF(h, c)) != 0
    &&& paired(rowsR(h, c), rowsF(h, c), k.facet_divisors@) && fdiv_ok(k.facet_divisors@, k.determinant.v())
    &&& rv_wf(rvr(h, c)) && rvr(h, c).enumerator@.len() == n
}
pub open spec fn ownl(h: Hp, c: usize) -> Set<usize> { lset(h.listVector@, h.listCone@[c].rays).union(lset(h.listVector@, h.listCone@[c].facets)) }
pub ghost struct Own { pub c: usize, pub v: usize, pub r: usize, pub l: Set<usize> }
pub open spec fn own(h: Hp, c: usize) -> Own { Own { c: c, v: h.listCone@[c].vertex, r: rvp(h, c), l: ownl(h, c) } }
pub open spec fn apart(a: Own, b: Own) -> bool { a.c != b.c && a.v != b.v && a.r != b.r && sep(a.l, b.l) }
// o is disjoint from everything allocated in h
pub open spec fn newto(h: Hp, o: Own) -> bool { !h.listCone@.dom().contains(o.c) && !h.Vertex@.dom().contains(o.v) && !h.rationalVector@.dom().contains(o.r) && sep(o.l, h.listVector@.dom()) }
pub open spec fn inheap(h: Hp, o: Own) -> bool { h.listCone@.dom().contains(o.c) && h.Vertex@.dom().contains(o.v) && h.rationalVector@.dom().contains(o.r) && o.l.subset_of(h.listVector@.dom()) }
pub open spec fn keptx<T>(m: Map<usize, T>, m2: Map<usize, T>, x: usize) -> bool { forall|q: usize| #[trigger] m.dom().contains(q) && q != x ==> m2.dom().contains(q) && m2[q] == m[q] }
pub open spec fn keptl<T>(m: Map<usize, T>, m2: Map<usize, T>, s: Set<usize>) -> bool { forall|q: usize| #[trigger] m.dom().contains(q) && !s.contains(q) ==> m2.dom().contains(q) && m2[q] == m[q] }
// everything allocated in h outside o is unchanged in h2
pub open spec fn kept(h: Hp, h2: Hp, o: Own) -> bool { keptx(h.listCone@, h2.listCone@, o.c) && keptx(h.Vertex@, h2.Vertex@, o.v) && keptx(h.rationalVector@, h2.rationalVector@, o.r) && keptl(h.listVector@, h2.listVector@, o.l) }
pub open spec fn agree(h: Hp, h2: Hp, c: usize) -> bool {
    &&& h2.listCone@.dom().contains(c) && h2.listCone@[c] == h.listCone@[c]
    &&& h2.Vertex@.dom().contains(h.listCone@[c].vertex) && h2.Vertex@[h.listCone@[c].vertex] == h.Vertex@[h.listCone@[c].vertex]
    &&& h2.rationalVector@.dom().contains(rvp(h, c)) && h2.rationalVector@[rvp(h, c)] == rvr(h, c)
    &&& submap(h.listVector@.restrict(ownl(h, c)), h2.listVector@)
}
pub open spec fn samecone(h: Hp, h2: Hp, c: usize) -> bool { rowsR(h2, c) == rowsR(h, c) && rowsF(h2, c) == rowsF(h, c) && own(h2, c) == own(h, c) && vv(h2, c) == vv(h, c) && h2.listCone@[c] == h.listCone@[c] }
pub proof fn lset_dom(m: Map<usize, listVector>, p: usize) requires is_lv(m, p) ensures lset(m, p).subset_of(m.dom())
{ get_lv(m, p); let ns = nodes_lv(m, p); assert forall|q: usize| lset(m, p).contains(q) implies m.dom().contains(q) by { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == q; assert(ns[i] != 0); } }
pub proof fn frame_own(m: Map<usize, listVector>, m2: Map<usize, listVector>, p: usize, s: Set<usize>)
    requires is_lv(m, p), lset(m, p).subset_of(s), submap(m.restrict(s), m2) ensures is_lv(m2, p), nodes_lv(m2, p) == nodes_lv(m, p), lset(m2, p) == lset(m, p), lrows(m2, p) == lrows(m, p)
{ lset_dom(m, p); get_lv(m, p); let ns = nodes_lv(m, p);
  assert forall|i: int| 0 <= i < ns.len() implies m2.dom().contains(#[trigger] ns[i]) && m2[ns[i]] == m[ns[i]] by { assert(lset(m, p).contains(ns[i])); assert(m.restrict(s).dom().contains(ns[i])); }
  frame_lv(m, m2, p);
  assert(lrows(m2, p) =~= lrows(m, p)) by { assert forall|i: int| 0 <= i < ns.len() implies lrows(m2, p)[i] == lrows(m, p)[i] by { assert(m2[ns[i]] == m[ns[i]]); } } }
pub proof fn nil_lv(m: Map<usize, listVector>) ensures is_lv(m, 0), nodes_lv(m, 0).len() == 0, lset(m, 0) =~= Set::<usize>::empty() { let e = Seq::<usize>::empty(); assert(chain_lv(m, 0, e)); def_lv(m, 0, e); }
pub proof fn agree_kc(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), agree(h, h2, c) ensures kc(h2, c, n), samecone(h, h2, c)
{ hide(is_lv); hide(nodes_lv); hide(lset); hide(lrows); hide(mdet); hide(paired); hide(square); hide(fdiv_ok); hide(submap); hide(rv_wf);
  let m = h.listVector@; let k = h.listCone@[c]; frame_own(m, h2.listVector@, k.rays, ownl(h, c)); frame_own(m, h2.listVector@, k.facets, ownl(h, c)); nil_lv(h2.listVector@); }
pub proof fn kc_in(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures inheap(h, own(h, c)) { lset_dom(h.listVector@, h.listCone@[c].rays); lset_dom(h.listVector@, h.listCone@[c].facets); }
pub proof fn grows_agree(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), grows(h, h2) ensures agree(h, h2, c) {}
pub proof fn kept_agree(h: Hp, h2: Hp, c: usize, n: int, o: Own) requires kc(h, c, n), kept(h, h2, o), apart(own(h, c), o) ensures agree(h, h2, c)
{ kc_in(h, c, n); let s = ownl(h, c); assert forall|q: usize| #[trigger] h.listVector@.restrict(s).dom().contains(q) implies h2.listVector@.dom().contains(q) && h2.listVector@[q] == h.listVector@.restrict(s)[q] by { assert(h.listVector@.dom().contains(q)); assert(s.contains(q)); assert(!o.l.contains(q)); } }
pub proof fn grows_kc(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), grows(h, h2) ensures kc(h2, c, n), samecone(h, h2, c) { grows_agree(h, h2, c, n); agree_kc(h, h2, c, n); }
pub proof fn kept_kc(h: Hp, h2: Hp, c: usize, n: int, o: Own) requires kc(h, c, n), kept(h, h2, o), apart(own(h, c), o) ensures kc(h2, c, n), samecone(h, h2, c) { kept_agree(h, h2, c, n, o); agree_kc(h, h2, c, n); }
pub proof fn new_apart(h: Hp, a: Own, b: Own) requires inheap(h, a), newto(h, b) ensures apart(a, b), apart(b, a) {}
pub proof fn grows_new(h0: Hp, h: Hp, o: Own) requires grows(h0, h), newto(h, o) ensures newto(h0, o)
{ assert forall|q: usize| h0.listVector@.dom().contains(q) implies h.listVector@.dom().contains(q) by {}
  assert(h0.listCone@.dom().contains(o.c) ==> h.listCone@.dom().contains(o.c)); assert(h0.Vertex@.dom().contains(o.v) ==> h.Vertex@.dom().contains(o.v)); assert(h0.rationalVector@.dom().contains(o.r) ==> h.rationalVector@.dom().contains(o.r)); }
pub proof fn grows_trans(a: Hp, b: Hp, c: Hp) requires grows(a, b), grows(b, c) ensures grows(a, c)
{ assert forall|q: usize| #[trigger] a.listVector@.dom().contains(q) implies c.listVector@.dom().contains(q) && c.listVector@[q] == a.listVector@[q] by { assert(b.listVector@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.listCone@.dom().contains(q) implies c.listCone@.dom().contains(q) && c.listCone@[q] == a.listCone@[q] by { assert(b.listCone@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.Vertex@.dom().contains(q) implies c.Vertex@.dom().contains(q) && c.Vertex@[q] == a.Vertex@[q] by { assert(b.Vertex@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.rationalVector@.dom().contains(q) implies c.rationalVector@.dom().contains(q) && c.rationalVector@[q] == a.rationalVector@[q] by { assert(b.rationalVector@.dom().contains(q)); } }
// changing only nodes that are new keeps every older heap a part
pub proof fn grows_kept(h0: Hp, h: Hp, h2: Hp, o: Own) requires grows(h0, h), kept(h, h2, o), newto(h0, o) ensures grows(h0, h2)
{ assert forall|q: usize| #[trigger] h0.listVector@.dom().contains(q) implies h2.listVector@.dom().contains(q) && h2.listVector@[q] == h0.listVector@[q] by { assert(h.listVector@.dom().contains(q)); assert(!o.l.contains(q)); }
  assert forall|q: usize| #[trigger] h0.listCone@.dom().contains(q) implies h2.listCone@.dom().contains(q) && h2.listCone@[q] == h0.listCone@[q] by { assert(h.listCone@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] h0.Vertex@.dom().contains(q) implies h2.Vertex@.dom().contains(q) && h2.Vertex@[q] == h0.Vertex@[q] by { assert(h.Vertex@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] h0.rationalVector@.dom().contains(q) implies h2.rationalVector@.dom().contains(q) && h2.rationalVector@[q] == h0.rationalVector@[q] by { assert(h.rationalVector@.dom().contains(q)); } }
// the products of the facets with the rays form a nonsingular diagonal matrix
pub open spec fn trm(R: Seq<Vc<Z>>) -> Seq<Vc<Z>> { Seq::new(R.len(), |k: int| Vc { g: Ghost(Seq::new(R.len(), |j: int| R[j]@[k])) }) }
pub proof fn dot_tr(a: Seq<Z>, R: Seq<Vc<Z>>, j: int, q: nat) requires q <= R.len(), 0 <= j < R.len() ensures dotcol(a, trm(R), j, q) == dot(R[j]@, a, q) decreases q
{ if q > 0 { dot_tr(a, R, j, (q - 1) as nat); let x = a[q - 1].v(); let y = R[j]@[q - 1].v(); assert(x * y == y * x) by(nonlinear_arith); } }
pub proof fn paired_nz(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>) requires paired(R, F, fd), square(F) ensures mdet(F) != 0
{ let n = R.len(); let B = trm(R); let d = Seq::new(n, |i: int| -fd[i].v());
  assert(diagp(F, B, d)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(F[i]@, B, j, n) == (if i == j { d[i] } else { 0 }) by { dot_tr(F[i]@, R, j, n); assert(facets_ok(R, F[i], i, fd[i].v())); assert(dot(R[j]@, F[i]@, R.len()) == (if j == i { -fd[i].v() } else { 0 })); } }
  assert forall|i: int| 0 <= i < n implies #[trigger] d[i] != 0 by { assert(fd[i].v() > 0) by { assert(facets_ok(R, F[i], i, fd[i].v())); } }
  diag_nz(F, B, d); }
pub proof fn dot_comm(a: Seq<Z>, b: Seq<Z>, n: nat) ensures dot(a, b, n) == dot(b, a, n) decreases n { if n > 0 { dot_comm(a, b, (n - 1) as nat); let x = a[n - 1].v(); let y = b[n - 1].v(); assert(x * y == y * x) by(nonlinear_arith); } }
pub proof fn paired_sym(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>) requires paired(R, F, fd) ensures paired(F, R, fd)
{ let n = R.len(); assert forall|i: int| 0 <= i < n implies facets_ok(F, #[trigger] R[i], i, fd[i].v()) && fd[i].v() > 0 by {
    assert(facets_ok(R, F[i], i, fd[i].v()));
    assert forall|r: int| 0 <= r < n implies #[trigger] dot(F[r]@, R[i]@, F.len()) == (if r == i { -fd[i].v() } else { 0 }) by { dot_comm(F[r]@, R[i]@, n); assert(facets_ok(R, F[r], r, fd[r].v())); assert(dot(R[i]@, F[r]@, R.len()) == (if i == r { -fd[r].v() } else { 0 })); } } }
pub proof fn dvd_abs(g: int, d: int) requires dvd(g, zabs(d)) ensures dvd(g, d) { let k = choose|k: int| #[trigger] (g * k) == zabs(d); if d < 0 { assert(g * (-k) == d) by(nonlinear_arith) requires g * k == -d; } }
pub proof fn simp_paired(R: Seq<Vc<Z>>, k: listCone, F: Seq<Vc<Z>>) requires simp_ok(R, k, F), square(F) ensures paired(R, F, k.facet_divisors@), fdiv_ok(k.facet_divisors@, mdet(R)), mdet(F) != 0
{ assert forall|i: int| 0 <= i < R.len() implies facets_ok(R, #[trigger] F[i], i, k.facet_divisors@[i].v()) && k.facet_divisors@[i].v() > 0 by { assert(fdone(R, F[i], i, k.facet_divisors@[i].v(), zabs(mdet(R)))); }
  assert forall|i: int| 0 <= i < R.len() implies dvd((#[trigger] k.facet_divisors@[i]).v(), mdet(R)) by { assert(fdone(R, F[i], i, k.facet_divisors@[i].v(), zabs(mdet(R)))); dvd_abs(k.facet_divisors@[i].v(), mdet(R)); }
  paired_nz(R, F, k.facet_divisors@); }
