@source convert.cpp
@include lists.vc proved
@include arith.vc
@include rvech.vc proved
@hidden is_lv nodes_lv chain_lv lset submap lrows rows_of mdet unitm gcdof dvd facets_ok fdone fdiv frem zabs scaled
@rs
// the matrix rows carried by a list
pub open spec fn rows_of(m: Map<usize, listVector>, ns: Seq<usize>) -> Seq<Vc<Z>> { ns.map_values(|q: usize| m[q].first) }
pub open spec fn lrows(m: Map<usize, listVector>, p: usize) -> Seq<Vc<Z>> { rows_of(m, nodes_lv(m, p)) }
pub open spec fn last0(ns: Seq<usize>) -> usize { if ns.len() == 0 { 0 } else { ns[ns.len() - 1] } }
// state of a list under construction: nodes ns, all new since m0
pub open spec fn building(m0: Map<usize, listVector>, m: Map<usize, listVector>, L: usize, e: usize, ns: Seq<usize>) -> bool {
    &&& chain_lv(m, L, ns)
    &&& e == last0(ns)
    &&& ext_lv(m0, m, ns)
}
pub proof fn snoc_lv(m0: Map<usize, listVector>, m: Map<usize, listVector>, L: usize, e: usize, ns: Seq<usize>, x: usize, v: Vc<Z>, h: i32, m2: Map<usize, listVector>, L2: usize)
    requires building(m0, m, L, e, ns), x != 0, !m.dom().contains(x),
        m2 =~= (if e == 0 { m.insert(x, listVector { first: v, rest: 0, index_hint: h }) } else { m.insert(x, listVector { first: v, rest: 0, index_hint: h }).insert(e, listVector { rest: x, ..m[e] }) }),
        L2 == (if e == 0 { x } else { L }),
    ensures building(m0, m2, L2, x, ns.push(x)), rows_of(m2, ns.push(x)) =~= rows_of(m, ns).push(v)
{
    let n2 = ns.push(x);
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] ns[i] != 0 && ns[i] != x && m.dom().contains(ns[i]) && (i < ns.len() - 1 ==> ns[i] != e) && (i == ns.len() - 1 ==> ns[i] == e) by { assert(ns[i] != 0); }
    assert(ns.len() > 0 ==> e != 0) by { if ns.len() > 0 { assert(ns[ns.len() - 1] != 0); } }
    assert forall|i: int| 0 <= i < n2.len() implies #[trigger] n2[i] != 0 && m2.dom().contains(n2[i]) && m2[n2[i]].rest == at(n2, i + 1) by {
        if i < ns.len() { assert(ns[i] != 0); assert(m[ns[i]].rest == at(ns, i + 1)); if i + 1 < ns.len() { assert(n2[i + 1] == ns[i + 1]); } else { assert(n2[i + 1] == x); } }
    }
    assert(n2.no_duplicates());
    assert forall|q: usize| #[trigger] m2.dom().contains(q) <==> m0.dom().contains(q) || n2.contains(q) by {
        assert(m.dom().contains(q) <==> m0.dom().contains(q) || ns.contains(q));
        if n2.contains(q) { let i = choose|i: int| 0 <= i < n2.len() && n2[i] == q; if i < ns.len() { assert(ns[i] == q); } }
        if ns.contains(q) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == q; assert(n2[i] == q); }
        assert(n2[ns.len() as int] == x);
        if e != 0 { assert(ns[ns.len() - 1] == e); }
    }
    assert forall|q: usize| #[trigger] m0.dom().contains(q) implies m2[q] == m0[q] && !n2.contains(q) by {
        assert(m.dom().contains(q)); assert(!ns.contains(q)); 
        if n2.contains(q) { let i = choose|i: int| 0 <= i < n2.len() && n2[i] == q; if i < ns.len() { assert(ns[i] == q); } }
        if e != 0 { assert(ns[ns.len() - 1] == e); }
    }
    assert forall|i: int| 0 <= i < n2.len() implies rows_of(m2, n2)[i] == rows_of(m, ns).push(v)[i] by { if i < ns.len() { assert(ns[i] != 0); } }
}
pub proof fn start_lv(m0: Map<usize, listVector>) ensures building(m0, m0, 0, 0, Seq::empty()), rows_of(m0, Seq::empty()) == Seq::<Vc<Z>>::empty() { assert(rows_of(m0, Seq::empty()) =~= Seq::<Vc<Z>>::empty()); }
pub proof fn built_lv(m0: Map<usize, listVector>, m: Map<usize, listVector>, L: usize, e: usize, ns: Seq<usize>)
    requires building(m0, m, L, e, ns)
    ensures is_lv(m, L), nodes_lv(m, L) == ns, submap(m0, m), lset(m, L).disjoint(m0.dom()), lrows(m, L) == rows_of(m, ns), m =~= m0.union_prefer_right(m.restrict(ns.to_set()))
{ def_lv(m, L, ns); ext_sub(m0, m, ns); 
  assert forall|q: usize| m.dom().contains(q) <==> m0.dom().contains(q) || ns.contains(q) by {}
}

@fn transformArrayBigVectorToListVector(const mat_ZZ &, int, int) as cv_m2l heap
@requires mwf(A), 0 <= numOfVectors <= A@.len()
@ensures is_lv(hp.listVector@, ret), others(hp, hp0), submap(hp0.listVector@, hp.listVector@), lset(hp.listVector@, ret).disjoint(hp0.listVector@.dom())
@ensures lrows(hp.listVector@, ret) =~= A@.subrange(0, numOfVectors as int)
@at ghost head
  hide(ext_lv); hide(building);
@at ghost entry
  let ghost mut ns = Seq::<usize>::empty(); let ghost mut h1 = hp; let ghost mut x = 0usize; let ghost m0 = hp.listVector@; let ghost mut pL = 0usize; let ghost mut pe = 0usize;
@invariant 0
  0 <= i <= numOfVectors, building(m0, hp.listVector@, L, endL, ns), rows_of(hp.listVector@, ns) =~= A@.subrange(0, i as int), i == ns.len(), others(hp, hp0), endL != 0 ==> hp.listVector@.dom().contains(endL)
@loopdec 0 numOfVectors - i
@at before 0
  start_lv(m0);
@at begin 0
  h1 = hp; pL = L; pe = endL;
@at call lv_create
  x = $ret;
@at end 0
  snoc_lv(m0, h1.listVector@, pL, pe, ns, x, A@[i as int], -1i32, hp.listVector@, L); ns = ns.push(x);
@at exit
  built_lv(m0, hp.listVector@, L, endL, ns);

@rs
pub open spec fn rdim(m: Map<usize, listVector>, ns: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < ns.len() ==> (#[trigger] m[ns[i]]).first@.len() == n }
pub open spec fn scaled(v: Vc<Z>, c: int, f: Vc<Z>, n: int) -> bool { v@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v@[j]).v() == c * f@[j].v() }
pub proof fn scaled_row(v: Vc<Z>, c: int, f: Vc<Z>) requires f@.len() == v@.len(), v@ == Seq::new(f@.len(), |i: int| mkz(c * f@[i].v())) ensures scaled(v, c, f, f@.len() as int) {}
pub proof fn walk_lv(m: Map<usize, listVector>, p: usize, i: int)
    requires is_lv(m, p), 0 <= i < nodes_lv(m, p).len()
    ensures m.dom().contains(nodes_lv(m, p)[i]), nodes_lv(m, p)[i] != 0, at(nodes_lv(m, p), i) == nodes_lv(m, p)[i], m[nodes_lv(m, p)[i]].rest == at(nodes_lv(m, p), i + 1), lrows(m, p)[i] == m[nodes_lv(m, p)[i]].first
{ get_lv(m, p); let ns = nodes_lv(m, p); assert(ns[i] != 0); }

@fn createConeDecMatrix(const listCone *, int, int) as cv_rays heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].rays), 0 <= numOfRays <= nodes_lv(hp.listVector@, hp.listCone@[cone].rays).len()
@requires numOfVars >= 0, rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].rays), numOfVars as int)
@ensures hp == hp0, mdim(ret, numOfRays as int, numOfVars as int), ret@ =~= lrows(hp.listVector@, hp.listCone@[cone].rays).subrange(0, numOfRays as int)
@at ghost entry
  let ghost ns = nodes_lv(hp.listVector@, hp.listCone@[cone].rays); let ghost rr = hp.listCone@[cone].rays;
  proof { get_lv(hp.listVector@, rr); nodes_len(hp.listVector@, rr); }
@invariant 0
  0 <= i <= numOfRays, hp == hp0, tmp == at(ns, i as int), mdim(mat, numOfRays as int, numOfVars as int), forall|k: int| 0 <= k < i ==> #[trigger] mat@[k] == lrows(hp.listVector@, rr)[k]
@loopdec 0 numOfRays - i
@at begin 0
  walk_lv(hp.listVector@, rr, i as int); assert(hp.listVector@[ns[i as int]].first@.len() == numOfVars);

@fn createFacetMatrix(const listCone *, int, int) as cv_fac heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].facets), 0 <= numOfFacets <= nodes_lv(hp.listVector@, hp.listCone@[cone].facets).len()
@requires numOfVars >= 0, rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].facets), numOfVars as int)
@requires numOfFacets <= hp.listCone@[cone].facet_divisors@.len(), forall|k: int| 0 <= k < numOfFacets ==> (#[trigger] hp.listCone@[cone].facet_divisors@[k]).v() != 0 && frem(hp.listCone@[cone].determinant.v(), hp.listCone@[cone].facet_divisors@[k].v()) == 0
@ensures hp == hp0, mdim(ret, numOfFacets as int, numOfVars as int)
@ensures forall|k: int| 0 <= k < numOfFacets ==> scaled(#[trigger] ret@[k], fdiv(hp.listCone@[cone].determinant.v(), hp.listCone@[cone].facet_divisors@[k].v()), lrows(hp.listVector@, hp.listCone@[cone].facets)[k], numOfVars as int)
@at ghost entry
  let ghost ns = nodes_lv(hp.listVector@, hp.listCone@[cone].facets); let ghost rr = hp.listCone@[cone].facets; let ghost k0 = hp.listCone@[cone];
  proof { get_lv(hp.listVector@, rr); }
@invariant 0
  0 <= i <= numOfFacets, hp == hp0, tmp == at(ns, i as int), mdim(mat, numOfFacets as int, numOfVars as int), forall|k: int| 0 <= k < i ==> scaled(#[trigger] mat@[k], fdiv(k0.determinant.v(), k0.facet_divisors@[k].v()), lrows(hp.listVector@, rr)[k], numOfVars as int)
@loopdec 0 numOfFacets - i
@at begin 0
  walk_lv(hp.listVector@, rr, i as int); assert(hp.listVector@[ns[i as int]].first@.len() == numOfVars); assert(k0.facet_divisors@[i as int].v() != 0);
@at end 0
  scaled_row(mat@[i as int], fdiv(k0.determinant.v(), k0.facet_divisors@[i as int].v()), lrows(hp.listVector@, rr)[i as int]);

@fn createFacetMatrix2(const listCone *, int, int) as cv_fac2 heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].facets), 0 <= numOfFacets <= nodes_lv(hp.listVector@, hp.listCone@[cone].facets).len()
@requires numOfVars >= 0, rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].facets), numOfVars as int)
@requires numOfFacets <= hp.listCone@[cone].facet_divisors@.len(), forall|k: int| 0 <= k < numOfFacets ==> (#[trigger] hp.listCone@[cone].facet_divisors@[k]).v() != 0 && frem(zabs(hp.listCone@[cone].determinant.v()), hp.listCone@[cone].facet_divisors@[k].v()) == 0
@ensures hp == hp0, mdim(ret, numOfFacets as int, numOfVars as int)
@ensures forall|k: int| 0 <= k < numOfFacets ==> scaled(#[trigger] ret@[k], fdiv(zabs(hp.listCone@[cone].determinant.v()), hp.listCone@[cone].facet_divisors@[k].v()), lrows(hp.listVector@, hp.listCone@[cone].facets)[k], numOfVars as int)
@at ghost entry
  let ghost ns = nodes_lv(hp.listVector@, hp.listCone@[cone].facets); let ghost rr = hp.listCone@[cone].facets; let ghost k0 = hp.listCone@[cone];
  proof { get_lv(hp.listVector@, rr); }
@invariant 0
  0 <= i <= numOfFacets, hp == hp0, tmp == at(ns, i as int), mdim(mat, numOfFacets as int, numOfVars as int), forall|k: int| 0 <= k < i ==> scaled(#[trigger] mat@[k], fdiv(zabs(k0.determinant.v()), k0.facet_divisors@[k].v()), lrows(hp.listVector@, rr)[k], numOfVars as int)
@loopdec 0 numOfFacets - i
@at begin 0
  walk_lv(hp.listVector@, rr, i as int); assert(hp.listVector@[ns[i as int]].first@.len() == numOfVars); assert(k0.facet_divisors@[i as int].v() != 0);
@at end 0
  scaled_row(mat@[i as int], fdiv(zabs(k0.determinant.v()), k0.facet_divisors@[i as int].v()), lrows(hp.listVector@, rr)[i as int]);

@fn convert_listVector_to_mat_ZZ(listVector *) as cv_l2m heap
@requires is_lv(hp.listVector@, list), list != 0, len32(nodes_lv(hp.listVector@, list).len()), hp.listVector@[list].first@.len() <= i32::MAX, rdim(hp.listVector@, nodes_lv(hp.listVector@, list), hp.listVector@[list].first@.len() as int)
@ensures hp == hp0, mdim(ret, hp.listVector@[list].first@.len() as int, nodes_lv(hp.listVector@, list).len() as int)
@ensures forall|j: int, k: int| 0 <= j < hp.listVector@[list].first@.len() && 0 <= k < nodes_lv(hp.listVector@, list).len() ==> #[trigger] ment(ret@, j, k) == ment(lrows(hp.listVector@, list), k, j)
@at ghost entry
  let ghost ns = nodes_lv(hp.listVector@, list);
  proof { get_lv(hp.listVector@, list); walk_lv(hp.listVector@, list, 0); assert(hp.listVector@[ns[0]].first@.len() == hp.listVector@[list].first@.len()); }
@invariant 0
  0 <= cur_col <= ns.len(), hp == hp0, tmp_list == at(ns, cur_col as int), mdim(m, cols as int, rows as int), forall|k: int| 0 <= k < cur_col ==> #[trigger] m@[k] == lrows(hp.listVector@, list)[k]
@loopdec 0 ns.len() - cur_col
@at begin 0
  assert(cur_col < ns.len()); walk_lv(hp.listVector@, list, cur_col as int); assert(hp.listVector@[ns[cur_col as int]].first@.len() == rows);
@at after 0
  if cur_col < ns.len() { walk_lv(hp.listVector@, list, cur_col as int); }

@source dual.cpp
@rs
pub proof fn dot_scaled(r: Seq<Z>, a: Seq<Z>, b: Seq<Z>, g: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v() == g * b[k].v() ensures dot(r, a, n) == g * dot(r, b, n) decreases n
{ if n > 0 { dot_scaled(r, a, b, g, (n - 1) as nat); let x = dot(r, b, (n - 1) as nat); let y = r[n - 1].v(); let z = b[n - 1].v(); assert(a[n - 1].v() == g * z);
    assert(g * x + y * (g * z) == g * (x + y * z)) by(nonlinear_arith); } else { assert(g * 0 == 0); } }
pub proof fn dot_col(a: Seq<Z>, f: Seq<Z>, x: Seq<Vc<Z>>, j: int, s: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] f[k]).v() == s * x[k]@[j].v() ensures dot(a, f, n) == s * dotcol(a, x, j, n) decreases n
{ if n > 0 { dot_col(a, f, x, j, s, (n - 1) as nat); let u = dotcol(a, x, j, (n - 1) as nat); let y = a[n - 1].v(); let z = x[n - 1]@[j].v(); assert(f[n - 1].v() == s * z);
    assert(s * u + y * (s * z) == s * (u + y * z)) by(nonlinear_arith); } else { assert(s * 0 == 0); } }
pub proof fn dvd_dot(g: int, r: Seq<Z>, a: Seq<Z>, n: nat)
    requires forall|k: int| 0 <= k < n ==> dvd(g, (#[trigger] a[k]).v()) ensures dvd(g, dot(r, a, n)) decreases n
{ if n > 0 { dvd_dot(g, r, a, (n - 1) as nat); let x = dot(r, a, (n - 1) as nat); let y = r[n - 1].v(); let z = a[n - 1].v(); assert(dvd(g, z));
    let p = choose|k: int| #[trigger] (g * k) == x; let q = choose|k: int| #[trigger] (g * k) == z;
    assert(g * (p + y * q) == x + y * z) by(nonlinear_arith) requires g * p == x, g * q == z; } else { assert(g * 0 == 0); } }
// products of the rays r with the facets f: -d on the diagonal
pub open spec fn facets_ok(rays: Seq<Vc<Z>>, f: Vc<Z>, i: int, d: int) -> bool {
    forall|r: int| 0 <= r < rays.len() ==> #[trigger] dot(rays[r]@, f@, rays.len()) == (if r == i { -d } else { 0 })
}
pub proof fn inv_facets(rays: Seq<Vc<Z>>, x: Seq<Vc<Z>>, f: Seq<Vc<Z>>, n: nat, d: int, s: int)
    requires rays.len() == n, unitm(rays, x, n, d), f.len() == n, s == 1 || s == -1, forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] f[i]@[k].v() == s * x[k]@[i].v()
    ensures forall|i: int| 0 <= i < n ==> facets_ok(rays, #[trigger] f[i], i, -(s * d))
{
    assert forall|i: int| 0 <= i < n implies facets_ok(rays, #[trigger] f[i], i, -(s * d)) by {
        assert forall|r: int| 0 <= r < n implies #[trigger] dot(rays[r]@, f[i]@, n) == (if r == i { s * d } else { 0 }) by {
            dot_col(rays[r]@, f[i]@, x, i, s, n);
            assert(dotcol(rays[r]@, x, i, n) == (if r == i { d } else { 0 }));
            assert(s * 0 == 0);
        }
    }
}
pub open spec fn fdone(rays: Seq<Vc<Z>>, f: Vc<Z>, i: int, fd: int, d: int) -> bool {
    facets_ok(rays, f, i, fd) && fd > 0 && dvd(fd, d) && primitive(f@, rays.len())
}
pub open spec fn divrow(a: Seq<Z>, b: Seq<Z>, g: int, n: nat, j: int) -> bool {
    a.len() == n && b.len() == n && (forall|k: int| 0 <= k < j ==> (#[trigger] a[k]).v() == g * b[k].v()) && (forall|k: int| j <= k < n ==> #[trigger] b[k] == a[k])
}
pub proof fn gcd_nz(rays: Seq<Vc<Z>>, a: Vc<Z>, i: int, d: int, g: int)
    requires 0 <= i < rays.len(), facets_ok(rays, a, i, d), d > 0, gcdof(g, a@, rays.len()) ensures g > 0, dvd(g, d)
{
    let n = rays.len(); dvd_dot(g, rays[i]@, a@, n); assert(dot(rays[i]@, a@, n) == -d);
    let k = choose|k: int| #[trigger] (g * k) == -d; assert(g * (-k) == d) by(nonlinear_arith) requires g * k == -d;
    if g == 0 { assert(g * k == 0) by(nonlinear_arith) requires g == 0; }
}
pub proof fn facet_done(rays: Seq<Vc<Z>>, a: Vc<Z>, b: Vc<Z>, i: int, d: int, g: int)
    requires 0 <= i < rays.len(), facets_ok(rays, a, i, d), d > 0, gcdof(g, a@, rays.len()), forall|k: int| 0 <= k < rays.len() ==> (#[trigger] a@[k]).v() == g * b@[k].v()
    ensures g > 0, fdiv(d, g) * g == d, frem(d, g) == 0, fdone(rays, b, i, fdiv(d, g), d)
{
    let n = rays.len(); gcd_nz(rays, a, i, d, g); gcd_prim(g, a@, b@, n); exact_div(d, g);
    let fd = fdiv(d, g);
    assert(fd > 0) by(nonlinear_arith) requires fd * g == d, d > 0, g > 0;
    assert(facets_ok(rays, b, i, fd)) by { assert forall|r: int| 0 <= r < n implies #[trigger] dot(rays[r]@, b@, n) == (if r == i { -fd } else { 0 }) by {
        dot_scaled(rays[r]@, a@, b@, g, n); let y = dot(rays[r]@, b@, n);
        assert(dot(rays[r]@, a@, n) == g * y);
        if r == i { assert(g * (-fd) == -d) by(nonlinear_arith) requires fd * g == d; ring_cancel(g, y, -fd); } else { assert(g * 0 == 0); ring_cancel(g, y, 0); } } }
    assert(fd * g == d);
}


// value of a simplicial cone's dual description
pub open spec fn simp_ok(rays: Seq<Vc<Z>>, k: listCone, fs: Seq<Vc<Z>>) -> bool {
    &&& k.determinant.v() == mdet(rays)
    &&& k.dual_determinant.v() == mdet(fs)
    &&& fs.len() == rays.len() && k.facet_divisors@.len() == rays.len()
    &&& forall|i: int| 0 <= i < rays.len() ==> fdone(rays, #[trigger] fs[i], i, k.facet_divisors@[i].v(), zabs(mdet(rays)))
}
pub open spec fn square(m: Seq<Vc<Z>>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@.len() == m.len() }
// a heap that differs from m at the nodes in ns only, and there only in the vector
pub open spec fn revec(m: Map<usize, listVector>, m2: Map<usize, listVector>, x: usize, v: Vc<Z>) -> bool { m2 =~= m.insert(x, listVector { first: v, ..m[x] }) }
pub proof fn set_lv(m0: Map<usize, listVector>, m: Map<usize, listVector>, p: usize, i: int, v: Vc<Z>, m2: Map<usize, listVector>)
    requires is_lv(m, p), 0 <= i < nodes_lv(m, p).len(), submap(m0, m), lset(m, p).disjoint(m0.dom()), revec(m, m2, nodes_lv(m, p)[i], v)
    ensures is_lv(m2, p), nodes_lv(m2, p) == nodes_lv(m, p), submap(m0, m2), lset(m2, p).disjoint(m0.dom()), lrows(m2, p) =~= lrows(m, p).update(i, v), m2.dom() =~= m.dom()
{
    get_lv(m, p); let ns = nodes_lv(m, p); let x = ns[i];
    assert(ns[i] != 0);
    assert(chain_lv(m2, p, ns)) by { assert forall|q: int| 0 <= q < ns.len() implies #[trigger] ns[q] != 0 && m2.dom().contains(ns[q]) && m2[ns[q]].rest == at(ns, q + 1) by { assert(m[ns[q]].rest == at(ns, q + 1)); } }
    def_lv(m2, p, ns);
    assert(lset(m, p).contains(x));
    assert(!m0.dom().contains(x));
    assert forall|q: usize| #[trigger] m0.dom().contains(q) implies m2.dom().contains(q) && m2[q] == m0[q] by { assert(m.dom().contains(q) && m[q] == m0[q]); }
    assert forall|q: int| 0 <= q < ns.len() implies lrows(m2, p)[q] == lrows(m, p).update(i, v)[q] by { assert(ns[q] != 0); if q != i { assert(ns[q] != ns[i]); } }
}
pub proof fn simp_step(rays: Seq<Vc<Z>>, a: Seq<Vc<Z>>, b: Seq<Vc<Z>>, i: int, g: int, dd: int)
    requires square(a), square(b), a.len() == b.len(), 0 <= i < a.len(), b =~= a.update(i, b[i]), g > 0, dd == mdet(a), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[i]@[k]).v() == g * b[i]@[k].v()
    ensures fdiv(dd, g) == mdet(b)
{
    assert(rowscaled(a, b, i, g)); det_scale(a, b, i, g);
    assert(dvd(g, dd)); exact_div(dd, g); ring_cancel(g, fdiv(dd, g), mdet(b));
}

@fn computeDetAndFacetsOfSimplicialCone(listCone *, int) as simp_facets heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].rays), hp.listCone@[cone].facets == 0
@requires numOfVars == nodes_lv(hp.listVector@, hp.listCone@[cone].rays).len(), len32(nodes_lv(hp.listVector@, hp.listCone@[cone].rays).len())
@requires rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].rays), numOfVars as int), mdet(lrows(hp.listVector@, hp.listCone@[cone].rays)) != 0
@ensures hp.Vertex@ == hp0.Vertex@, hp.rationalVector@ == hp0.rationalVector@, submap(hp0.listVector@, hp.listVector@)
@ensures hp.listCone@ =~= hp0.listCone@.insert(cone, hp.listCone@[cone]), hp.listCone@[cone] == (listCone { determinant: hp.listCone@[cone].determinant, dual_determinant: hp.listCone@[cone].dual_determinant, facet_divisors: hp.listCone@[cone].facet_divisors, facets: hp.listCone@[cone].facets, ..(hp0.listCone@[cone]) })
@ensures is_lv(hp.listVector@, hp.listCone@[cone].facets), lset(hp.listVector@, hp.listCone@[cone].facets).disjoint(hp0.listVector@.dom()), square(lrows(hp.listVector@, hp.listCone@[cone].facets))
@ensures simp_ok(lrows(hp0.listVector@, hp0.listCone@[cone].rays), hp.listCone@[cone], lrows(hp.listVector@, hp.listCone@[cone].facets))
@at ghost entry
  let ghost m0 = hp.listVector@; let ghost k0 = hp.listCone@[cone]; let ghost ns = nodes_lv(m0, k0.rays); let ghost R = lrows(m0, k0.rays); let ghost mut F = R; let ghost mut fp = 0usize; let ghost mut ma = m0; let ghost mut FA = R; let ghost mut g = 0int; let ghost mut lc = hp.listCone@;
  let ghost n = ns.len(); let ghost d = zabs(mdet(R)); let ghost mut X = R; let ghost mut fns = ns;
  proof { get_lv(m0, k0.rays); rows_len(m0, k0.rays, n as int); }
@invariant 0
  0 <= i <= numOfVars, hp == hp0, rays == at(ns, i as int), mdim(Mat, numOfVars as int, numOfVars as int), forall|k: int| 0 <= k < i ==> #[trigger] Mat@[k] == R[k]
@loopdec 0 numOfVars - i
@at begin 0
  walk_lv(m0, k0.rays, i as int); assert(m0[ns[i as int]].first@.len() == numOfVars);
@at after 0
  assert(Mat@ =~= R);
@at after /mt_inv/
  X = Inverse@;
@at after /mt_transpose/
  start_facets(R, X, Inverse@, n, if det.v() < 0 { 1int } else { -1int });
@at before 1
  F = Inverse@; fp = hp.listCone@[cone].facets; fns = nodes_lv(hp.listVector@, fp); lc = hp.listCone@;
  assert(lrows(hp.listVector@, fp) =~= F); nodes_len(hp.listVector@, fp); got_lv(hp.listVector@, fp);
@invariant 1
  0 <= i <= numOfVars, hp.Vertex@ == hp0.Vertex@, hp.rationalVector@ == hp0.rationalVector@, fstate(m0, hp.listVector@, fp, F, fns), fns.len() == n, facet == at(fns, i as int),
  cstate(hp0.listCone@, hp.listCone@, cone, k0, fp, R, F),
  forall|k: int| 0 <= k < i ==> fdone(R, #[trigger] F[k], k, hp.listCone@[cone].facet_divisors@[k].v(), d),
  forall|k: int| i <= k < n ==> facets_ok(R, #[trigger] F[k], k, d)
@loopdec 1 numOfVars - i
@at begin 1
  gcd_start(F[i as int]@); walk_lv(hp.listVector@, fp, i as int); FA = F; lc = hp.listCone@; facets_ok_d(R, F[i as int], i as int, d);
@invariant 2
  0 <= j <= numOfVars, gcdof(gcd.v(), F[i as int]@, j as nat)
@loopdec 2 numOfVars - j
@at ghost begin 2
  let ghost g0 = gcd.v();
@at end 2
  gcd_step(g0, gcd.v(), F[i as int]@, j as nat);
@at after 2
  g = gcd.v(); gcd_nz(R, F[i as int], i as int, d, g);
@invariant 3
  0 <= j <= numOfVars, hp.Vertex@ == hp0.Vertex@, hp.rationalVector@ == hp0.rationalVector@, hp.listCone@ == lc, fstate(m0, hp.listVector@, fp, F, fns), FA.len() == n, F =~= FA.update(i as int, F[i as int]), divrow(FA[i as int]@, F[i as int]@, g, n, j as int)
@loopdec 3 numOfVars - j
@at ghost begin 3
  let ghost m1 = hp.listVector@;
@at begin 3
  walk_lv(hp.listVector@, fp, i as int); dvd_at(FA[i as int]@, g, n, j as int);
@at end 3
  set_lv(m0, m1, fp, i as int, hp.listVector@[facet].first, hp.listVector@);
  F = F.update(i as int, hp.listVector@[facet].first);
@at after 3
  simp_step(R, FA, F, i as int, g, hp.listCone@[cone].dual_determinant.v());
@at ghost after /remainder: Z/
  proof { assert(forall|k: int| 0 <= k < n ==> (#[trigger] FA[i as int]@[k]).v() == g * F[i as int]@[k].v()); facet_done(R, FA[i as int], F[i as int], i as int, d, g); }
@at end 1
  walk_lv(hp.listVector@, fp, i as int);
@rs
pub proof fn rows_len(m: Map<usize, listVector>, p: usize, n: int) requires rdim(m, nodes_lv(m, p), n), n == nodes_lv(m, p).len() ensures square(lrows(m, p)), lrows(m, p).len() == n { assert forall|i: int| 0 <= i < n implies (#[trigger] lrows(m, p)[i])@.len() == n by { assert(m[nodes_lv(m, p)[i]].first@.len() == n); } }
pub proof fn nodes_len(m: Map<usize, listVector>, p: usize) ensures lrows(m, p).len() == nodes_lv(m, p).len() {}
pub proof fn got_lv(m: Map<usize, listVector>, p: usize) requires is_lv(m, p) ensures p == at(nodes_lv(m, p), 0) { get_lv(m, p); }
pub proof fn facets_ok_d(R: Seq<Vc<Z>>, f: Vc<Z>, i: int, d: int) ensures d >= 0 ==> true {}
pub proof fn start_facets(R: Seq<Vc<Z>>, X: Seq<Vc<Z>>, G: Seq<Vc<Z>>, n: nat, s: int)
    requires R.len() == n, square(R), mdet(R) != 0, unitm(R, X, n, mdet(R)), G.len() == n, s == (if mdet(R) < 0 { 1int } else { -1int }), forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] G[i]@[k].v() == s * X[k]@[i].v()
    ensures forall|i: int| 0 <= i < n ==> facets_ok(R, #[trigger] G[i], i, zabs(mdet(R))), zabs(mdet(R)) > 0
{ inv_facets(R, X, G, n, mdet(R), s); assert(-(s * mdet(R)) == zabs(mdet(R))) by { lemma_mul_small(s, mdet(R)); } }
pub open spec fn fstate(m0: Map<usize, listVector>, m: Map<usize, listVector>, fp: usize, F: Seq<Vc<Z>>, fns: Seq<usize>) -> bool {
    is_lv(m, fp) && submap(m0, m) && lset(m, fp).disjoint(m0.dom()) && lrows(m, fp) == F && square(F) && nodes_lv(m, fp) == fns && F.len() == fns.len()
}
pub open spec fn cstate(lc0: Map<usize, listCone>, lc: Map<usize, listCone>, cone: usize, k0: listCone, fp: usize, R: Seq<Vc<Z>>, F: Seq<Vc<Z>>) -> bool {
    let k = lc[cone];
    &&& lc =~= lc0.insert(cone, k)
    &&& k == (listCone { determinant: k.determinant, dual_determinant: k.dual_determinant, facet_divisors: k.facet_divisors, facets: fp, ..k0 })
    &&& k.determinant.v() == mdet(R)
    &&& k.dual_determinant.v() == mdet(F)
    &&& k.facet_divisors@.len() == R.len()
}
pub proof fn dvd_at(a: Seq<Z>, g: int, n: nat, j: int) requires gcdof(g, a, n), 0 <= j < n, g > 0 ensures g * fdiv(a[j].v(), g) == a[j].v() { assert(dvd(g, a[j].v())); exact_div(a[j].v(), g); }

@enum BarvinokParameters::DualizationType
@struct BarvinokParameters
@ptr ref BarvinokParameters
@extern dualizeCone_with_cdd(listCone *, int) as dual_cdd heap
@requires false
@extern dualizeCone_with_4ti2(listCone *, int) as dual_4ti2 heap
@requires false
@rs
pub open spec fn swapped(k: listCone, k2: listCone) -> bool {
    k2 == (listCone { determinant: k.dual_determinant, dual_determinant: k.determinant, rays: k.facets, facets: k.rays, subspace_generators: k.equalities, equalities: k.subspace_generators, ..k })
}
// the cone as it was before its two descriptions were exchanged
pub open spec fn unswap(k: listCone) -> listCone { listCone { determinant: k.dual_determinant, dual_determinant: k.determinant, rays: k.facets, facets: k.rays, subspace_generators: k.equalities, equalities: k.subspace_generators, ..k } }
pub open spec fn simplicial(hp: Hp, cone: usize, n: int) -> bool {
    let k = hp.listCone@[cone]; let m = hp.listVector@;
    hp.listCone@.dom().contains(cone) && is_lv(m, k.rays) && n == nodes_lv(m, k.rays).len() && len32(nodes_lv(m, k.rays).len()) && rdim(m, nodes_lv(m, k.rays), n) && mdet(lrows(m, k.rays)) != 0
}
pub open spec fn dualized(h0: Hp, hp: Hp, cone: usize) -> bool {
    let k0 = h0.listCone@[cone]; let k = hp.listCone@[cone];
    &&& hp.Vertex@ == h0.Vertex@ && hp.rationalVector@ == h0.rationalVector@ && hp.listCone@ =~= h0.listCone@.insert(cone, k) && submap(h0.listVector@, hp.listVector@)
    &&& k0.facets != 0 ==> hp.listVector@ == h0.listVector@ && swapped(k0, k)
    &&& k0.facets == 0 ==> {
        &&& unswap(k) == (listCone { determinant: k.dual_determinant, dual_determinant: k.determinant, facet_divisors: k.facet_divisors, facets: k.rays, ..k0 })
        &&& is_lv(hp.listVector@, k.rays) && lset(hp.listVector@, k.rays).disjoint(h0.listVector@.dom()) && square(lrows(hp.listVector@, k.rays))
        &&& simp_ok(lrows(h0.listVector@, k0.rays), unswap(k), lrows(hp.listVector@, k.rays))
    }
}
@fn dualizeCone(listCone *, int, BarvinokParameters *) as dual_cone heap
@requires hp.listCone@.dom().contains(tmp), hp.listCone@[tmp].facets == 0 ==> simplicial(hp, tmp, params.Number_of_Variables as int)
@requires is_lv(hp.listVector@, hp.listCone@[tmp].rays), len32(nodes_lv(hp.listVector@, hp.listCone@[tmp].rays).len())
@ensures dualized(hp0, hp, tmp), params == params0
@at entry
  sub_refl(hp.listVector@);
@rs
pub proof fn sub_refl(m: Map<usize, listVector>) ensures submap(m, m) {}
@end
