@source barvinok/barvinok.cpp
@include kcone.vc
@include barv.vc proved
@enum BarvinokParameters::DecompositionType
@enum BarvinokParameters::ShortVectorType
@struct Single_Cone_Parameters
@merge Single_Cone_Parameters BarvinokParameters
@ptr ref Single_Cone_Parameters
@ghostfield BarvinokParameters log Seq<LogE>
@rs
// what is delivered to the consumer
pub ghost struct LogE { pub coef: int, pub det: int, pub ddet: int, pub rays: Seq<Vc<Z>>, pub facets: Seq<Vc<Z>>, pub fd: Seq<Z>, pub v: (Vc<Z>, Vc<Z>) }
pub open spec fn kid(h0: Hp, C: usize, h: Hp, c: usize, d: Z, w: Vc<Z>, i: int, n: int) -> bool {
    let R = rowsR(h0, C);
    if d.v() == 0 { c == 0 } else { kc(h, c, n) && rowsR(h, c) == R.update(i, w) && h.listCone@[c].coefficient == h0.listCone@[C].coefficient * (sgi(mdet(R)) * sgi(d.v())) && vv(h, c) == vv(h0, C) && newto(h0, own(h, c)) }
}
pub open spec fn kids(h0: Hp, C: usize, h: Hp, cs: Seq<usize>, D: Seq<Z>, w: Vc<Z>, n: int, i: int) -> bool { forall|q: int| 0 <= q < i ==> kid(h0, C, h, #[trigger] cs[q], D[q], w, q, n) }
pub open spec fn kids_apart(h: Hp, cs: Seq<usize>, D: Seq<Z>, i: int) -> bool { forall|q: int, r: int| 0 <= q < i && 0 <= r < i && q != r && D[q].v() != 0 && D[r].v() != 0 ==> apart(own(h, #[trigger] cs[q]), own(h, #[trigger] cs[r])) }
pub open spec fn stepped(h0: Hp, C: usize, h: Hp, cs: Seq<usize>, D: Seq<Z>, w: Vc<Z>, n: int) -> bool {
    w@.len() == n && posrow(rowsR(h0, C), w) && alldets(rowsR(h0, C), w, D, n) && detsmall(D, mdet(rowsR(h0, C)), n) && kids(h0, C, h, cs, D, w, n, n) && kids_apart(h, cs, D, n)
}
pub proof fn kids_next(h0: Hp, C: usize, h1: Hp, h2: Hp, cs: Seq<usize>, cs2: Seq<usize>, D: Seq<Z>, w: Vc<Z>, n: int, i: int)
    requires grows(h0, h1), grows(h1, h2), kids(h0, C, h1, cs, D, w, n, i), kids_apart(h1, cs, D, i), 0 <= i < cs.len(), cs2 == cs.update(i, cs2[i]),
        D[i].v() == 0 ==> cs2[i] == 0, 
        D[i].v() != 0 ==> kc(h2, cs2[i], n) && rowsR(h2, cs2[i]) == rowsR(h0, C).update(i, w) && h2.listCone@[cs2[i]].coefficient == h0.listCone@[C].coefficient * (sgi(mdet(rowsR(h0, C))) * sgi(D[i].v())) && vv(h2, cs2[i]) == vv(h0, C) && newto(h1, own(h2, cs2[i]))
    ensures kids(h0, C, h2, cs2, D, w, n, i + 1), kids_apart(h2, cs2, D, i + 1), grows(h0, h2)
{
    hide(kc); hide(grows); hide(samecone); hide(newto); hide(apart); hide(mdet);
    grows_trans(h0, h1, h2);
    assert forall|q: int| 0 <= q < i + 1 implies kid(h0, C, h2, #[trigger] cs2[q], D[q], w, q, n) by {
        if q < i { assert(kid(h0, C, h1, cs[q], D[q], w, q, n)); if D[q].v() != 0 { grows_kc(h1, h2, cs[q], n); reveal(samecone); } }
        else if D[i].v() != 0 { grows_new(h0, h1, own(h2, cs2[i])); } }
    assert forall|q: int, r: int| 0 <= q < i + 1 && 0 <= r < i + 1 && q != r && D[q].v() != 0 && D[r].v() != 0 implies apart(own(h2, #[trigger] cs2[q]), own(h2, #[trigger] cs2[r])) by {
        if q < i { assert(kid(h0, C, h1, cs[q], D[q], w, q, n)); grows_kc(h1, h2, cs[q], n); }
        if r < i { assert(kid(h0, C, h1, cs[r], D[r], w, r, n)); grows_kc(h1, h2, cs[r], n); }
        reveal(samecone);
        if q < i && r < i { assert(apart(own(h1, cs[q]), own(h1, cs[r]))); }
        else if q < i { kc_in(h1, cs[q], n); new_apart(h1, own(h1, cs[q]), own(h2, cs2[i])); }
        else { kc_in(h1, cs[r], n); new_apart(h1, own(h1, cs[r]), own(h2, cs2[i])); } }
}
pub proof fn sgn_small(c: int, a: int, b: int) requires -0x8000_0000 < c <= 0x7fff_ffff ensures -0x8000_0000 < c * sgi(a) <= 0x7fff_ffff, -0x8000_0000 < (c * sgi(a)) * sgi(b) <= 0x7fff_ffff, (c * sgi(a)) * sgi(b) == c * (sgi(a) * sgi(b))
{ let s = sgi(a); let t = sgi(b); assert(c * 1 == c && c * 0 == 0 && c * (-1) == -c); assert((-c) * 1 == -c && (-c) * (-1) == c && (-c) * 0 == 0); assert(0 * t == 0); assert((c * s) * t == c * (s * t)) by(nonlinear_arith); }
pub proof fn kc_fac(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures h.listCone@[c].facet_divisors@.len() == n, mdet(rowsR(h, c)) != 0, h.listCone@[c].determinant.v() == mdet(rowsR(h, c)), forall|k: int| 0 <= k < n ==> (#[trigger] h.listCone@[c].facet_divisors@[k]).v() != 0 && frem(h.listCone@[c].determinant.v(), h.listCone@[c].facet_divisors@[k].v()) == 0
{ let fd = h.listCone@[c].facet_divisors@; assert forall|k: int| 0 <= k < n implies (#[trigger] fd[k]).v() != 0 && frem(h.listCone@[c].determinant.v(), fd[k].v()) == 0 by { assert(facets_ok(rowsR(h, c), rowsF(h, c)[k], k, fd[k].v())); assert(dvd(fd[k].v(), h.listCone@[c].determinant.v())); exact_div(h.listCone@[c].determinant.v(), fd[k].v()); } }
pub proof fn sq_rdim(m: Map<usize, listVector>, p: usize, n: int) requires square(lrows(m, p)), lrows(m, p).len() == n ensures rdim(m, nodes_lv(m, p), n), nodes_lv(m, p).len() == n
{ let ns = nodes_lv(m, p); assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] m[ns[i]]).first@.len() == n by { assert(lrows(m, p)[i]@.len() == n); } }
pub proof fn kc_rdim(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures ({ let k = h.listCone@[c]; let m = h.listVector@; rdim(m, nodes_lv(m, k.rays), n) && rdim(m, nodes_lv(m, k.facets), n) && nodes_lv(m, k.rays).len() == n && nodes_lv(m, k.facets).len() == n })
{ sq_rdim(h.listVector@, h.listCone@[c].rays, n); sq_rdim(h.listVector@, h.listCone@[c].facets, n); }
pub proof fn nonzero_sq(R: Seq<Vc<Z>>, i: int, w: Vc<Z>) requires square(R), w@.len() == R.len(), 0 <= i < R.len() ensures square(R.update(i, w)) {}

// the new cone has been filled in (h4) and its facets computed (h5)
pub proof fn mk_new(rv: rationalVector, h1: Hp, h4: Hp, h5: Hp, c: usize, M: Seq<Vc<Z>>, d: Z, coef: int, n: int)
    requires rv_wf(rv), rv.enumerator@.len() == n, 1 <= n < 0x7fff_fffe, c != 0, !h1.listCone@.dom().contains(c), h4.listCone@.dom().contains(c), keptx(h1.listCone@, h4.listCone@, c), M.len() == n, square(M), mdet(M) == d.v(), d.v() != 0,
        submap(h1.listVector@, h4.listVector@), submap(h1.Vertex@, h4.Vertex@), submap(h1.rationalVector@, h4.rationalVector@),
        ({ let k = h4.listCone@[c]; let m = h4.listVector@; let x = h4.Vertex@[k.vertex]; 
            &&& is_lv(m, k.rays) && lset(m, k.rays).disjoint(h1.listVector@.dom()) && lrows(m, k.rays) == M && k.latticePoints == 0 && k.subspace_generators == 0 && k.equalities == 0 && k.rest == 0 && k.facets == 0 && k.coefficient == coef
            &&& k.vertex != 0 && h4.Vertex@.dom().contains(k.vertex) && !h1.Vertex@.dom().contains(k.vertex) && h4.rationalVector@.dom().contains(x.vertex) && !h1.rationalVector@.dom().contains(x.vertex) && h4.rationalVector@[x.vertex] == rv }),
        h5.Vertex@ == h4.Vertex@, h5.rationalVector@ == h4.rationalVector@, submap(h4.listVector@, h5.listVector@),
        ({ let k = h5.listCone@[c]; let k0 = h4.listCone@[c]; h5.listCone@ =~= h4.listCone@.insert(c, k) && k == (listCone { determinant: k.determinant, dual_determinant: k.dual_determinant, facet_divisors: k.facet_divisors, facets: k.facets, ..k0 })
            && is_lv(h5.listVector@, k.facets) && lset(h5.listVector@, k.facets).disjoint(h4.listVector@.dom()) && square(lrows(h5.listVector@, k.facets)) && simp_ok(lrows(h4.listVector@, k0.rays), k, lrows(h5.listVector@, k.facets)) })
    ensures grows(h1, h5), kc(h5, c, n), rowsR(h5, c) == M, h5.listCone@[c].coefficient == coef, vv(h5, c) == (rv.enumerator, rv.denominator), newto(h1, own(h5, c))
{
    hide(is_lv); hide(lset); hide(nodes_lv); hide(lrows); hide(mdet); hide(facets_ok); hide(rv_wf); hide(square); hide(submap);
    let k = h5.listCone@[c]; let m4 = h4.listVector@; let m5 = h5.listVector@;
    simp_paired(M, k, lrows(m5, k.facets)); nil_lv(m5);
    sub_lv(m4, m5, k.rays); lset_dom(m4, k.rays);
    reveal(lrows); assert(lrows(m5, k.rays) =~= lrows(m4, k.rays)) by { get_lv(m4, k.rays); let ns = nodes_lv(m4, k.rays); reveal(submap); assert forall|i: int| 0 <= i < ns.len() implies lrows(m5, k.rays)[i] == lrows(m4, k.rays)[i] by { assert(ns[i] != 0); } }
    get_lv(m5, k.rays); get_lv(m5, k.facets);
    assert(k.rays != 0) by { assert(lrows(m5, k.rays).len() == n); } 
    assert(k.facets != 0) by { assert(lrows(m5, k.facets).len() == n); }
    let o = own(h5, c); let d0 = h1.listVector@.dom();
    reveal(submap);
    assert forall|q: usize| d0.contains(q) implies m4.dom().contains(q) && m5.dom().contains(q) && m5[q] == h1.listVector@[q] by {}
    assert(sep(lset(m5, k.rays), lset(m5, k.facets)));
    assert(sep(o.l, d0)) by { assert forall|q: usize| o.l.contains(q) implies !d0.contains(q) by {} }
    assert(submap(h1.listVector@, m5));
    assert forall|q: usize| #[trigger] h1.listCone@.dom().contains(q) implies h5.listCone@.dom().contains(q) && h5.listCone@[q] == h1.listCone@[q] by {}
}
pub proof fn mk_kid(h0: Hp, C: usize, h1: Hp, h4: Hp, h5: Hp, c: usize, M: Seq<Vc<Z>>, d: Z, coef: int, n: int)
    requires kc(h0, C, n), grows(h0, h1), c != 0, !h1.listCone@.dom().contains(c), h4.listCone@.dom().contains(c), keptx(h1.listCone@, h4.listCone@, c), M.len() == n, square(M), mdet(M) == d.v(), d.v() != 0,
        submap(h1.listVector@, h4.listVector@), submap(h1.Vertex@, h4.Vertex@), submap(h1.rationalVector@, h4.rationalVector@),
        ({ let k = h4.listCone@[c]; let m = h4.listVector@; let x = h4.Vertex@[k.vertex]; 
            &&& is_lv(m, k.rays) && lset(m, k.rays).disjoint(h1.listVector@.dom()) && lrows(m, k.rays) == M && k.latticePoints == 0 && k.subspace_generators == 0 && k.equalities == 0 && k.rest == 0 && k.facets == 0 && k.coefficient == coef
            &&& k.vertex != 0 && h4.Vertex@.dom().contains(k.vertex) && !h1.Vertex@.dom().contains(k.vertex) && h4.rationalVector@.dom().contains(x.vertex) && !h1.rationalVector@.dom().contains(x.vertex) && h4.rationalVector@[x.vertex] == rvr(h0, C) }),
        h5.Vertex@ == h4.Vertex@, h5.rationalVector@ == h4.rationalVector@, submap(h4.listVector@, h5.listVector@),
        ({ let k = h5.listCone@[c]; let k0 = h4.listCone@[c]; h5.listCone@ =~= h4.listCone@.insert(c, k) && k == (listCone { determinant: k.determinant, dual_determinant: k.dual_determinant, facet_divisors: k.facet_divisors, facets: k.facets, ..k0 })
            && is_lv(h5.listVector@, k.facets) && lset(h5.listVector@, k.facets).disjoint(h4.listVector@.dom()) && square(lrows(h5.listVector@, k.facets)) && simp_ok(lrows(h4.listVector@, k0.rays), k, lrows(h5.listVector@, k.facets)) })
    ensures grows(h1, h5), kc(h5, c, n), rowsR(h5, c) == M, h5.listCone@[c].coefficient == coef, vv(h5, c) == vv(h0, C), newto(h1, own(h5, c))
{ hide(is_lv); hide(lset); hide(nodes_lv); hide(lrows); hide(mdet); hide(facets_ok); hide(rv_wf); hide(square); hide(submap); hide(simp_ok); hide(paired); hide(fdiv_ok); mk_new(rvr(h0, C), h1, h4, h5, c, M, d, coef, n); }
pub proof fn kids_start(h: Hp, C: usize, cs: Seq<usize>, D: Seq<Z>, w: Vc<Z>, n: int) ensures kids(h, C, h, cs, D, w, n, 0), kids_apart(h, cs, D, 0), grows(h, h) { }
pub proof fn grows_refl(h: Hp) ensures grows(h, h) {}
@extern ComputeOmega(const mat_ZZ &, const mat_ZZ &, long, int, int) as bv_short ->Vc<Z>
@requires mdim(a0, a2 as int, a2 as int), mdim(a1, a2 as int, a2 as int)
@ensures ret@.len() == a2, nzvec(ret)

@extern ComputeShortVectorAvoidingSubspace(const mat_ZZ &, const mat_ZZ &) as bv_short2 ->Vc<Z>
@requires mwf(a0), a0@.len() == a0.c@, a1@.len() == a0.c@
@ensures ret@.len() == a0.c@, nzvec(ret)

@fn barvinokStep(const listCone *, vector<listCone *> &, vec_ZZ &, int, Single_Cone_Parameters *) as bv_step heap softassert
@requires kc(hp, Cone, m as int), Cones@.len() == m, Dets@.len() == m, hp.listCone@[Cone].coefficient > -0x8000_0000, m < 0x7fff_fffe
@aborts true
@ensures grows(hp0, hp), Dets@.len() == m, Cones@.len() == m, Parameters == Parameters0
@ensures Parameters.shortvector == 0 ==> ret
@ensures ret ==> exists|w: Vc<Z>| stepped(hp0, Cone, hp, Cones@, Dets@, w, m as int)
@at ghost head
  hide(grows); hide(keptx); hide(newto); hide(stepped); hide(kids); hide(kids_apart); hide(kc); hide(posrow); hide(alldets); hide(detsmall); hide(paired); hide(fdiv_ok); hide(square); hide(simp_ok);
@at ghost entry
  let ghost R = rowsR(hp, Cone); let ghost h0 = hp; let ghost n = m as int; let ghost mut h1 = hp; let ghost mut c1 = Cones@; let ghost mut kn = 0usize; let ghost mut hk = hp; let ghost mut hn = hp;
  proof { kc_fac(hp, Cone, n); kc_rdim(hp, Cone, n); reveal(kc); reveal(square); }
@at entry
  grows_refl(hp);
@at after /mat_ZZ dual|let mut dual/
  assert(generator@ =~= R);
@invariant 0
  0 <= i <= m, m == n, m < 0x7fff_fffe, grows(h0, hp), mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), generator@ == R, mat@ == R, Z@.len() == m, Dets@.len() == m, Cones@.len() == m, alldets(R, Z, Dets@, m as int), detsmall(Dets@, mdet(R), m as int),
  posrow(R, Z), kids(h0, Cone, hp, Cones@, Dets@, Z, n, i as int), kids_apart(hp, Cones@, Dets@, i as int), kc(h0, Cone, n), R == rowsR(h0, Cone), h0.listCone@[Cone].coefficient > -0x8000_0000, Parameters == Parameters0
@loopdec 0 m - i
@at begin 0
  h1 = hp; c1 = Cones@; grows_kc(h0, hp, Cone, n); grows_agree(h0, hp, Cone, n); reveal(alldets);
@invariant 1
  1 <= j <= m + 1, 0 <= i < m, m < 0x7fff_fffe, mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), generator@ == R, Z@.len() == m, mat@ =~= R.update(i as int, mat@[i as int]), forall|k: int| 0 <= k < j - 1 ==> #[trigger] mat@[i as int]@[k] == Z@[k]
@loopdec 1 m + 1 - j
@at after 1
  assert(mat@[i as int]@ =~= Z@); assert(mat@ =~= R.update(i as int, Z));
@invariant 2
  1 <= j_2 <= m + 1, 0 <= i < m, m < 0x7fff_fffe, mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), generator@ == R, Z@.len() == m, mat@ =~= R.update(i as int, mat@[i as int]), forall|k: int| 0 <= k < j_2 - 1 ==> #[trigger] mat@[i as int]@[k] == R[i as int]@[k]
@loopdec 2 m + 1 - j_2
@at after 2
  assert(mat@[i as int]@ =~= R[i as int]@); assert(mat@ =~= R);
@at before 0
  kids_start(hp, Cone, Cones@, Dets@, Z, n);
@at call cv_m2l
  assert(lrows(hp.listVector@, $ret) =~= R.update(i as int, Z));
@at after 0
  reveal(stepped); assert(stepped(h0, Cone, hp, Cones@, Dets@, Z, n));
@at precall simp_facets
  hk = hp; kn = Cones@[i as int]; 
  let d = Dets@[i as int]; let M = R.update(i as int, Z);
  assert(mdet(M) == d.v()); nonzero_sq(R, i as int, Z);
  reveal(square); sq_rdim(hp.listVector@, hp.listCone@[kn].rays, n);
  assert(keptx(h1.listCone@, hp.listCone@, kn)) by { reveal(keptx); }
@at end 0
  let d = Dets@[i as int];
  if d.v() != 0 { 
    assert(grows(h0, h1)); assert(mdet(R.update(i as int, Z)) == d.v()); nonzero_sq(R, i as int, Z); assert(square(R.update(i as int, Z)));
    assert(submap(h1.listVector@, hk.listVector@)); assert(submap(h1.Vertex@, hk.Vertex@) && submap(h1.rationalVector@, hk.rationalVector@)) by { reveal(submap); }
    assert(lset(hk.listVector@, hk.listCone@[kn].rays).disjoint(h1.listVector@.dom()));
    assert(lrows(hk.listVector@, hk.listCone@[kn].rays) == R.update(i as int, Z));
    assert(hk.listCone@[kn].coefficient == (h0.listCone@[Cone].coefficient * sgi(mdet(R))) * sgi(d.v()));
    assert(hk.rationalVector@[hk.Vertex@[hk.listCone@[kn].vertex].vertex] == rvr(h0, Cone));
    mk_kid(h0, Cone, h1, hk, hp, kn, R.update(i as int, Z), d, (h0.listCone@[Cone].coefficient * sgi(mdet(R))) * sgi(d.v()), n); sgn_small(h0.listCone@[Cone].coefficient as int, mdet(R), d.v()); }
  else { grows_refl(hp); assert(hp == h1); }
  assert(Cones@ == c1.update(i as int, Cones@[i as int])) by { assert(Cones@ =~= c1.update(i as int, Cones@[i as int])); }
  kids_next(h0, Cone, h1, hp, c1, Cones@, Dets@, Z, n, i as int);
@at before /signDet \* signDeti/
  kc_fac(h0, Cone, n); sgn_small(h0.listCone@[Cone].coefficient as int, mdet(R), Dets@[i as int].v());
@end
