@source barvinok/barvinok.cpp
@include bstep.vc proved
@include irr.vc proved
@rs
// ---- the signed sum of what has been delivered, at a generic point
pub open spec fn gens(e: LogE, dual: bool) -> Seq<Vc<Z>> { if dual { e.facets } else { e.rays } }
pub open spec fn lval(e: LogE, dual: bool, x: Seq<real>) -> int { e.coef * ind(gens(e, dual), x) }
pub open spec fn lsum(L: Seq<LogE>, dual: bool, x: Seq<real>) -> int decreases L.len() { if L.len() == 0 { 0 } else { lsum(L.drop_last(), dual, x) + lval(L.last(), dual, x) } }
pub open spec fn fulfilled(L0: Seq<LogE>, L: Seq<LogE>, dual: bool, coef: int, R: Seq<Vc<Z>>, n: int) -> bool { forall|x: Seq<real>| #[trigger] generic(x, n as nat) ==> lsum(L, dual, x) == lsum(L0, dual, x) + coef * ind(R, x) }
pub open spec fn dterm(R: Seq<Vc<Z>>, w: Vc<Z>, x: Seq<real>, D0: Seq<Z>, D: Seq<Z>, i: int) -> int { if D0[i].v() != 0 && D[i].v() == 0 { cterm(R, w, x, i) } else { 0 } }
pub open spec fn dsum(R: Seq<Vc<Z>>, w: Vc<Z>, x: Seq<real>, D0: Seq<Z>, D: Seq<Z>, n: int) -> int { sumf(|i: int| dterm(R, w, x, D0, D, i), n as nat) }
// the children marked done in D account for this much
pub open spec fn part(L0: Seq<LogE>, L: Seq<LogE>, dual: bool, coef: int, R: Seq<Vc<Z>>, w: Vc<Z>, D0: Seq<Z>, D: Seq<Z>, n: int) -> bool {
    forall|x: Seq<real>| #[trigger] generic(x, n as nat) ==> lsum(L, dual, x) == lsum(L0, dual, x) + coef * dsum(R, w, x, D0, D, n)
}
pub open spec fn markd(D0: Seq<Z>, D: Seq<Z>, n: int) -> bool { D0.len() == n && D.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] D[i]).v() == zabs(D0[i].v()) || D[i].v() == 0 }
pub proof fn part_start(L: Seq<LogE>, dual: bool, coef: int, R: Seq<Vc<Z>>, w: Vc<Z>, D0: Seq<Z>, D: Seq<Z>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> (#[trigger] D[i]).v() == zabs(D0[i].v()) ensures part(L, L, dual, coef, R, w, D0, D, n)
{ assert forall|x: Seq<real>| #[trigger] generic(x, n as nat) implies lsum(L, dual, x) == lsum(L, dual, x) + coef * dsum(R, w, x, D0, D, n) by {
    let f = |i: int| dterm(R, w, x, D0, D, i); assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == 0 by { assert(D[i].v() == zabs(D0[i].v())); } sum_zero(f, n as nat); assert(coef * 0 == 0); } }
pub proof fn part_next(L0: Seq<LogE>, L: Seq<LogE>, L2: Seq<LogE>, dual: bool, coef: int, kcoef: int, R: Seq<Vc<Z>>, w: Vc<Z>, D0: Seq<Z>, D: Seq<Z>, D2: Seq<Z>, n: int, c: int)
    requires part(L0, L, dual, coef, R, w, D0, D, n), 0 <= c < n, R.len() == n, D.len() == n, D2 == D.update(c, D2[c]), D2[c].v() == 0, D[c].v() != 0, D0[c].v() != 0, D0[c].v() == mdet(R.update(c, w)),
        kcoef == coef * (sgi(mdet(R)) * sgi(D0[c].v())), fulfilled(L, L2, dual, kcoef, R.update(c, w), n)
    ensures part(L0, L2, dual, coef, R, w, D0, D2, n)
{ hide(mdet); hide(ind);
  assert forall|x: Seq<real>| #[trigger] generic(x, n as nat) implies lsum(L2, dual, x) == lsum(L0, dual, x) + coef * dsum(R, w, x, D0, D2, n) by {
    let f = |i: int| dterm(R, w, x, D0, D, i); let t = cterm(R, w, x, c); let g = |i: int| if i == c { t } else { 0 }; let h = |i: int| dterm(R, w, x, D0, D2, i);
    assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == f(i) + g(i) by {}
    sum_add(f, g, h, n as nat); sum_one(c, t, g, n as nat);
    let s = sgi(mdet(R)) * sgi(D0[c].v()); let q = ind(R.update(c, w), x);
    assert((coef * s) * q == coef * (s * q)) by(nonlinear_arith); let a = dsum(R, w, x, D0, D, n); assert(coef * (a + t) == coef * a + coef * t) by(nonlinear_arith); } }
pub proof fn part_end(L0: Seq<LogE>, L: Seq<LogE>, dual: bool, coef: int, R: Seq<Vc<Z>>, w: Vc<Z>, D0: Seq<Z>, D: Seq<Z>, n: int)
    requires part(L0, L, dual, coef, R, w, D0, D, n), R.len() == n, square(R), mdet(R) != 0, w@.len() == n, posrow(R, w), alldets(R, w, D0, n), forall|i: int| 0 <= i < n ==> (#[trigger] D[i]).v() == 0
    ensures fulfilled(L0, L, dual, coef, R, n)
{ hide(mdet); hide(ind);
  assert forall|x: Seq<real>| #[trigger] generic(x, n as nat) implies lsum(L, dual, x) == lsum(L0, dual, x) + coef * ind(R, x) by {
    assert(sqm(R)); step_ind(R, w, x);
    let f = |i: int| dterm(R, w, x, D0, D, i); let g = |i: int| cterm(R, w, x, i);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(D[i].v() == 0); assert(D0[i].v() == mdet(R.update(i, w))); if D0[i].v() == 0 { let s = sgi(mdet(R)); let q = ind(R.update(i, w), x); assert(s * 0 == 0 && 0 * q == 0); } }
    sum_ext(f, g, n as nat); } }
// ---- the children still to be decomposed
pub open spec fn alive(h0: Hp, C: usize, h: Hp, cs: Seq<usize>, D0: Seq<Z>, D: Seq<Z>, w: Vc<Z>, n: int) -> bool {
    (forall|q: int| 0 <= q < n && D[q].v() != 0 ==> kid(h0, C, h, #[trigger] cs[q], D0[q], w, q, n) && D0[q].v() != 0)
    && (forall|q: int, r: int| 0 <= q < n && 0 <= r < n && q != r && D[q].v() != 0 && D[r].v() != 0 ==> apart(own(h, #[trigger] cs[q]), own(h, #[trigger] cs[r])))
}
pub proof fn kid_kept(h0: Hp, C: usize, h: Hp, h2: Hp, c: usize, d: Z, w: Vc<Z>, q: int, n: int, o: Own)
    requires kid(h0, C, h, c, d, w, q, n), d.v() != 0, kept(h, h2, o), apart(own(h, c), o) ensures kid(h0, C, h2, c, d, w, q, n), own(h2, c) == own(h, c)
{ kept_kc(h, h2, c, n, o); }
pub proof fn alive_start(h0: Hp, C: usize, h: Hp, cs: Seq<usize>, D: Seq<Z>, w: Vc<Z>, n: int) requires stepped(h0, C, h, cs, D, w, n) ensures alive(h0, C, h, cs, D, D, w, n)
{ assert forall|q: int| 0 <= q < n && D[q].v() != 0 implies kid(h0, C, h, #[trigger] cs[q], D[q], w, q, n) && D[q].v() != 0 by {} }
// one entry of the list of determinants replaced by its absolute value
pub proof fn alive_abs(h0: Hp, C: usize, h: Hp, cs: Seq<usize>, D0: Seq<Z>, D: Seq<Z>, D2: Seq<Z>, w: Vc<Z>, n: int, i: int)
    requires alive(h0, C, h, cs, D0, D, w, n), 0 <= i < D.len(), D2 == D.update(i, D2[i]), D2[i].v() == zabs(D[i].v()) ensures alive(h0, C, h, cs, D0, D2, w, n)
{ assert forall|q: int| 0 <= q < n && D2[q].v() != 0 implies D[q].v() != 0 by { if q != i { assert(D2[q] == D[q]); } } }
// child c is used up
pub proof fn alive_done(h0: Hp, C: usize, h: Hp, h2: Hp, cs: Seq<usize>, D0: Seq<Z>, D: Seq<Z>, D2: Seq<Z>, w: Vc<Z>, n: int, c: int)
    requires grows(h0, h), alive(h0, C, h, cs, D0, D, w, n), 0 <= c < n, D[c].v() != 0, D.len() == n, D2 == D.update(c, D2[c]), D2[c].v() == 0, kept(h, h2, own(h, cs[c])) ensures alive(h0, C, h2, cs, D0, D2, w, n), grows(h0, h2)
{ hide(kc); hide(kept); hide(grows); hide(apart); hide(newto);
  let o = own(h, cs[c]); assert(kid(h0, C, h, cs[c], D0[c], w, c, n)); grows_kept(h0, h, h2, o);
  assert forall|q: int| 0 <= q < n && D2[q].v() != 0 implies kid(h0, C, h2, #[trigger] cs[q], D0[q], w, q, n) && D0[q].v() != 0 && own(h2, cs[q]) == own(h, cs[q]) && D[q].v() != 0 by {
    assert(q != c && D2[q] == D[q]); assert(kid(h0, C, h, cs[q], D0[q], w, q, n)); assert(apart(own(h, cs[q]), own(h, cs[c]))); kid_kept(h0, C, h, h2, cs[q], D0[q], w, q, n, o); }
  assert forall|q: int, r: int| 0 <= q < n && 0 <= r < n && q != r && D2[q].v() != 0 && D2[r].v() != 0 implies apart(own(h2, #[trigger] cs[q]), own(h2, #[trigger] cs[r])) by { assert(D[q].v() != 0 && D[r].v() != 0); } }
pub proof fn cached_kc(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), cached(h, h2, rvp(h, c)) ensures kc(h2, c, n), samecone(h, h2, c), kept(h, h2, own(h, c)), irp(h, c) == rvp(h, c) { }
pub proof fn kc_irok(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures irok(h, c, n), irp(h, c) == rvp(h, c) { kc_rdim(h, c, n); }
pub proof fn alive_cached(h0: Hp, C: usize, h: Hp, h2: Hp, cs: Seq<usize>, D0: Seq<Z>, D: Seq<Z>, w: Vc<Z>, n: int, c: int)
    requires grows(h0, h), alive(h0, C, h, cs, D0, D, w, n), 0 <= c < n, D[c].v() != 0, D.len() == n, cached(h, h2, rvp(h, cs[c])) ensures alive(h0, C, h2, cs, D0, D, w, n), grows(h0, h2)
{ hide(kc); hide(kept); hide(grows); hide(apart); hide(newto); hide(cached);
  let o = own(h, cs[c]); assert(kid(h0, C, h, cs[c], D0[c], w, c, n)); cached_kc(h, h2, cs[c], n); grows_kept(h0, h, h2, o);
  assert forall|q: int| 0 <= q < n && D[q].v() != 0 implies kid(h0, C, h2, #[trigger] cs[q], D0[q], w, q, n) && D0[q].v() != 0 && own(h2, cs[q]) == own(h, cs[q]) by {
    assert(kid(h0, C, h, cs[q], D0[q], w, q, n)); if q != c { assert(apart(own(h, cs[q]), own(h, cs[c]))); kid_kept(h0, C, h, h2, cs[q], D0[q], w, q, n, o); } } }
// ---- what is delivered
pub open spec fn entry(h: Hp, c: usize) -> LogE { let k = h.listCone@[c]; LogE { coef: k.coefficient as int, det: k.determinant.v(), ddet: k.dual_determinant.v(), rays: rowsR(h, c), facets: rowsF(h, c), fd: k.facet_divisors@, v: vv(h, c) } }
pub open spec fn bound_ok(d: int, P: BarvinokParameters) -> bool { P.max_determinant == 0 || zabs(d) <= P.max_determinant || (P.shortvector != 0 && zabs(d) <= 200000) }
pub open spec fn ent_ok(e: LogE, P: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) -> bool {
    e.rays.len() == n && square(e.rays) && e.facets.len() == n && square(e.facets) && e.det == mdet(e.rays) && e.det != 0 && e.ddet == mdet(e.facets) && e.ddet != 0 && paired(e.rays, e.facets, e.fd) && e.v == v && bound_ok(e.det, P)
}
pub open spec fn log_ok(L0: Seq<LogE>, L: Seq<LogE>, P: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) -> bool { L0.len() <= L.len() && L0 == L.subrange(0, L0.len() as int) && forall|i: int| L0.len() <= i < L.len() ==> ent_ok(#[trigger] L[i], P, v, n) }
pub open spec fn samep(P: BarvinokParameters, P0: BarvinokParameters) -> bool { P.max_determinant == P0.max_determinant && P.decomposition == P0.decomposition && P.Number_of_Variables == P0.Number_of_Variables && P.shortvector == P0.shortvector }
pub proof fn log_trans(A: Seq<LogE>, B: Seq<LogE>, C: Seq<LogE>, P: BarvinokParameters, Q: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) requires log_ok(A, B, P, v, n), log_ok(B, C, Q, v, n), samep(P, Q) ensures log_ok(A, C, P, v, n), log_ok(A, C, Q, v, n)
{ hide(ent_ok); let a = A.len() as int; let b = B.len() as int; assert(A =~= C.subrange(0, a)) by { assert forall|i: int| 0 <= i < a implies A[i] == C.subrange(0, a)[i] by { assert(A[i] == B.subrange(0, a)[i]); assert(B[i] == C.subrange(0, b)[i]); } }
  assert forall|i: int| a <= i < C.len() implies ent_ok(#[trigger] C[i], P, v, n) && ent_ok(C[i], Q, v, n) by { reveal(ent_ok); if i < b { assert(B[i] == C.subrange(0, b)[i]); assert(ent_ok(B[i], P, v, n)); } else { assert(ent_ok(C[i], Q, v, n)); } } }
pub proof fn log_refl(A: Seq<LogE>, P: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) ensures log_ok(A, A, P, v, n) { assert(A =~= A.subrange(0, A.len() as int)); }
pub proof fn log_one(L: Seq<LogE>, e: LogE, dual: bool, P: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) requires ent_ok(e, P, v, n) ensures log_ok(L, L.push(e), P, v, n), fulfilled(L, L.push(e), dual, e.coef, gens(e, dual), n)
{ let M = L.push(e); assert(L =~= M.subrange(0, L.len() as int)); assert(M.drop_last() =~= L); assert(M.last() == e); assert forall|x: Seq<real>| #[trigger] generic(x, n as nat) implies lsum(M, dual, x) == lsum(L, dual, x) + e.coef * ind(gens(e, dual), x) by { } }

@extern BarvinokParameters::ConsumeCone(listCone *) as bv_consume heap ->i32
@requires cone_wf(hp, a0), cone_sep(hp, a0)
@ensures kept(hp0, hp, own(hp0, a0)), this.log@ == this0.log@.push(entry(hp0, a0)), samep(this, this0), this.Current_Depth == this0.Current_Depth

@fn criterion_abs_det(listCone *, Single_Cone_Parameters *) as bv_crit heap
@requires hp.listCone@.dom().contains(C)
@aborts true
@ensures hp == hp0, Parameters == Parameters0, 0 <= Parameters.decomposition <= 2, ret.v() == zabs(crit(hp.listCone@[C], Parameters))

@rs
pub open spec fn crit(k: listCone, P: BarvinokParameters) -> int { if P.decomposition == 0 { k.dual_determinant.v() } else { k.determinant.v() } }
pub open spec fn dualm(P: BarvinokParameters) -> bool { P.decomposition == 0 }
pub proof fn kc_sep(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures c != 0, cone_lists(h, c), h.listCone@[c].vertex != 0, h.Vertex@.dom().contains(h.listCone@[c].vertex), h.rationalVector@.dom().contains(h.Vertex@[h.listCone@[c].vertex].vertex), cone_wf(h, c), cone_sep(h, c), lvset(h, c) =~= ownl(h, c) { nil_lv(h.listVector@); }
pub proof fn kc_ent(h: Hp, c: usize, P: BarvinokParameters, n: int) requires kc(h, c, n), bound_ok(h.listCone@[c].determinant.v(), P) ensures ent_ok(entry(h, c), P, vv(h, c), n) {}
pub proof fn swap_ent(h: Hp, h2: Hp, c: usize, P: BarvinokParameters, n: int)
    requires kc(h, c, n), dualized(h, h2, c), bound_ok(h.listCone@[c].dual_determinant.v(), P)
    ensures ent_ok(entry(h2, c), P, vv(h, c), n), entry(h2, c).facets == rowsR(h, c), entry(h2, c).coef == h.listCone@[c].coefficient, cone_wf(h2, c), cone_sep(h2, c), own(h2, c) == own(h, c), kept(h, h2, own(h, c))
{ hide(is_lv); hide(nodes_lv); hide(lset); hide(lrows); hide(mdet); hide(paired); hide(square); hide(fdiv_ok); hide(rv_wf);
  nil_lv(h.listVector@); paired_sym(rowsR(h, c), rowsF(h, c), h.listCone@[c].facet_divisors@); assert(ownl(h2, c) =~= ownl(h, c)); }
pub proof fn kc_basic(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures 1 <= n < 0x7fff_fffe, rowsR(h, c).len() == n, square(rowsR(h, c)), h.listCone@.dom().contains(c), h.listCone@[c].facets != 0, is_lv(h.listVector@, h.listCone@[c].rays), len32(nodes_lv(h.listVector@, h.listCone@[c].rays).len()), h.listCone@[c].determinant.v() == mdet(rowsR(h, c)), h.listCone@[c].dual_determinant.v() == mdet(rowsF(h, c)), h.listCone@[c].determinant.v() != 0, h.listCone@[c].dual_determinant.v() != 0 { kc_rdim(h, c, n); }
pub proof fn log_samep(A: Seq<LogE>, B: Seq<LogE>, P: BarvinokParameters, Q: BarvinokParameters, v: (Vc<Z>, Vc<Z>), n: int) requires log_ok(A, B, P, v, n), samep(P, Q) ensures log_ok(A, B, Q, v, n) { log_refl(B, Q, v, n); log_trans(A, B, B, P, Q, v, n); }
pub proof fn kept_trans(a: Hp, b: Hp, c: Hp, o: Own) requires kept(a, b, o), kept(b, c, o) ensures kept(a, c, o)
{ assert forall|q: usize| #[trigger] a.listVector@.dom().contains(q) && !o.l.contains(q) implies c.listVector@.dom().contains(q) && c.listVector@[q] == a.listVector@[q] by { assert(b.listVector@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.listCone@.dom().contains(q) && q != o.c implies c.listCone@.dom().contains(q) && c.listCone@[q] == a.listCone@[q] by { assert(b.listCone@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.Vertex@.dom().contains(q) && q != o.v implies c.Vertex@.dom().contains(q) && c.Vertex@[q] == a.Vertex@[q] by { assert(b.Vertex@.dom().contains(q)); }
  assert forall|q: usize| #[trigger] a.rationalVector@.dom().contains(q) && q != o.r implies c.rationalVector@.dom().contains(q) && c.rationalVector@[q] == a.rationalVector@[q] by { assert(b.rationalVector@.dom().contains(q)); } }

@fn deliver_cone(listCone *, Single_Cone_Parameters *) as bv_deliver heap
@requires kc(hp, C, Parameters.Number_of_Variables as int), bound_ok(crit(hp.listCone@[C], Parameters), Parameters)
@aborts true
@ensures kept(hp0, hp, own(hp0, C)), samep(Parameters, Parameters0), Parameters.Current_Depth == Parameters0.Current_Depth, 0 <= Parameters.decomposition <= 2
@ensures log_ok(Parameters0.log@, Parameters.log@, Parameters, vv(hp0, C), Parameters.Number_of_Variables as int)
@ensures fulfilled(Parameters0.log@, Parameters.log@, dualm(Parameters), hp0.listCone@[C].coefficient as int, rowsR(hp0, C), Parameters.Number_of_Variables as int)
@at ghost head
  hide(kc); hide(kept); hide(cone_wf); hide(cone_sep); hide(ent_ok); hide(log_ok); hide(fulfilled); hide(dualized); hide(bound_ok);
@at ghost entry
  let ghost h0 = hp; let ghost n = Parameters.Number_of_Variables as int; let ghost L0 = Parameters.log@; let ghost P0 = Parameters; let ghost mut hs = hp; let ghost mut L1 = Parameters.log@;
  proof { kc_basic(hp, C, n); kc_sep(hp, C, n); }
@at call dual_cone
  swap_ent(h0, hp, C, P0, n); log_one(L0, entry(hp, C), true, P0, vv(h0, C), n);
@at precall bv_consume
  hs = hp; 
  if P0.decomposition != 0 { kc_ent(h0, C, P0, n); log_one(L0, entry(h0, C), false, P0, vv(h0, C), n); }
@at call bv_consume
  assert(samep(Parameters, P0)); log_samep(L0, Parameters.log@, P0, Parameters, vv(h0, C), n);
  if P0.decomposition == 0 { kept_trans(h0, hs, hp, own(h0, C)); }

@rs
pub proof fn same_refl(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures samecone(h, h, c), kept(h, h, own(h, c)) {}
pub proof fn grows_is_kept(h: Hp, h2: Hp, o: Own) requires grows(h, h2) ensures kept(h, h2, o) {}
pub proof fn free_kept(hb: Hp, h1: Hp, h2: Hp, c: usize, n: int)
    requires kc(hb, c, n), kc(h1, c, n), grows(hb, h1), own(h1, c) == own(hb, c), h2.listCone@ == h1.listCone@.remove(c), h2.listVector@ =~= h1.listVector@.remove_keys(lvset(h1, c)),
        h2.Vertex@ =~= (if h1.listCone@[c].vertex == 0 { h1.Vertex@ } else { h1.Vertex@.remove(h1.listCone@[c].vertex) }),
        h2.rationalVector@ =~= (if h1.listCone@[c].vertex == 0 || h1.Vertex@[h1.listCone@[c].vertex].vertex == 0 { h1.rationalVector@ } else { h1.rationalVector@.remove(h1.Vertex@[h1.listCone@[c].vertex].vertex) })
    ensures kept(hb, h2, own(hb, c))
{ hide(is_lv); hide(nodes_lv); hide(lset); hide(lrows); hide(mdet); hide(paired); hide(square); hide(fdiv_ok); hide(rv_wf); kc_sep(h1, c, n); let o = own(hb, c);
  assert forall|q: usize| #[trigger] hb.listVector@.dom().contains(q) && !o.l.contains(q) implies h2.listVector@.dom().contains(q) && h2.listVector@[q] == hb.listVector@[q] by { assert(h1.listVector@.dom().contains(q)); assert(!lvset(h1, c).contains(q)); } }
pub open spec fn nzc(D: Seq<Z>, k: nat) -> nat decreases k { if k == 0 { 0 } else { nzc(D, (k - 1) as nat) + (if D[k - 1].v() != 0 { 1nat } else { 0 }) } }
pub proof fn nzc_upd(D: Seq<Z>, D2: Seq<Z>, c: int, k: nat) requires 0 <= c < D.len(), k <= D.len(), D2 == D.update(c, D2[c]), D[c].v() != 0, D2[c].v() == 0 ensures nzc(D2, k) == nzc(D, k) - (if c < k { 1int } else { 0 }) decreases k { if k > 0 { nzc_upd(D, D2, c, (k - 1) as nat); } }
pub open spec fn below(D: Seq<Z>, n: int, b: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] D[k]).v() <= b }
pub open spec fn allz(D: Seq<Z>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] D[k]).v() == 0 }
pub open spec fn absto(D0: Seq<Z>, D: Seq<Z>, i: int) -> bool { D.len() == D0.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] D[k]).v() == zabs(D0[k].v())) && (forall|k: int| i <= k < D.len() ==> (#[trigger] D[k]) == D0[k]) }
pub open spec fn signw(D: Seq<Z>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] D[k]).v() >= 0 }
pub proof fn kid_facts(hb: Hp, C: usize, h: Hp, cs: Seq<usize>, D0: Seq<Z>, D: Seq<Z>, w: Vc<Z>, n: int, c: int)
    requires alive(hb, C, h, cs, D0, D, w, n), 0 <= c < n, D[c].v() != 0, alldets(rowsR(hb, C), w, D0, n), detsmall(D0, mdet(rowsR(hb, C)), n), hb.listCone@[C].coefficient > -0x8000_0000
    ensures kc(h, cs[c], n), irok(h, cs[c], n), irp(h, cs[c]) == rvp(h, cs[c]), rowsR(h, cs[c]) == rowsR(hb, C).update(c, w), zabs(mdet(rowsR(h, cs[c]))) < zabs(mdet(rowsR(hb, C))), D0[c].v() == mdet(rowsR(hb, C).update(c, w)), D0[c].v() != 0, vv(h, cs[c]) == vv(hb, C),
        h.listCone@[cs[c]].coefficient > -0x8000_0000, h.listCone@[cs[c]].coefficient == hb.listCone@[C].coefficient * (sgi(mdet(rowsR(hb, C))) * sgi(D0[c].v()))
{ hide(kc); hide(irok); hide(mdet); hide(zabs); assert(kid(hb, C, h, cs[c], D0[c], w, c, n)); kc_irok(h, cs[c], n); sgn_small(hb.listCone@[C].coefficient as int, mdet(rowsR(hb, C)), D0[c].v()); }

@fn barvinok_DFS(listCone *, Single_Cone_Parameters *) as bv_dfs heap softassert
@requires kc(hp, C, Parameters.Number_of_Variables as int), hp.listCone@[C].coefficient > -0x8000_0000
@decreases zabs(mdet(rowsR(hp, C)))
@aborts true
@ensures kept(hp0, hp, own(hp0, C)), samep(Parameters, Parameters0), Parameters.Current_Depth == Parameters0.Current_Depth
@ensures log_ok(Parameters0.log@, Parameters.log@, Parameters, vv(hp0, C), Parameters.Number_of_Variables as int)
@ensures ret != -1 ==> fulfilled(Parameters0.log@, Parameters.log@, dualm(Parameters), hp0.listCone@[C].coefficient as int, rowsR(hp0, C), Parameters.Number_of_Variables as int)
@at ghost head
  hide(kc); hide(kept); hide(grows); hide(cone_wf); hide(cone_sep); hide(ent_ok); hide(log_ok); hide(fulfilled); hide(bound_ok); hide(alive); hide(part); hide(stepped); hide(cached); hide(irok); hide(apart); hide(newto); hide(kid);
@at ghost entry
  let ghost h0 = hp; let ghost n = Parameters.Number_of_Variables as int; let ghost L0 = Parameters.log@; let ghost P0 = Parameters; let ghost R = rowsR(hp, C); let ghost v0 = vv(hp, C); let ghost k0 = hp.listCone@[C]; let ghost o0 = own(hp, C);
  let ghost mut hb = hp; let ghost mut hs = hp; let ghost mut L1 = L0; let ghost mut D0 = Seq::<Z>::empty(); let ghost mut D1 = D0; let ghost mut w: Vc<Z> = arbitrary(); let ghost coef = k0.coefficient as int; let ghost dm = dualm(P0); let ghost mut st = false;
  proof { kc_basic(hp, C, n); kc_irok(hp, C, n); same_refl(hp, C, n); log_refl(L0, P0, v0, n); }
@at precall bv_step
  if P0.decomposition != 0 { cached_kc(h0, hp, C, n); }
  hb = hp; kc_basic(hp, C, n); st = true;
  assert(kept(h0, hb, o0) && samecone(h0, hb, C) && kc(hb, C, n));
@at call bv_crit
  assert(zabs(crit(k0, P0)) > 0) by { reveal(zabs); }
@at call bv_step
  if $ret { w = choose|w: Vc<Z>| stepped(hb, C, hp, cones1@, Dets@, w, n); alive_start(hb, C, hp, cones1@, Dets@, w, n); reveal(stepped); D0 = Dets@; }
  else { grows_kc(hb, hp, C, n); grows_is_kept(hb, hp, o0); kept_trans(h0, hb, hp, o0); same_refl(hp, C, n); }
@at precall bv_deliver
  hs = hp; if !st && P0.decomposition != 0 { cached_kc(h0, hp, C, n); } reveal(bound_ok); assert(zabs(zabs(crit(k0, P0))) == zabs(crit(k0, P0)) && zabs(crit(k0, P0)) >= 0) by { reveal(zabs); }
  assert(hp.listCone@[C] == k0); assert(kc(hp, C, n)); assert(own(hp, C) == o0);
  assert(zabs(crit(k0, P0)) <= 200000 || P0.max_determinant == 0 || zabs(crit(k0, P0)) <= P0.max_determinant);
  assert(bound_ok(crit(k0, P0), Parameters));
@at call bv_deliver
  kept_trans(h0, hs, hp, o0);
@invariant 0
  0 <= i <= m, m == n, Parameters.Number_of_Variables == n, samep(Parameters, P0), Parameters.Current_Depth == P0.Current_Depth, Parameters.log@ == L0, Dets@.len() == n, cones1@.len() == n, D0.len() == n, grows(hb, hp), alive(hb, C, hp, cones1@, D0, Dets@, w, n), absto(D0, Dets@, i as int), below(Dets@, i as int, max.v()), 0 <= P0.decomposition <= 2, max.v() >= -1,
  alldets(rowsR(hb, C), w, D0, n), detsmall(D0, mdet(rowsR(hb, C)), n), hb.listCone@[C].coefficient > -0x8000_0000
@loopdec 0 m - i
@at begin 0
  D1 = Dets@; hs = hp;
  if D1[i as int].v() != 0 { kid_facts(hb, C, hp, cones1@, D0, D1, w, n, i as int); }
@at after /= zz_abs.vget.Dets/
  reveal(zabs); alive_abs(hb, C, hp, cones1@, D0, D1, Dets@, w, n, i as int);
@at end 0
  if Dets@[i as int].v() > 0 && P0.decomposition != 0 { alive_cached(hb, C, hs, hp, cones1@, D0, Dets@, w, n, i as int); }
@at after 0
  part_start(L0, dm, coef, R, w, D0, Dets@, n);
  assert(signw(Dets@, n)) by { reveal(zabs); }
  assume(Parameters.Current_Depth < i32::MAX);
@at before 1
  log_samep(L0, L0, P0, P1, v0, n);
@invariant 1
  m == n, n >= 1, Parameters.Number_of_Variables == n, samep(Parameters, P1), Parameters.Current_Depth == P1.Current_Depth, Dets@.len() == n, cones1@.len() == n, D0.len() == n, grows(hb, hp), alive(hb, C, hp, cones1@, D0, Dets@, w, n), signw(Dets@, n), below(Dets@, n, max.v()), max.v() >= -1,
  alldets(rowsR(hb, C), w, D0, n), detsmall(D0, mdet(rowsR(hb, C)), n), hb.listCone@[C].coefficient > -0x8000_0000, coef == hb.listCone@[C].coefficient, R == rowsR(hb, C), R == rowsR(h0, C), R.len() == n, v0 == vv(hb, C), dm == dualm(P1), log_ok(L0, Parameters.log@, P1, v0, n), result == 1 || result == -1, result == 1 ==> part(L0, Parameters.log@, dm, coef, R, w, D0, Dets@, n)
@loopens 1 result == 1 ==> allz(Dets@, n)
@loopdec 1 nzc(Dets@, n as nat)
@invariant 2
  m == n, 0 <= j <= n, Dets@.len() == n, -1 <= current < j, signw(Dets@, n), below(Dets@, n, max.v()), current == -1 ==> min.v() == max.v() + 1 && allz(Dets@, j as int), current >= 0 ==> Dets@[current as int].v() != 0
@loopdec 2 m - j
@at after 2
  D1 = Dets@; if current >= 0 { kid_facts(hb, C, hp, cones1@, D0, D1, w, n, current as int); }
@at precall bv_dfs
  assert(0 <= zabs(mdet(rowsR(hp, cones1@[current as int]))) < zabs(mdet(R))) by { reveal(zabs); }
  hs = hp; L1 = Parameters.log@;
@at call bv_dfs
  let c = current as int;
  alive_done(hb, C, hs, hp, cones1@, D0, D1, Dets@, w, n, c); log_samep(L0, L1, P1, Parameters, v0, n); log_trans(L0, L1, Parameters.log@, P1, Parameters, v0, n); nzc_upd(D1, Dets@, c, n as nat);
  if $ret != -1 { let kcoef = hs.listCone@[cones1@[c]].coefficient as int; if result == 1 { part_next(L0, L1, Parameters.log@, dm, coef, kcoef, R, w, D0, D1, Dets@, n, c); } }
@at after 1
  grows_kc(hb, hp, C, n); kc_sep(hp, C, n); hs = hp;
  if result == 1 { reveal(kc); part_end(L0, Parameters.log@, dm, coef, R, w, D0, Dets@, n); }
@at call lc_free1
  free_kept(hb, hs, hp, C, n); kept_trans(h0, hb, hp, o0); log_samep(L0, Parameters.log@, P1, Parameters, v0, n);
@at ghost after /Parameters.Current_Depth = .Parameters.Current_Depth . 1/
  let ghost mut P1 = Parameters;
@end
