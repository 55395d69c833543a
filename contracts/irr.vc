@source Irrational.cpp
@include rvech.vc proved
@include dual.vc proved
@include ntl.vc
@ptr heap rationalVector
@rs
// the product of the vertex s/f with facet q is no integer
pub open spec fn offint(s: Seq<Z>, f: int, q: Vc<Z>, n: nat) -> bool { frem(dot(s, q@, n), f) != 0 }
pub open spec fn irrational(s: Seq<Z>, f: int, F: Seq<Vc<Z>>) -> bool { forall|i: int| 0 <= i < F.len() ==> offint(s, f, #[trigger] F[i], s.len()) }
pub open spec fn irp(h: Hp, c: usize) -> usize { h.Vertex@[h.listCone@[c].vertex].vertex }
pub open spec fn irok(h: Hp, c: usize, n: int) -> bool {
    let k = h.listCone@[c]; let p = irp(h, c);
    h.listCone@.dom().contains(c) && h.Vertex@.dom().contains(k.vertex) && h.rationalVector@.dom().contains(p) && rv_wf(h.rationalVector@[p]) && h.rationalVector@[p].enumerator@.len() == n && is_lv(h.listVector@, k.facets) && rdim(h.listVector@, nodes_lv(h.listVector@, k.facets), n)
}
// only the cached common denominator of the vertex record may differ
pub open spec fn cached(h0: Hp, h: Hp, p: usize) -> bool { rv_only(h0, h, p) && rv_wf(h.rationalVector@[p]) && h.rationalVector@[p].enumerator == h0.rationalVector@[p].enumerator && h.rationalVector@[p].denominator == h0.rationalVector@[p].denominator }
pub open spec fn irv(h: Hp, c: usize, ret: bool) -> bool { let v = h.rationalVector@[irp(h, c)]; scaled_by(v.integer_scale@, v.integer_scale_factor.v(), v) && (ret == irrational(v.integer_scale@, v.integer_scale_factor.v(), lrows(h.listVector@, h.listCone@[c].facets))) }
@fn isConeIrrational(listCone *, int) as irr_is heap
@requires irok(hp, cone, numOfVars as int)
@ensures cached(hp0, hp, irp(hp0, cone)), irv(hp, cone, ret), hp0.rationalVector@[irp(hp0, cone)].computed_integer_scale ==> hp == hp0
@at ghost entry
  let ghost mut q = 0int; let ghost m = hp.listVector@; let ghost p = irp(hp, cone); let ghost fp = hp.listCone@[cone].facets; let ghost ns = nodes_lv(m, fp); let ghost h0 = hp;
@at before 0
  get_lv(m, fp);
@invariant 0
  0 <= q <= ns.len(), h0.rationalVector@[p].computed_integer_scale ==> hp == h0, cached(h0, hp, p), p == irp(h0, cone), p == irp(hp, cone), fp == hp.listCone@[cone].facets, vertex_numerator@ == hp.rationalVector@[p].integer_scale@, vertex_denominator.v() == hp.rationalVector@[p].integer_scale_factor.v(), scaled_by(vertex_numerator@, vertex_denominator.v(), hp.rationalVector@[p]), m == hp.listVector@, is_lv(m, fp), facet == at(ns, q), chain_lv(m, fp, ns), ns == nodes_lv(m, fp), rdim(m, ns, vertex_numerator@.len() as int), vertex_denominator.v() > 0, forall|i: int| 0 <= i < q ==> offint(vertex_numerator@, vertex_denominator.v(), #[trigger] lrows(m, fp)[i], vertex_numerator@.len())
@loopdec 0 ns.len() - q
@at begin 0
  if q == ns.len() { assert(at(ns, q) == 0); }
  walk_lv(m, fp, q); assert(m[ns[q]].first@.len() == vertex_numerator@.len());
@at end 0
  q = q + 1;
@at before /return false/
  nodes_len(m, fp); assert(lrows(m, fp)[q] == m[ns[q]].first); assert(!offint(vertex_numerator@, vertex_denominator.v(), lrows(m, fp)[q], vertex_numerator@.len()));
@at after 0
  if q < ns.len() { walk_lv(m, fp, q); } nodes_len(m, fp);
  assert(irrational(vertex_numerator@, vertex_denominator.v(), lrows(m, fp)));

@fn checkConeIrrational(listCone *, int) as irr_check heap
@requires irok(hp, cone, numOfVars as int)
@aborts true
@ensures cached(hp0, hp, irp(hp0, cone)), irv(hp, cone, true)
@end
