@source Irrational.cpp
@include irr.vc proved
@rs
// the integer part of the product of the vertex s/f with every facet normal
pub open spec fn samefl(s0: Seq<Z>, f0: int, s1: Seq<Z>, f1: int, q: Vc<Z>) -> bool { fdiv(dot(s0, q@, s0.len()), f0) == fdiv(dot(s1, q@, s1.len()), f1) }
pub open spec fn sameint(s0: Seq<Z>, f0: int, s1: Seq<Z>, f1: int, F: Seq<Vc<Z>>) -> bool { forall|i: int| 0 <= i < F.len() ==> samefl(s0, f0, s1, f1, #[trigger] F[i]) }
// the lattice point x satisfies every facet inequality of the cone with vertex s/f
pub open spec fn within(s: Seq<Z>, f: int, F: Seq<Vc<Z>>, x: Seq<Z>) -> bool { forall|i: int| 0 <= i < F.len() ==> f * dot(x, (#[trigger] F[i])@, x.len()) <= dot(s, F[i]@, s.len()) }
pub open spec fn oninside(s: Seq<Z>, f: int, F: Seq<Vc<Z>>, x: Seq<Z>) -> bool { forall|i: int| 0 <= i < F.len() ==> f * dot(x, (#[trigger] F[i])@, x.len()) != dot(s, F[i]@, s.len()) }
pub proof fn fl_le(k: int, p: int, f: int) requires f > 0 ensures (f * k <= p) == (k <= fdiv(p, f)) { assert((f * k <= p) == (k <= p / f)) by(nonlinear_arith) requires f > 0; }
pub proof fn fl_zero(k: int, p: int, f: int) requires f > 0, f * k == p ensures frem(p, f) == 0 { assert(fdiv(p, f) == k) by(nonlinear_arith) requires f > 0, f * k == p, fdiv(p, f) == p / f; }
// the same lattice points, none of them on a facet hyperplane of the new cone
pub proof fn same_points(s0: Seq<Z>, f0: int, s1: Seq<Z>, f1: int, F: Seq<Vc<Z>>, x: Seq<Z>)
    requires f0 > 0, f1 > 0, s0.len() == s1.len(), sameint(s0, f0, s1, f1, F), irrational(s1, f1, F) ensures within(s0, f0, F, x) == within(s1, f1, F, x), oninside(s1, f1, F, x)
{ assert forall|i: int| 0 <= i < F.len() implies (f0 * dot(x, (#[trigger] F[i])@, x.len()) <= dot(s0, F[i]@, s0.len())) == (f1 * dot(x, F[i]@, x.len()) <= dot(s1, F[i]@, s1.len())) && f1 * dot(x, F[i]@, x.len()) != dot(s1, F[i]@, s1.len()) by {
    assert(x.len() == s1.len() || true); let k = dot(x, F[i]@, x.len()); let p = dot(s1, F[i]@, s1.len()); fl_le(k, dot(s0, F[i]@, s0.len()), f0); fl_le(k, p, f1); assert(samefl(s0, f0, s1, f1, F[i])); assert(offint(s1, f1, F[i], s1.len()));
    if f1 * k == p { fl_zero(k, p, f1); } }
  if within(s0, f0, F, x) { assert forall|i: int| 0 <= i < F.len() implies f1 * dot(x, (#[trigger] F[i])@, x.len()) <= dot(s1, F[i]@, s1.len()) by { assert(f0 * dot(x, F[i]@, x.len()) <= dot(s0, F[i]@, s0.len())); } }
  if within(s1, f1, F, x) { assert forall|i: int| 0 <= i < F.len() implies f0 * dot(x, (#[trigger] F[i])@, x.len()) <= dot(s0, F[i]@, s0.len()) by { assert(f1 * dot(x, F[i]@, x.len()) <= dot(s1, F[i]@, s1.len())); } } }
pub open spec fn irvf(h: Hp, p: usize) -> (Seq<Z>, int) { (h.rationalVector@[p].integer_scale@, h.rationalVector@[p].integer_scale_factor.v()) }
pub open spec fn is_fresh(h0: Hp, h: Hp, p: usize) -> bool { p != 0 && !h0.rationalVector@.dom().contains(p) && h.rationalVector@.dom().contains(p) }

pub open spec fn vok(h: Hp, p: usize, n: int) -> bool { h.rationalVector@.dom().contains(p) && rv_wf(h.rationalVector@[p]) && h.rationalVector@[p].enumerator@.len() == n }
// both cached scalings agree on the integer part of every facet product
pub open spec fn ireq(h: Hp, c: usize, p: usize) -> bool {
    let a = h.rationalVector@[irp(h, c)]; let b = h.rationalVector@[p];
    a.computed_integer_scale && b.computed_integer_scale && scaled_by(a.integer_scale@, a.integer_scale_factor.v(), a) && scaled_by(b.integer_scale@, b.integer_scale_factor.v(), b)
    && sameint(a.integer_scale@, a.integer_scale_factor.v(), b.integer_scale@, b.integer_scale_factor.v(), lrows(h.listVector@, h.listCone@[c].facets)) }
pub open spec fn cached2(h0: Hp, h: Hp, p: usize, q: usize) -> bool {
    h == (Hp { rationalVector: h.rationalVector, ..h0 }) && h.rationalVector@ =~= h0.rationalVector@.insert(p, h.rationalVector@[p]).insert(q, h.rationalVector@[q])
    && rv_wf(h.rationalVector@[p]) && h.rationalVector@[p].enumerator == h0.rationalVector@[p].enumerator && h.rationalVector@[p].denominator == h0.rationalVector@[p].denominator
    && rv_wf(h.rationalVector@[q]) && h.rationalVector@[q].enumerator == h0.rationalVector@[q].enumerator && h.rationalVector@[q].denominator == h0.rationalVector@[q].denominator }

@fn assertConesIntegerEquivalent(listCone *, rationalVector *, int, const char *) as irr_equiv heap softassert
@requires irok(hp, cone1, numOfVars as int), vok(hp, new_vertex, numOfVars as int)
@aborts true
@ensures cached2(hp0, hp, irp(hp0, cone1), new_vertex), ireq(hp, cone1, new_vertex)
@at ghost entry
  let ghost mut q = 0int; let ghost m = hp.listVector@; let ghost p = irp(hp, cone1); let ghost fp = hp.listCone@[cone1].facets; let ghost ns = nodes_lv(m, fp); let ghost h0 = hp; let ghost nv = new_vertex;
@at before 0
  get_lv(m, fp);
@invariant 0
  0 <= q <= ns.len(), hp.rationalVector@[p].computed_integer_scale, hp.rationalVector@[nv].computed_integer_scale, cached2(h0, hp, p, nv), p == irp(h0, cone1), p == irp(hp, cone1), fp == hp.listCone@[cone1].facets, vertex1_numerator@ == hp.rationalVector@[p].integer_scale@, vertex1_denominator.v() == hp.rationalVector@[p].integer_scale_factor.v(), scaled_by(vertex1_numerator@, vertex1_denominator.v(), hp.rationalVector@[p]),
  vertex2_numerator@ == hp.rationalVector@[nv].integer_scale@, vertex2_denominator.v() == hp.rationalVector@[nv].integer_scale_factor.v(), scaled_by(vertex2_numerator@, vertex2_denominator.v(), hp.rationalVector@[nv]),
  m == hp.listVector@, is_lv(m, fp), facet1 == at(ns, q), chain_lv(m, fp, ns), ns == nodes_lv(m, fp), rdim(m, ns, vertex1_numerator@.len() as int), vertex1_numerator@.len() == vertex2_numerator@.len(), vertex1_denominator.v() > 0, vertex2_denominator.v() > 0, forall|i: int| 0 <= i < q ==> samefl(vertex1_numerator@, vertex1_denominator.v(), vertex2_numerator@, vertex2_denominator.v(), #[trigger] lrows(m, fp)[i])
@loopdec 0 ns.len() - q
@at begin 0
  if q == ns.len() { assert(at(ns, q) == 0); }
  walk_lv(m, fp, q); assert(m[ns[q]].first@.len() == vertex1_numerator@.len());
@at end 0
  nodes_len(m, fp); assert(lrows(m, fp)[q] == m[ns[q]].first); assert(samefl(vertex1_numerator@, vertex1_denominator.v(), vertex2_numerator@, vertex2_denominator.v(), lrows(m, fp)[q])); q = q + 1;
@at after 0
  if q < ns.len() { walk_lv(m, fp, q); } nodes_len(m, fp);

@rs
pub open spec fn newvec(h0: Hp, h: Hp, p: usize, q: usize, n: int) -> bool {
    h == (Hp { rationalVector: h.rationalVector, ..h0 }) && !h0.rationalVector@.dom().contains(q) && q != 0 && vok(h, q, n)
    && h.rationalVector@ =~= h0.rationalVector@.insert(p, h.rationalVector@[p]).insert(q, h.rationalVector@[q])
    && rv_wf(h.rationalVector@[p]) && h.rationalVector@[p].enumerator == h0.rationalVector@[p].enumerator && h.rationalVector@[p].denominator == h0.rationalVector@[p].denominator }
pub proof fn pow2_pos(e: nat) ensures zpow(2, e) > 0 decreases e { if e > 0 { pow2_pos((e - 1) as nat); } }
pub open spec fn cubeok(h: Hp, c: usize, n: int) -> bool {
    let k = h.listCone@[c]; let m = h.listVector@; let f = nodes_lv(m, k.facets);
    irok(h, c, n) && n >= 1 && k.facets != 0 && is_lv(m, k.rays) && rdim(m, nodes_lv(m, k.rays), n)
    && (k.facet_divisors@.len() == n ==> n == f.len() && !zeror(lrows(m, k.facets)[0]@, n) && n == nodes_lv(m, k.rays).len() && k.determinant.v() != 0 && forall|i: int| 0 <= i < n ==> (#[trigger] k.facet_divisors@[i]).v() != 0 && frem(zabs(k.determinant.v()), k.facet_divisors@[i].v()) == 0)
    && (k.facet_divisors@.len() == n || k.facet_divisors@.len() == 0) }
pub proof fn abs_pos(d: int) ensures d != 0 ==> zabs(d) > 0 {}
pub open spec fn zeror(f: Seq<Z>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] f[j]).v() == 0 }
pub proof fn abs_nn(a: int) ensures zabs(a) >= 0, a != 0 ==> zabs(a) > 0 {}
pub proof fn zeror_scaled(v: Vc<Z>, c: int, f: Vc<Z>, n: int) requires scaled(v, c, f, n), c != 0, !zeror(f@, n) ensures !zeror(v@, n)
{ let j = choose|j: int| 0 <= j < n && (#[trigger] f@[j]).v() != 0; let a = f@[j].v(); assert(c * a != 0) by(nonlinear_arith) requires c != 0, a != 0; assert(v@[j].v() == c * a); }
pub proof fn quot_nz(d: int, f: int) requires d != 0, f != 0, frem(zabs(d), f) == 0 ensures fdiv(zabs(d), f) != 0 { let q = fdiv(zabs(d), f); if q == 0 { assert(f * q == 0) by(nonlinear_arith) requires q == 0; } }
@fn computeConeStabilityCube_simplicial(listCone *, int, ZZ &, ZZ &) as irr_simp heap
@requires cubeok(hp, cone, numOfVars as int), hp.listCone@[cone].facet_divisors@.len() == numOfVars
@aborts true
@ensures newvec(hp0, hp, irp(hp0, cone), ret, numOfVars as int), length_numerator.v() == 1, length_denominator.v() > 0
@at ghost entry
  let ghost h0 = hp; let ghost nn = numOfVars as int; let ghost p0 = irp(hp, cone); let ghost mut h1 = hp; let ghost mut h2 = hp;
@at after /rv_scale/
  h1 = hp;
@invariant 0
  0 <= i <= nn, nn == numOfVars, scaled_D_lambda@.len() == nn, vertex_denominator.v() > 0
@loopdec 0 nn - i
@invariant 1
  0 <= i <= nn, nn == numOfVars, scaled_D_lambda@.len() == nn
@loopdec 1 nn - i
@at before 2
  { let k = hp.listCone@[cone]; quot_nz(k.determinant.v(), k.facet_divisors@[0].v()); zeror_scaled(dual@[0], fdiv(zabs(k.determinant.v()), k.facet_divisors@[0].v()), lrows(hp.listVector@, k.facets)[0], nn); }
@invariant 2
  0 <= i <= nn, nn == numOfVars, mdim(dual, nn, nn), max_dual_1_norm.v() >= 0, i > 0 ==> max_dual_1_norm.v() > 0, !zeror(dual@[0]@, nn)
@loopdec 2 nn - i
@invariant 3
  0 <= i < nn, 0 <= j <= nn, nn == numOfVars, mdim(dual, nn, nn), max_dual_1_norm.v() >= 0, i > 0 ==> max_dual_1_norm.v() > 0, !zeror(dual@[0]@, nn), dual_1_norm.v() >= 0, !zeror(dual@[i as int]@, j as int) ==> dual_1_norm.v() > 0
@loopdec 3 nn - j
@at begin 3
  abs_nn(dual@[i as int]@[j as int].v()); assert(!zeror(dual@[i as int]@, j as int + 1) && zeror(dual@[i as int]@, j as int) ==> dual@[i as int]@[j as int].v() != 0);
@at before 4
  h2 = hp; abs_pos(hp.listCone@[cone].determinant.v());
@invariant 4
  0 <= i <= nn, nn == numOfVars, center_numerator@.len() == nn, center_denominator.v() > 0, v != 0, !h1.rationalVector@.dom().contains(v), vok(hp, v, nn), rv_only(h1, hp, v)
@loopdec 4 nn - i
@at before /irr_equiv/
  h2 = hp; assert(irp(h2, cone) == p0); assert(p0 != v); assert(h2.rationalVector@[p0] == h1.rationalVector@[p0]);
@at before /return v/
  assert(vok(hp, v, nn)); assert(hp.rationalVector@ =~= h0.rationalVector@.insert(p0, hp.rationalVector@[p0]).insert(v, hp.rationalVector@[v]));
@rs
// the general case asks a linear-programming library for the cube: outside the contracts
@extern computeConeStabilityCube_general(listCone *, int, ZZ &, ZZ &) as irr_gen heap ->usize
@requires cubeok(hp, a0, a1 as int)
@ensures newvec(hp0, hp, irp(hp0, a0), ret, a1 as int), a2.v() > 0, a3.v() > 0
@rs
// n1/2^e is n/d rounded down to a multiple of 2^-e
pub open spec fn near(n: int, d: int, n1: int, d1: int, p: int) -> bool { d1 == p && 0 <= n * p - n1 * d < d }
pub open spec fn nearv(v0: rationalVector, v: rationalVector, p: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> near(#[trigger] v0.enumerator@[i].v(), v0.denominator@[i].v(), v.enumerator@[i].v(), v.denominator@[i].v(), p) }
pub proof fn near_step(n: int, d: int, p: int) requires d > 0 ensures near(n, d, fdiv(n * p, d), p, p) { let a = n * p; assert(0 <= a - (a / d) * d < d) by(nonlinear_arith) requires d > 0; }
pub proof fn pow2_s(e: nat) ensures zpow(2, e + 1) == 2 * zpow(2, e) {}
pub proof fn len_ok(ln: int, ld: int, k: nat) requires ln > 0, ld > 0, zabs(fdiv(ld, ln) + 1) < zpow(2, k) ensures 2 * ld <= ln * zpow(2, k + 1)
{ let q = ld / ln; pow2_s(k); assert(q >= 0) by(nonlinear_arith) requires q == ld / ln, ln > 0, ld > 0; assert(ld < ln * (q + 1)) by(nonlinear_arith) requires q == ld / ln, ln > 0; let z = zpow(2, k); assert(ln * (q + 1) <= ln * z) by(nonlinear_arith) requires ln > 0, q + 1 <= z; assert(ln * (2 * z) == 2 * (ln * z)) by(nonlinear_arith); }
@fn simplifyConeStabilityCube(rationalVector *, ZZ &, ZZ &, int) as irr_simplify heap
@requires vok(hp, center, numOfVars as int), length_numerator.v() > 0, length_denominator.v() > 0, 0 < nb_limit() < 0x7fff_fff0
@ensures rv_only(hp0, hp, center), vok(hp, center, numOfVars as int), length_numerator.v() == 1, length_denominator.v() > 0
@ensures nearv(hp0.rationalVector@[center], hp.rationalVector@[center], length_denominator.v(), numOfVars as int), 2 * length_denominator0.v() <= length_numerator0.v() * length_denominator.v()
@at ghost entry
  let ghost nn = numOfVars as int; let ghost h0 = hp; let ghost v0 = hp.rationalVector@[center]; let ghost ln = length_numerator.v(); let ghost ld = length_denominator.v();
@at before 0
  pow2_pos((k + 1) as nat); assert(c_denom.v() > 0); len_ok(ln, ld, k as nat);
@invariant 0
  0 <= i <= nn, nn == numOfVars, c_denom.v() > 0, c_denom.v() == zpow(2, (k + 1) as nat), rv_only(h0, hp, center), vok(hp, center, nn), 0 <= k < nb_limit(), nb_limit() < 0x7fff_fff0,
  nearv(v0, hp.rationalVector@[center], c_denom.v(), i as int), forall|j: int| i <= j < nn ==> #[trigger] hp.rationalVector@[center].enumerator@[j] == v0.enumerator@[j], forall|j: int| i <= j < nn ==> #[trigger] hp.rationalVector@[center].denominator@[j] == v0.denominator@[j]
@loopdec 0 nn - i
@at begin 0
  near_step(v0.enumerator@[i as int].v(), v0.denominator@[i as int].v(), c_denom.v()); assert(hp.rationalVector@[center].enumerator@[i as int] == v0.enumerator@[i as int]); assert(hp.rationalVector@[center].denominator@[i as int] == v0.denominator@[i as int]);
@at exit
  pow2_pos(k as nat); pow2_pos((k + 1) as nat);
@fn computeConeStabilityCube(listCone *, int, ZZ &, ZZ &) as irr_cube heap softassert
@requires cubeok(hp, cone, numOfVars as int), 0 < nb_limit() < 0x7fff_fff0
@aborts true
@ensures newvec(hp0, hp, irp(hp0, cone), ret, numOfVars as int), length_denominator.v() > 0
@at ghost entry
  let ghost p0 = irp(hp, cone); let ghost h0 = hp;
@at before /return center/
  assert(vok(hp, center, numOfVars as int)); assert(p0 != center); assert(hp.rationalVector@ =~= h0.rationalVector@.insert(p0, hp.rationalVector@[p0]).insert(center, hp.rationalVector@[center]));
@extern estimate_barvinok_depth(listCone *, int) as irr_depth ->i32
@ensures ret >= 1
@fn lcm(const ZZ &, const ZZ &) as irr_lcm static from Irrational.cpp
@requires a.v() > 0, b.v() > 0
@ensures ret.v() > 0, dvd(a.v(), ret.v()), dvd(b.v(), ret.v())
@at entry
  lcm_all(a.v(), b.v());
@rs
// the irrationalized cone: everything but the vertex is as before, the vertex is a new object, its products with the facets have the same integer parts and are no integers
pub open spec fn perturbed(h0: Hp, h: Hp, c: usize) -> bool {
    let v = h.listCone@[c].vertex; let p0 = irp(h0, c); let p = irp(h, c);
    h.listCone@ == h0.listCone@ && h.listVector@ == h0.listVector@ && p != 0 && !h0.rationalVector@.dom().contains(p)
    && h.Vertex@ =~= h0.Vertex@.insert(v, Vertex { vertex: p, ..(h0.Vertex@[v]) }) && h.rationalVector@ =~= h0.rationalVector@.remove(p0).insert(p, h.rationalVector@[p]) }
pub open spec fn safely(h0: Hp, h: Hp, c: usize) -> bool {
    let a = h0.rationalVector@[irp(h0, c)]; let b = h.rationalVector@[irp(h, c)]; let F = lrows(h.listVector@, h.listCone@[c].facets);
    exists|s0: Seq<Z>, f0: int| #[trigger] scaled_by(s0, f0, a) && sameint(s0, f0, b.integer_scale@, b.integer_scale_factor.v(), F) && scaled_by(b.integer_scale@, b.integer_scale_factor.v(), b) && irrational(b.integer_scale@, b.integer_scale_factor.v(), F) }
pub proof fn mulpos(a: int, b: int) requires a > 0, b > 0 ensures a * b > 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; }
pub proof fn tmax(n: int, i: int, k: int, nb: int) requires n >= 1, 0 <= i < n, 0 <= k < nb, (n + 1) * (nb + 2) < 0x7fff_ffff
    ensures (n - 1 - i) * (k + 2) + (k + 2) == (n - i) * (k + 2), 0 <= (n - 1 - i) * (k + 2), (n - i) * (k + 2) <= n * (k + 2), n * (k + 2) < 0x7fff_ffff, k + 2 <= n * (k + 2), k + 4 < 0x7fff_ffff, nb < 0x4000_0000
{ assert((n - 1 - i) * (k + 2) + (k + 2) == (n - i) * (k + 2)) by(nonlinear_arith); assert(0 <= (n - 1 - i) * (k + 2)) by(nonlinear_arith) requires n - 1 - i >= 0, k >= 0; assert((n - i) * (k + 2) <= n * (k + 2)) by(nonlinear_arith) requires i >= 0, k >= 0;
  assert(n * (k + 2) <= (n + 1) * (nb + 2) - nb - 2) by(nonlinear_arith) requires n >= 1, 0 <= k < nb; assert(k + 2 <= n * (k + 2)) by(nonlinear_arith) requires n >= 1, k >= 0;
  assert(2 * (nb + 2) <= (n + 1) * (nb + 2)) by(nonlinear_arith) requires n >= 1, nb > 0; }
@fn irrationalizeCone(listCone *, int) as irr_do heap softassert
@requires irok(hp, cone, numOfVars as int), irp(hp, cone) != 0, cubeok(hp, cone, numOfVars as int), 0 < nb_limit(), (numOfVars + 1) * (nb_limit() + 2) < 0x7fff_ffff
@aborts true
@ensures irok(hp, cone, numOfVars as int), perturbed(hp0, hp, cone), safely(hp0, hp, cone)
@at ghost entry
  let ghost mut q = 0int; let ghost h0 = hp; let ghost nn = numOfVars as int; let ghost m = hp.listVector@; let ghost rp = hp.listCone@[cone].rays; let ghost ns = nodes_lv(m, rp); let ghost p0 = irp(hp, cone); let ghost mut h1 = hp; let ghost mut h2 = hp; let ghost mut h3 = hp; let ghost NB = nb_limit(); proof { tmax(nn, 0, NB - 1, NB); }
@at ghost after /free_rationalVector.*hp, d__/
  proof { h1 = hp; }
@at before 0
  get_lv(m, rp); tmax(nn, 0, NB - 1, NB);
@invariant 0
  0 <= q <= ns.len(), hp == h1, chain_lv(m, rp, ns), ns == nodes_lv(m, rp), is_lv(m, rp), m == hp.listVector@, rdim(m, ns, nn), nn == numOfVars, ray == at(ns, q)
@loopdec 0 ns.len() - q
@at begin 0
  if q == ns.len() { assert(at(ns, q) == 0); }
  walk_lv(m, rp, q); assert(m[ns[q]].first@.len() == nn);
@at end 0
  q = q + 1;
@invariant 1
  0 <= i <= nn, nn == numOfVars, hp == h1, m == hp.listVector@, m.dom().contains(ray), m[ray].first@.len() == nn
@loopdec 1 nn - i
@invariant 2
  2 <= i, i <= nn || i == 2, nn == numOfVars, nn <= 0x7fff_ffff
@loopdec 2 nn - i
@at before 3
  assert(0 <= k < NB); tmax(nn, 0, k as int, NB);
@invariant 3
  -1 <= i_2 < nn, nn == numOfVars, irrationalizer_numerator@.len() == nn, TwoM_exponent == (nn - 1 - i_2) * (k + 2), 0 <= k < NB, (nn + 1) * (NB + 2) < 0x7fff_ffff
@loopdec 3 i_2 + 1
@at begin 3
  tmax(nn, i_2 as int, k as int, NB);
@at after 3
  tmax(nn, 0, k as int, NB); pow2_pos((TwoM_exponent - (k + 1) + 1) as nat);
@at before /let mut common_denominator: Z/
  assert(irrationalizer_denominator.v() > 0) by { mulpos(stability_length_denominator.v(), zpow(2, (TwoM_exponent - (k + 1) + 1) as nat)); }
@at ghost after /let mut new_vertex: usize/
  let ghost np = new_vertex;
  proof { h2 = hp; assert(h2.rationalVector@.dom().contains(p0)); assert(np != p0); assert(hp.rationalVector@[p0] == h1.rationalVector@[p0]); }
@at ghost after /irr_equiv\(hp, a__\d+, a__\d+, a__\d+, a__\d+\)/
  proof { assert(irp(hp, cone) == p0); assert(hp.rationalVector@.dom() =~= h2.rationalVector@.dom()); }
@at ghost before /ld_Vertex.*free_rationalVector/
  proof { h3 = hp; assert(irp(h3, cone) == p0); assert(h3.rationalVector@ =~= h2.rationalVector@.insert(p0, h3.rationalVector@[p0]).insert(np, h3.rationalVector@[np])); assert(ireq(h3, cone, np));
    assert(scaled_by(h3.rationalVector@[p0].integer_scale@, h3.rationalVector@[p0].integer_scale_factor.v(), h0.rationalVector@[p0])); }
@at ghost after /st_Vertex/
  let ghost h4 = hp;
  proof { assert(irp(h4, cone) == np);
    assert(h4.rationalVector@ =~= h3.rationalVector@.remove(p0));
    assert(h4.rationalVector@[np] == h3.rationalVector@[np]);
    assert(rv_wf(h4.rationalVector@[np]));
    assert(h4.rationalVector@[np].enumerator@.len() == nn); assert(h4.Vertex@.dom().contains(h4.listCone@[cone].vertex)); assert(h4.listVector@ == h0.listVector@); assert(h4.listCone@ == h0.listCone@);
    assert(h4.rationalVector@.dom().contains(np));
    assert(is_lv(h4.listVector@, h4.listCone@[cone].facets));
    assert(rdim(h4.listVector@, nodes_lv(h4.listVector@, h4.listCone@[cone].facets), nn));
    assert(irok(h4, cone, nn)); }
@at ghost after /irr_is\(/
  proof { assert(irp(hp, cone) == np); assert(hp.rationalVector@[np] == h3.rationalVector@[np]); assert(lrows(hp.listVector@, hp.listCone@[cone].facets) == lrows(h3.listVector@, h3.listCone@[cone].facets)); assert(safely(h0, hp, cone)); }
@invariant 4
  0 <= i_2 <= nn, nn == numOfVars, new_vertex_numerator@.len() == nn, irrationalizer_numerator@.len() == nn, center_numerator@.len() == nn, center_denominator.v() > 0, irrationalizer_denominator.v() > 0, common_denominator.v() > 0
@loopdec 4 nn - i_2
@end
