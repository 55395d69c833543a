// The contribution of one cone to the count by the exponential substitution: ExponentialSubst.cpp
@include piped.vc proved
@include todd.vc proved
@include conv.vc proved
@source ExponentialSubst.cpp
@rs
// sum of the k-th powers of the first m numbers
pub open spec fn psum(s: Seq<Z>, k: nat, m: nat) -> int decreases m { if m == 0 { 0 } else { psum(s, k, (m - 1) as nat) + zpow(s[m - 1].v(), k) } }
pub proof fn prodz_ext(x: Seq<Z>, y: Seq<Z>, m: nat) requires forall|i: int| 0 <= i < m ==> (#[trigger] x[i]).v() == y[i].v() ensures prodz(x, m) == prodz(y, m) decreases m
{ if m > 0 { prodz_ext(x, y, (m - 1) as nat); assert(x[m - 1].v() == y[m - 1].v()); } }
// the scalar products of the rays
pub open spec fn rsp(gv: Seq<Z>, R: Seq<Vc<Z>>) -> Seq<Z> { Seq::new(R.len(), |i: int| mkz(dot(gv, R[i]@, gv.len()))) }
pub open spec fn wgt(x: Seq<Z>, k: int) -> real { toddp(x)[x.len() - k] / (prodz(x, x.len()) as real) / (fact(k as nat) as real) }
pub open spec fn wsum(x: Seq<Z>, s: Seq<Z>, m: nat) -> real decreases m { if m == 0 { 0real } else { wsum(x, s, (m - 1) as nat) + (psum(s, (m - 1) as nat, s.len()) as real) * wgt(x, m - 1) } }
// constant term of (sum over s of exp(s t)) / product of (1 - exp(x_i t))
pub open spec fn resid(x: Seq<Z>, s: Seq<Z>) -> real { wsum(x, s, (x.len() + 1) as nat) }
pub proof fn todds_ext(x: Seq<Z>, y: Seq<Z>) requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).v() == y[i].v() ensures toddp(x) =~= toddp(y)
{ let n = (x.len() + 1) as nat; assert forall|i: int| 0 <= i < x.len() implies #[trigger] fsc(x, n)[i] =~= fsc(y, n)[i] by { assert(x[i].v() == y[i].v()); } tprod_ext(fsc(x, n), fsc(y, n), x.len()); }
pub open spec fn genx(x: Seq<Z>) -> bool { forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).v() != 0 }
pub proof fn psum_step(s: Seq<Z>, k: nat, m: nat) ensures psum(s, k, m + 1) == psum(s, k, m) + zpow(s[m as int].v(), k) {}
pub proof fn zp_step(a: int, k: nat) ensures zpow(a, k + 1) == zpow(a, k) * a { let p = zpow(a, k); assert(a * p == p * a) by(nonlinear_arith); }
@end
@fn scalar_power(const vec_ZZ &, const vec_ZZ &, int) as ex_sp
@requires exponent >= 0, generic_vector@.len() == point@.len()
@ensures ret.v() == zpow(dot(generic_vector@, point@, point@.len()), exponent as nat)
@fn computeExponentialResidueWeights(const vec_ZZ &, mpz_class &, const listCone *, int) as ex_w4 heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].rays), lrows(hp.listVector@, hp.listCone@[cone].rays).len() < i32::MAX - 4, rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].rays), generic_vector@.len() as int)
@ensures hp == hp0, genx(rsp(generic_vector@, rowsR(hp, cone))), prod_ray_scalar_products.v() == prodz(rsp(generic_vector@, rowsR(hp, cone)), rowsR(hp, cone).len()), prod_ray_scalar_products.v() != 0
@ensures ret@.len() == rowsR(hp, cone).len() + 1, forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k]).v() == wgt(rsp(generic_vector@, rowsR(hp, cone)), k)
@aborts !genx(rsp(generic_vector@, rowsR(hp, cone)))
@at ghost entry
  let ghost m = hp.listVector@; let ghost L = hp.listCone@[cone].rays; let ghost ns = nodes_lv(m, L); let ghost R = rowsR(hp, cone); let ghost d = R.len(); let ghost gv = generic_vector@; let ghost X = rsp(gv, R);
  proof { nodes_len(m, L); got_lv(m, L); }
@invariant 0
  0 <= dimension <= d, ns.len() == d, d < i32::MAX - 4, hp == hp0, m == hp.listVector@, is_lv(m, L), ns == nodes_lv(m, L), ray == at(ns, dimension as int)
@loopdec 0 d - dimension
@at begin 0
  walk_lv(m, L, dimension as int);
@at after 0
  if dimension < d { walk_lv(m, L, dimension as int); }
@invariant 1
  0 <= k <= d, ns.len() == d, dimension == d, d < i32::MAX - 4, hp == hp0, hp.listCone@.dom().contains(cone), R == rowsR(hp, cone), R == lrows(m, L), X == rsp(gv, R), gv == generic_vector@, m == hp.listVector@, is_lv(m, L), ns == nodes_lv(m, L), ray == at(ns, k as int), rdim(m, ns, gv.len() as int), ray_scalar_products@.len() == d, X.len() == d,
  prod_ray_scalar_products.v() == prodz(X, k as nat), prod_ray_scalar_products.v() != 0, (forall|i: int| 0 <= i < k ==> (#[trigger] ray_scalar_products@[i]).v() == X[i].v()), (forall|i: int| 0 <= i < k ==> (#[trigger] X[i]).v() != 0)
@loopdec 1 d - k
@at before 1
  assert(ns == nodes_lv(m, L) && R == lrows(m, L));
@at begin 1
  walk_lv(m, L, k as int); assert(m[ns[k as int]].first@.len() == gv.len()); assert(X[k as int].v() == dot(gv, R[k as int]@, gv.len()));
@at end 1
  let a = prodz(X, k as nat); let b = X[k as int].v(); assert(b == ray_scalar_products@[k as int].v()); assert(b != 0); assert(a * b != 0) by(nonlinear_arith) requires a != 0, b != 0; assert(prodz(X, (k + 1) as nat) == a * b);
@at after 1
  if k < d { walk_lv(m, L, k as int); } assert(k == d); assert(genx(X)); todds_ext(ray_scalar_products@, X); todds_len(X);
@invariant 2
  0 <= k_2 <= d + 1, genx(X), dimension == d, X.len() == d, d < i32::MAX - 4, weights@.len() == d + 1, rv(todds@) =~= toddp(X), toddp(X).len() == d + 1, prod_ray_scalar_products.v() == prodz(X, d), prod_ray_scalar_products.v() != 0, k_factorial.v() == fact(k_2 as nat),
  forall|k: int| 0 <= k < k_2 ==> (#[trigger] weights@[k]).v() == wgt(X, k)
@loopdec 2 d + 1 - k_2
@at begin 2
  fact_pos(k_2 as nat); assert(rv(todds@)[dimension - k_2] == todds@[dimension - k_2].v());
@at end 2
  let f = fact(k_2 as nat); let q = k_2 + 1; assert(f * q == q * f) by(nonlinear_arith);
@fn computeExponentialResidueWeights(const vec_ZZ &, const listCone *, int) as ex_w3 heap
@requires hp.listCone@.dom().contains(cone), is_lv(hp.listVector@, hp.listCone@[cone].rays), lrows(hp.listVector@, hp.listCone@[cone].rays).len() < i32::MAX - 4, rdim(hp.listVector@, nodes_lv(hp.listVector@, hp.listCone@[cone].rays), generic_vector@.len() as int)
@ensures hp == hp0, genx(rsp(generic_vector@, rowsR(hp, cone)))
@ensures ret@.len() == rowsR(hp, cone).len() + 1, forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k]).v() == wgt(rsp(generic_vector@, rowsR(hp, cone)), k)
@aborts !genx(rsp(generic_vector@, rowsR(hp, cone)))
@fn compute_sums_of_scalar_powers(listCone *, int, const vec_ZZ &, BarvinokParameters *) as ex_sums heap
@requires clr(hp, cone, numOfVars as int), generic_vector@.len() == numOfVars
@ensures clo(hp0, hp, cone, generic_vector@, numOfVars as int)
@ensures ret@.len() == numOfVars + 1, forall|k: int| 0 <= k <= numOfVars ==> (#[trigger] ret@[k]).v() == psum(spv(hp, cone), k as nat, spv(hp, cone).len())
@aborts true
@at ghost head
  hide(clo); hide(clr);
@at ghost entry
  let ghost gv = generic_vector@; let ghost nn = numOfVars as int;
@at call clsp
  clo_get(hp0, hp, cone, gv, nn);
@at ghost before 0
  let ghost s = spv(hp, cone);
@invariant 0
  0 <= i <= num_points, num_points == s.len(), s == spv(hp, cone), clo(hp0, hp, cone, gv, nn), hp.listCone@.dom().contains(cone), dimension == nn, 0 <= nn < 0x7fff_fffe, sum@.len() == nn + 1, forall|k: int| 0 <= k <= nn ==> (#[trigger] sum@[k]).v() == psum(s, k as nat, i as nat)
@loopdec 0 num_points - i
@invariant 1
  0 <= k <= nn + 1, 0 <= i < num_points, num_points == s.len(), s == spv(hp, cone), inner.v() == s[i as int].v(), dimension == nn, 0 <= nn < 0x7fff_fffe, sum@.len() == nn + 1, scalar_power.v() == zpow(inner.v(), k as nat),
  forall|q: int| k <= q <= nn ==> (#[trigger] sum@[q]).v() == psum(s, q as nat, i as nat), forall|q: int| 0 <= q < k ==> (#[trigger] sum@[q]).v() == psum(s, q as nat, (i + 1) as nat)
@loopdec 1 nn + 1 - k
@at begin 1
  psum_step(s, k as nat, i as nat); zp_step(inner.v(), k as nat);
@fn compute_sums_of_scalar_powers_mpz(listCone *, int, const vec_ZZ &, BarvinokParameters *) as ex_sumsz heap
@requires clr(hp, cone, numOfVars as int), generic_vector@.len() == numOfVars
@ensures clo(hp0, hp, cone, generic_vector@, numOfVars as int)
@ensures ret@.len() == numOfVars + 1, forall|k: int| 0 <= k <= numOfVars ==> (#[trigger] ret@[k]).v() == psum(spv(hp, cone), k as nat, spv(hp, cone).len())
@aborts true
@at ghost head
  hide(clo); hide(clr);
@at ghost entry
  proof { clr_get(hp, cone, numOfVars as int); }
@invariant 0
  0 <= i <= numOfVars + 1, 0 <= numOfVars < 0x7fff_fffe, sums_of_scalar_powers@.len() == numOfVars + 1, sums_of_scalar_powers_zz@.len() == numOfVars + 1, forall|k: int| 0 <= k < i ==> (#[trigger] sums_of_scalar_powers@[k]).v() == sums_of_scalar_powers_zz@[k].v()
@loopdec 0 numOfVars + 1 - i
@fn computeExponentialResidue_Single(const vec_ZZ &, listCone *, int, BarvinokParameters *) as ex_single heap
@requires clr(hp, cone, numOfVars as int), generic_vector@.len() == numOfVars, numOfVars < i32::MAX - 4
@ensures clo(hp0, hp, cone, generic_vector@, numOfVars as int), genx(rsp(generic_vector@, rowsR(hp, cone)))
@ensures ret.v() == (hp0.listCone@[cone].coefficient as real) * resid(rsp(generic_vector@, rowsR(hp, cone)), spv(hp, cone))
@aborts true
@at ghost head
  hide(clo); hide(clr);
@at ghost entry
  let ghost gv = generic_vector@; let ghost nn = numOfVars as int; let ghost mut h1 = hp;
  proof { clr_get(hp, cone, nn); }
@at call clsp
  clo_pre(hp0, hp, cone, gv, nn); h1 = hp;
@at call ex_sumsz
  clo_trans(hp0, h1, hp, cone, gv, nn); clo_get(hp0, hp, cone, gv, nn);
@at ghost before 0
  let ghost X = rsp(gv, rowsR(hp, cone)); let ghost s = spv(hp, cone);
@invariant 0
  0 <= k <= nn + 1, dimension == nn, nn < i32::MAX - 4, X.len() == nn, weights@.len() == nn + 1, sum@.len() == nn + 1, (forall|k: int| 0 <= k <= nn ==> (#[trigger] weights@[k]).v() == wgt(X, k)), (forall|k: int| 0 <= k <= nn ==> (#[trigger] sum@[k]).v() == psum(s, k as nat, s.len())), result.v() == wsum(X, s, k as nat)
@loopdec 0 nn + 1 - k
