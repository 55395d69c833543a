@source barvinok/barvinok.cpp
@include dual.vc proved
@include det.vc
@hidden is_lv nodes_lv chain_lv lset submap lrows rows_of mdet gcdof dvd fdone fdiv frem zabs
@rs
pub open spec fn nzvec(v: Vc<Z>) -> bool { exists|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).v() != 0 }
// replacing some row by w keeps the orientation
pub open spec fn posrow(U: Seq<Vc<Z>>, w: Vc<Z>) -> bool { exists|i: int| 0 <= i < U.len() && #[trigger] mdet(U.update(i, w)) * mdet(U) > 0 }
// a nonzero vanishing combination (k0; k1..) of (w; rows of U): w is used
pub proof fn kernel(U: Seq<Vc<Z>>, w: Vc<Z>, D: Seq<Vc<Z>>, k: Seq<Z>, n: nat)
    requires U.len() == n, sqm(U), w@.len() == n, D.len() == n + 1, k.len() == n + 1, D[0] == w, forall|i: int| 0 <= i < n ==> #[trigger] D[i + 1] == U[i],
        forall|j: int| 0 <= j < n ==> #[trigger] dotcol(k, D, j, n + 1) == 0, mdet(U) != 0, exists|i: int| 0 <= i < n + 1 && #[trigger] k[i].v() != 0
    ensures k[0].v() != 0, forall|i: int| 0 <= i < n ==> (-k[0].v()) * #[trigger] mdet(U.update(i, w)) == k[i + 1].v() * mdet(U)
{
    let t = k.subrange(1, (n + 1) as int);
    assert forall|j: int| 0 <= j < n implies (-k[0].v()) * (#[trigger] w@[j]).v() == dotcol(t, U, j, n) by { assert(dotcol(k, D, j, n + 1) == 0); dot_shift(k, D, t, U, j, n); let a = k[0].v(); let b = w@[j].v(); assert((-a) * b == -(a * b)) by(nonlinear_arith); }
    if k[0].v() == 0 {
        let z = scalev(0, w);
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] k[i].v() == 0 by { if i > 0 {
            assert forall|j: int| 0 <= j < n implies 1 * (#[trigger] z@[j]).v() == dotcol(t, U, j, n) by { assert((-k[0].v()) * w@[j].v() == 0 * w@[j].v()); }
            cramer(U, z, t, 1, i - 1); det_scalev(U, i - 1, 0, w);
            let x = t[i - 1].v(); let D0 = mdet(U); assert(x * D0 == 0 * mdet(U.update(i - 1, w))); assert(x == 0) by(nonlinear_arith) requires x * D0 == 0 * mdet(U.update(i - 1, w)), D0 != 0; } }
    }
    assert forall|i: int| 0 <= i < n implies (-k[0].v()) * #[trigger] mdet(U.update(i, w)) == k[i + 1].v() * mdet(U) by { cramer(U, w, t, -k[0].v(), i); }
}
pub proof fn dot_shift(k: Seq<Z>, D: Seq<Vc<Z>>, t: Seq<Z>, U: Seq<Vc<Z>>, j: int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] D[i + 1] == U[i] && k[i + 1] == t[i] ensures dotcol(k, D, j, n + 1) == k[0].v() * D[0]@[j].v() + dotcol(t, U, j, n) decreases n
{ reveal_with_fuel(dotcol, 2); if n > 0 { dot_shift(k, D, t, U, j, (n - 1) as nat); assert(D[n - 1 + 1] == U[n - 1]); } }
pub proof fn sgn_mul(a: int, b: int, d: int, x: int, D: int) requires d * x == b * D, D != 0, a == -d, d != 0 ensures (b * a < 0) == (x * D > 0), (b * a > 0) == (x * D < 0)
{ assert((b * a) * (D * D) == -((d * d) * (x * D))) by(nonlinear_arith) requires d * x == b * D, a == -d;
  let p = b * a; let q = D * D; let r = d * d; let s = x * D;
  assert(q > 0) by(nonlinear_arith) requires q == D * D, D != 0; assert(r > 0) by(nonlinear_arith) requires r == d * d, d != 0;
  if s > 0 { assert(r * s > 0) by(nonlinear_arith) requires r > 0, s > 0; assert(p < 0) by(nonlinear_arith) requires p * q == -(r * s), q > 0, r * s > 0; }
  else if s < 0 { assert(r * s < 0) by(nonlinear_arith) requires r > 0, s < 0; assert(p > 0) by(nonlinear_arith) requires p * q == -(r * s), q > 0, r * s < 0; }
  else { assert(r * s == 0) by(nonlinear_arith) requires s == 0; assert(p == 0) by(nonlinear_arith) requires p * q == 0, q > 0; } }
pub open spec fn allge(k: Seq<Z>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] k[i]).v() >= 0 }
pub open spec fn allle(k: Seq<Z>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] k[i]).v() <= 0 }
pub open spec fn vneg(v: Vc<Z>) -> Vc<Z> { Vc { g: Ghost(Seq::new(v@.len(), |i: int| mkz(-v@[i].v()))) } }
// the sign test on the combination decides which of w, -w to take
pub proof fn omega_sign(U: Seq<Vc<Z>>, w: Vc<Z>, D: Seq<Vc<Z>>, k: Seq<Z>, n: nat)
    requires U.len() == n, sqm(U), w@.len() == n, D.len() == n + 1, k.len() == n + 1, D[0] == w, forall|i: int| 0 <= i < n ==> #[trigger] D[i + 1] == U[i], nzvec(w),
        forall|j: int| 0 <= j < n ==> #[trigger] dotcol(k, D, j, n + 1) == 0, mdet(U) != 0, exists|i: int| 0 <= i < n + 1 && #[trigger] k[i].v() != 0
    ensures (allge(k, (n + 1) as int) || allle(k, (n + 1) as int)) ==> posrow(U, vneg(w)), !(allge(k, (n + 1) as int) || allle(k, (n + 1) as int)) ==> posrow(U, w)
{
    kernel(U, w, D, k, n); let a = k[0].v();
    if allge(k, (n + 1) as int) || allle(k, (n + 1) as int) {
        assert(exists|i: int| 0 <= i < n && #[trigger] k[i + 1].v() != 0) by {
            if forall|i: int| 0 <= i < n ==> #[trigger] k[i + 1].v() == 0 {
                let j = choose|j: int| 0 <= j < w@.len() && (#[trigger] w@[j]).v() != 0;
                let t = k.subrange(1, (n + 1) as int);
                dot_shift(k, D, t, U, j, n); assert(dotcol(k, D, j, n + 1) == 0);
                assert forall|i: int| 0 <= i < n implies #[trigger] t[i].v() == 0 by { assert(k[i + 1].v() == 0); }
                dot_zero(t, U, j, n); let b = w@[j].v();
                assert(false) by(nonlinear_arith) requires a * b == 0, a != 0, b != 0;
            } }
        let i = choose|i: int| 0 <= i < n && #[trigger] k[i + 1].v() != 0; let b = k[i + 1].v();
        assert(b * a > 0) by(nonlinear_arith) requires a != 0, b != 0, (a >= 0 && b >= 0) || (a <= 0 && b <= 0);
        sgn_mul(a, b, -a, mdet(U.update(i, w)), mdet(U));
        assert(vneg(w) =~= scalev(-1, w)) by { assert(vneg(w)@ =~= scalev(-1, w)@); }
        det_scalev(U, i, -1, w); let x = mdet(U.update(i, w)); let y = mdet(U);
        assert(((-1) * x) * y > 0) by(nonlinear_arith) requires x * y < 0;
        assert(mdet(U.update(i, vneg(w))) * mdet(U) > 0);
    } else {
        let p = choose|i: int| 0 <= i < n + 1 && (#[trigger] k[i]).v() < 0; let q = choose|i: int| 0 <= i < n + 1 && (#[trigger] k[i]).v() > 0;
        let i = (if a > 0 { p } else { q }) - 1; let b = k[i + 1].v();
        assert(b * a < 0) by(nonlinear_arith) requires (a > 0 && b < 0) || (a < 0 && b > 0);
        sgn_mul(a, b, -a, mdet(U.update(i, w)), mdet(U));
        assert(mdet(U.update(i, w)) * mdet(U) > 0);
    }
}
pub proof fn dot_zero(t: Seq<Z>, U: Seq<Vc<Z>>, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> #[trigger] t[i].v() == 0 ensures dotcol(t, U, j, n) == 0 decreases n
{ if n > 0 { dot_zero(t, U, j, (n - 1) as nat); assert(t[n - 1].v() == 0); assert(0 * U[n - 1]@[j].v() == 0); } }

@fn CheckOmega(const mat_ZZ &, vec_ZZ &) as bv_omega
@requires mdim(U, U.c@ as int, U.c@ as int), U.c@ < i32::MAX, Z@.len() == U.c@, nzvec(Z), mdet(U@) != 0
@ensures ret == Z, Z@.len() == Z0@.len(), Z == Z0 || Z == vneg(Z0), posrow(U@, ret)
@at ghost entry
  let ghost n = U.c@; let ghost mut k = Z0@; let ghost mut DD = U@;
@invariant 0
  0 <= i <= m, m == n, mdim(Dummy, (n + 1) as int, n as int), Dummy@[0] == Z0, Z == Z0, forall|r: int| 0 <= r < i ==> #[trigger] Dummy@[r + 1] == U@[r]
@loopdec 0 m - i
@at after 0
  DD = Dummy@;
@at after /mt_image/
  k = dummy@[0]@;
  assert(exists|i: int| 0 <= i < n + 1 && #[trigger] k[i].v() != 0) by { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] ment(dummy@, 0, i) != 0; assert(k[i].v() != 0); }
  omega_sign(U@, Z0, DD, k, n);
@invariant 1
  0 <= i_2 <= m + 1, m == n, n < i32::MAX, mdim(dummy, (n + 1) as int, (n + 1) as int), dummy@[0]@ == k, 0 <= number <= i_2, number == i_2 <==> allge(k, i_2 as int), Z == Z0, flag == 1
@loopdec 1 m + 1 - i_2
@invariant 2
  0 <= i_3 <= m + 1, m == n, n < i32::MAX, mdim(dummy, (n + 1) as int, (n + 1) as int), dummy@[0]@ == k, 0 <= number <= i_3, number == i_3 <==> allle(k, i_3 as int), Z == Z0, flag == 1, !allge(k, (n + 1) as int)
@loopdec 2 m + 1 - i_3
@at exit
  if Z != Z0 { assert(Z =~= vneg(Z0)) by { assert(Z@ =~= vneg(Z0)@); } }

@rs
pub open spec fn rowprim(a: Vc<Z>, b: Vc<Z>, n: nat) -> bool { primitive(b@, n) && exists|g: int| g > 0 && #[trigger] divrow(a@, b@, g, n, n as int) }
pub open spec fn rowgcds(B: Seq<Vc<Z>>, g: Seq<Z>, n: nat, i: int) -> bool { forall|r: int| 0 <= r < i ==> gcdof((#[trigger] g[r]).v(), B[r]@, n) && g[r].v() > 0 }
pub open spec fn rowsprim(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, n: nat, i: int) -> bool { forall|r: int| 0 <= r < i ==> rowprim(A[r], #[trigger] B[r], n) }
pub open spec fn rest_same(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, i: int) -> bool { A.len() == B.len() && forall|r: int| i <= r < A.len() ==> #[trigger] B[r] == A[r] }
pub proof fn gcd_zero_step(g: int, a: Seq<Z>, n: nat) requires gcdof(g, a, n), a[n as int].v() == 0 ensures gcdof(g, a, n + 1)
{ assert(g * 1 == g); assert(g * 0 == 0); assert(1 * g + 0 * 0 == g); assert(is_gcd(g, g, 0)); gcd_step(g, g, a, n); }
pub proof fn gcd_pos(g: int, v: Vc<Z>, n: nat) requires gcdof(g, v@, n), v@.len() == n, nzvec(v) ensures g > 0
{ if g == 0 { let j = choose|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).v() != 0; assert(dvd(g, v@[j].v())); let k = choose|k: int| #[trigger] (g * k) == v@[j].v(); assert(g * k == 0) by(nonlinear_arith) requires g == 0; } }
pub proof fn mk_rowprim(a: Vc<Z>, b: Vc<Z>, g: int, n: nat) requires gcdof(g, a@, n), g > 0, divrow(a@, b@, g, n, n as int) ensures rowprim(a, b, n) { gcd_prim(g, a@, b@, n); }
pub proof fn nz_row(B: Seq<Vc<Z>>, r: int) ensures nzvec(B[r]) ==> nzvec(B[r]) {}

@fn MatrixGCD(mat_ZZ &, long &) as bv_mgcd
@requires mdim(B, m as int, m as int), 0 <= m < i32::MAX, forall|r: int| 0 <= r < m ==> nzvec(#[trigger] B@[r])
@ensures mdim(B, m as int, m as int), m == m0, rowsprim(B0@, B@, m as nat, m as int)
@at ghost head
  hide(gcdof); hide(is_gcd); hide(primitive); hide(divrow); hide(rowprim);
@at ghost entry
  let ghost n = m as nat; let ghost BB = B@;
@invariant 0
  1 <= i <= m + 1, m == m0, m == n, m < i32::MAX, B == B0, BB == B@, mdim(B, m as int, m as int), gcds@.len() == m, rowgcds(BB, gcds@, n, i - 1), forall|r: int| i - 1 <= r < m ==> #[trigger] gcds@[r] == mkz(0), forall|r: int| 0 <= r < m ==> nzvec(#[trigger] B@[r])
@loopdec 0 m + 1 - i
@at begin 0
  gcd_start(BB[i - 1]@);
@invariant 1
  1 <= i <= m, 1 <= j <= m + 1, m == m0, m == n, m < i32::MAX, B == B0, BB == B@, mdim(B, m as int, m as int), gcds@.len() == m, rowgcds(BB, gcds@, n, i - 1), forall|r: int| i <= r < m ==> #[trigger] gcds@[r] == mkz(0), gcdof(gcds@[i - 1].v(), BB[i - 1]@, (j - 1) as nat)
@loopdec 1 m + 1 - j
@at ghost begin 1
  let ghost g0 = gcds@[i - 1].v();
@at end 1
  if ment(BB, i - 1, j - 1) == 0 { gcd_zero_step(g0, BB[i - 1]@, (j - 1) as nat); } else { gcd_step(g0, gcds@[i - 1].v(), BB[i - 1]@, (j - 1) as nat); }
@at end 0
  assert(nzvec(BB[i - 1])); gcd_pos(gcds@[i - 1].v(), BB[i - 1], n);
@invariant 2
  1 <= i_2 <= m + 1, m == m0, m == n, m < i32::MAX, BB == B0@, mdim(B0, m as int, m as int), mdim(B, m as int, m as int), gcds@.len() == m, rowgcds(BB, gcds@, n, m as int), rowsprim(BB, B@, n, i_2 - 1), rest_same(BB, B@, i_2 - 1)
@loopdec 2 m + 1 - i_2
@at ghost begin 2
  let ghost B1 = B@; let ghost g = gcds@[i_2 - 1].v();
  proof { assert(B@[i_2 - 1] == BB[i_2 - 1]); div_begin(BB[i_2 - 1]@, g, n); }
@invariant 3
  1 <= i_2 <= m, 1 <= j_2 <= m + 1, m == m0, m == n, m < i32::MAX, BB == B0@, mdim(B0, m as int, m as int), mdim(B, m as int, m as int), gcds@.len() == m, gcdof(g, BB[i_2 - 1]@, n), g > 0, g == gcds@[i_2 - 1].v(), divrow(BB[i_2 - 1]@, B@[i_2 - 1]@, g, n, j_2 - 1), B@ =~= B1.update(i_2 - 1, B@[i_2 - 1]), B1.len() == n
@loopdec 3 m + 1 - j_2
@at ghost begin 3
  let ghost r0 = B@[i_2 - 1]@;
  proof { div_at(BB[i_2 - 1]@, r0, g, n, j_2 - 1); }
@at end 3
  div_next(BB[i_2 - 1]@, r0, B@[i_2 - 1]@, g, n, j_2 - 1);
@at end 2
  mk_rowprim(BB[i_2 - 1], B@[i_2 - 1], g, n);
  assert forall|r: int| 0 <= r < i_2 implies rowprim(BB[r], #[trigger] B@[r], n) by { if r < i_2 - 1 { assert(B@[r] == B1[r]); } }
  assert forall|r: int| i_2 <= r < BB.len() implies #[trigger] B@[r] == BB[r] by { assert(B1[r] == BB[r]); }
@rs
pub proof fn div_begin(a: Seq<Z>, g: int, n: nat) requires a.len() == n ensures divrow(a, a, g, n, 0) {}
pub proof fn div_at(a: Seq<Z>, b: Seq<Z>, g: int, n: nat, j: int) requires divrow(a, b, g, n, j), gcdof(g, a, n), g > 0, 0 <= j < n ensures b[j] == a[j], g * fdiv(b[j].v(), g) == a[j].v(), b.len() == n { assert(b[j] == a[j]); assert(dvd(g, a[j].v())); exact_div(a[j].v(), g); }
pub proof fn div_next(a: Seq<Z>, b: Seq<Z>, b2: Seq<Z>, g: int, n: nat, j: int)
    requires divrow(a, b, g, n, j), 0 <= j < n, g > 0, g * fdiv(b[j].v(), g) == a[j].v(), b2 == b || b2 == b.update(j, b2[j]), b2[j].v() == (if b[j].v() != 0 { fdiv(b[j].v(), g) } else { 0 })
    ensures divrow(a, b2, g, n, j + 1)
{ assert(b[j] == a[j]); assert(a[j].v() == g * b2[j].v()) by { if b[j].v() == 0 { assert(g * 0 == 0); } }
  assert forall|k: int| 0 <= k < j + 1 implies (#[trigger] a[k]).v() == g * b2[k].v() by { if k < j { assert(a[k].v() == g * b[k].v()); } }
  assert forall|k: int| j + 1 <= k < n implies #[trigger] b2[k] == a[k] by { assert(b[k] == a[k]); } }

@fn computeAndCheckDeterminants(const mat_ZZ &, const ZZ &, const vec_ZZ &, int, mat_ZZ &, vec_ZZ &, bool) as bv_dets
@requires mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), mat@ == generator@, Z@.len() == m, Dets@.len() == m, 0 <= m < i32::MAX
@ensures mdim(mat, m as int, m as int), mat@ == generator@, Dets@.len() == m
@ensures ret || nondecrease_ok ==> alldets(generator@, Z, Dets@, m as int), ret ==> detsmall(Dets@, Det.v(), m as int)
@ensures !ret ==> !detsmall(Dets@, Det.v(), m as int)
@invariant 0
  1 <= i <= m + 1, m < i32::MAX, mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), mat@ == generator@, Z@.len() == m, Dets@.len() == m, absDet.v() == zabs(Det.v()),
  alldets(generator@, Z, Dets@, i - 1), decrease == detsmall(Dets@, Det.v(), i - 1), decrease || nondecrease_ok
@loopdec 0 m + 1 - i
@at ghost begin 0
  let ghost D1 = Dets@;
@invariant 1
  1 <= i <= m, 1 <= j <= m + 1, mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), Z@.len() == m, Dets@ == D1, mat@ =~= generator@.update(i - 1, mat@[i - 1]), forall|k: int| 0 <= k < j - 1 ==> #[trigger] mat@[i - 1]@[k] == Z@[k]
@loopdec 1 m + 1 - j
@at after 1
  assert(mat@[i - 1]@ =~= Z@); assert(mat@[i - 1] == Z); assert(mat@ == generator@.update(i - 1, Z));
@invariant 2
  1 <= i <= m, 1 <= j_2 <= m + 1, mdim(generator, m as int, m as int), mdim(mat, m as int, m as int), Dets@ == D1.update(i - 1, Dets@[i - 1]), Dets@.len() == m, Dets@[i - 1].v() == mdet(generator@.update(i - 1, Z)), mat@ =~= generator@.update(i - 1, mat@[i - 1]), forall|k: int| 0 <= k < j_2 - 1 ==> #[trigger] mat@[i - 1]@[k] == generator@[i - 1]@[k]
@loopdec 2 m + 1 - j_2
@at after 2
  assert(mat@[i - 1]@ =~= generator@[i - 1]@); assert(mat@[i - 1] == generator@[i - 1]); assert(mat@ =~= generator@);
  det_next(generator@, Z, D1, Dets@, Det.v(), i as int);
@rs
pub open spec fn alldets(G: Seq<Vc<Z>>, w: Vc<Z>, d: Seq<Z>, i: int) -> bool { forall|r: int| 0 <= r < i ==> (#[trigger] d[r]).v() == mdet(G.update(r, w)) }
pub open spec fn detsmall(d: Seq<Z>, D: int, i: int) -> bool { forall|r: int| 0 <= r < i ==> zabs((#[trigger] d[r]).v()) < zabs(D) }
pub proof fn det_next(G: Seq<Vc<Z>>, w: Vc<Z>, d: Seq<Z>, d2: Seq<Z>, D: int, i: int)
    requires alldets(G, w, d, i - 1), d2 == d.update(i - 1, d2[i - 1]), 1 <= i <= d.len(), d2[i - 1].v() == mdet(G.update(i - 1, w))
    ensures alldets(G, w, d2, i), detsmall(d2, D, i) == (detsmall(d, D, i - 1) && zabs(d2[i - 1].v()) < zabs(D))
{ if detsmall(d2, D, i) { assert(zabs(d2[i - 1].v()) < zabs(D)); assert forall|r: int| 0 <= r < i - 1 implies zabs((#[trigger] d[r]).v()) < zabs(D) by { assert(zabs(d2[r].v()) < zabs(D)); } } }
@end
