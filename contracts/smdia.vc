// Smith normal form (Iliopoulos), main loops: genFunction/matrix_ops.cpp
@include smith.vc proved
@source genFunction/matrix_ops.cpp
@hidden st zp crel rrel drl dst sqm cmix rmix rm lin tsum gst addr alld cdiv unimod mulm dvd is_gcd fdiv frem mdet unitm partc parta cs1 cs2 rs1 rs2 radd rdiv_all rzero czero rneg dgo drw
@rs
pub open spec fn drl(A0: Seq<Vc<Z>>, L0: Seq<Vc<Z>>, R0: Seq<Vc<Z>>, A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, R: Seq<Vc<Z>>) -> bool { forall|X: Seq<Vc<Z>>| #[trigger] st(X, L0, A0, R0) ==> st(X, L, A, R) }
// the first k rows and columns are done, and A == L * input * R still holds
pub open spec fn dst(A: Mt, L: Mt, R: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, k: int) -> bool { mdim(A, n, n) && mdim(L, n, n) && mdim(R, n, n) && drl(A0@, L0@, R0@, A@, L@, R@) && zp(A@, k) && mdet(A@) != 0 }
pub proof fn dst_in(A: Mt, L: Mt, R: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, k: int) requires dst(A, L, R, A0, L0, R0, n, k) ensures mdim(A, n, n), mdim(L, n, n), mdim(R, n, n), zp(A@, k), mdet(A@) != 0, drl(A0@, L0@, R0@, A@, L@, R@), sqm(A@), sqm(L@), sqm(R@) { mk_sqm(A, n); mk_sqm(L, n); mk_sqm(R, n); }
pub proof fn dst_start(A: Mt, L: Mt, R: Mt, n: int) requires mdim(A, n, n), mdim(L, n, n), mdim(R, n, n), mdet(A@) != 0 ensures dst(A, L, R, A, L, R, n, 0) {}
pub proof fn dst_c(A: Mt, R: Mt, A1: Mt, L1: Mt, R1: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, k: int, k2: int) requires dst(A1, L1, R1, A0, L0, R0, n, k2), crel(A1@, R1@, A@, R@, k), mdim(A, n, n), mdim(R, n, n), zp(A@, k2) ensures dst(A, L1, R, A0, L0, R0, n, k2)
{ assert forall|X: Seq<Vc<Z>>| #[trigger] st(X, L0@, A0@, R0@) implies st(X, L1@, A@, R@) by { assert(st(X, L1@, A1@, R1@)); } }
pub proof fn dst_r(A: Mt, L: Mt, A1: Mt, L1: Mt, R1: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, k: int, k2: int) requires dst(A1, L1, R1, A0, L0, R0, n, k2), rrel(A1@, L1@, A@, L@, k), mdim(A, n, n), mdim(L, n, n), zp(A@, k2) ensures dst(A, L, R1, A0, L0, R0, n, k2)
{ assert forall|X: Seq<Vc<Z>>| #[trigger] st(X, L0@, A0@, R0@) implies st(X, L@, A@, R1@) by { assert(st(X, L1@, A1@, R1@)); } }
// the pivot gets smaller as long as it does not divide its row
pub proof fn dia_dec(b: Seq<Vc<Z>>, c: Seq<Vc<Z>>, p1: int, p2: int, off: int) requires sqm(b), c.len() == b.len(), 0 <= off < b.len(), alld(p1, b[off]@, off), p1 == ment(c, off, off), alld(p2, colv(c, off), off), !rdiv_all(b, off), ment(b, off, off) != 0 ensures 0 <= zabs(p2) < zabs(ment(b, off, off))
{ let p = ment(b, off, off); let x = b[off]@; assert(x.len() == b.len()); assert(dvd(p1, x[off].v())); dvd_le(p1, p); assert(dvd(p2, colv(c, off)[off].v())); dvd_le(p2, p1);
  if zabs(p2) >= zabs(p) { assert(zabs(p1) == zabs(p)); dvd_eq(p1, p); let j = choose|j: int| off < j < b.len() && !dvd(p, #[trigger] ment(b, off, j)); assert(dvd(p1, x[j].v())); dvd_neg(p1, x[j].v()); assert(false); } }
pub open spec fn dgo(A: Seq<Vc<Z>>, off: int) -> bool { czero(A, off) && ment(A, off, off) > 0 && rdiv_all(A, off) }
pub proof fn dgo_pos(A: Mt, off: int) requires czero(A@, off), ment(A@, off, off) > 0, rdiv_all(A@, off) ensures dgo(A@, off) {}
pub proof fn mk_rneg(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int) requires sqm(X), 0 <= a < X.len(), Y.len() == X.len(), Y[a]@.len() == X[a]@.len(), forall|k: int| 0 <= k < X.len() ==> (#[trigger] Y[a]@[k]).v() == X[a]@[k].v() * -1, forall|i: int| 0 <= i < X.len() && i != a ==> #[trigger] Y[i] == X[i] ensures rneg(Y, X, a)
{ assert(X[a]@.len() == X.len()); assert forall|k: int| 0 <= k < X[a]@.len() implies (#[trigger] Y[a]@[k]).v() == -1 * X[a]@[k].v() by { } }
pub proof fn dia_neg(A: Mt, L: Mt, A1: Mt, L1: Mt, R1: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, k: int) requires dst(A1, L1, R1, A0, L0, R0, n, k), 0 <= k < n, rneg(A@, A1@, k), rneg(L@, L1@, k), mdim(A, n, n), mdim(L, n, n) ensures dst(A, L, R1, A0, L0, R0, n, k), ment(A@, k, k) == -ment(A1@, k, k)
{ dst_in(A1, L1, R1, A0, L0, R0, n, k); rrel_neg(A1@, L1@, A@, L@, k, k); dst_r(A, L, A1, L1, R1, A0, L0, R0, n, k, k); assert(A1@[k]@.len() == n); assert(A@[k]@[k].v() == -1 * A1@[k]@[k].v()); }
pub proof fn dgo_neg(A: Mt, A1: Mt, off: int, n: int) requires mdim(A1, n, n), 0 <= off < n, rneg(A@, A1@, off), czero(A1@, off), rdiv_all(A1@, off), ment(A1@, off, off) < 0 ensures dgo(A@, off)
{ assert(A1@[off]@.len() == n); assert(A@[off]@[off].v() == -1 * A1@[off]@[off].v());
  assert forall|j: int| off < j < n implies #[trigger] ment(A@, j, off) == 0 by { assert(A@[j] == A1@[j]); assert(ment(A1@, j, off) == 0); }
  assert forall|j: int| off < j < n implies dvd(ment(A@, off, off), #[trigger] ment(A@, off, j)) by { assert(A@[off]@[j].v() == -1 * A1@[off]@[j].v()); assert(dvd(ment(A1@, off, off), ment(A1@, off, j))); dvd_neg(ment(A1@, off, off), ment(A1@, off, j)); dvd_neg(-ment(A1@, off, off), ment(A1@, off, j)); } }
// clearing the row of the pivot
pub open spec fn drw(A: Seq<Vc<Z>>, off: int, i: int) -> bool { czero(A, off) && ment(A, off, off) > 0 && (forall|j: int| off < j < i ==> #[trigger] ment(A, off, j) == 0) && forall|j: int| i <= j < A.len() ==> dvd(ment(A, off, off), #[trigger] ment(A, off, j)) }
pub proof fn drw_start(A: Mt, off: int) requires dgo(A@, off) ensures drw(A@, off, off + 1) {}
pub proof fn drw_skip(A: Mt, off: int, i: int) requires drw(A@, off, i), ment(A@, off, i) == 0 ensures drw(A@, off, i + 1) {}
pub proof fn drw_in(A: Mt, off: int, i: int) requires drw(A@, off, i), off < i < A@.len(), ment(A@, off, i) != 0 ensures ment(A@, off, off) > 0, fdiv(ment(A@, off, i), ment(A@, off, off)) * ment(A@, off, off) == ment(A@, off, i)
{ xline(ment(A@, off, i), ment(A@, off, off)); }
pub proof fn drw_pos(A: Mt, off: int, i: int) requires drw(A@, off, i) ensures ment(A@, off, off) > 0 {}
pub proof fn drw_step(A: Mt, R: Mt, A3: Mt, L3: Mt, R3: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, off: int, j: int, tmp: int) requires dst(A3, L3, R3, A0, L0, R0, n, off), drw(A3@, off, j), 0 <= off < j, j < n, mdim(A, n, n), mdim(R, n, n), partc(A@, A3@, n, j, off, 1, -tmp, 0, 1), partc(R@, R3@, n, j, off, 1, -tmp, 0, 1), tmp * ment(A3@, off, off) == ment(A3@, off, j) ensures dst(A, L3, R, A0, L0, R0, n, off), drw(A@, off, j + 1)
{ dst_in(A3, L3, R3, A0, L0, R0, n, off); part_cmix(A@, A3@, j, off, 1, -tmp, 0, 1); part_cmix(R@, R3@, j, off, 1, -tmp, 0, 1); assert((-tmp) * 0 == 0 && 1 * 1 - (-tmp) * 0 == 1); crel_mix(A3@, R3@, A@, R@, j, off, 1, -tmp, 0, 1, off); zp_c(A@, A3@, j, off, 1, -tmp, 0, 1, off);
  dst_c(A, R, A3, L3, R3, A0, L0, R0, n, off, off); let g = ment(A3@, off, off); let t = -tmp;
  assert forall|k: int| 0 <= k < n implies #[trigger] ment(A@, k, off) == ment(A3@, k, off) && ment(A@, k, j) == ment(A3@, k, j) + t * ment(A3@, k, off) && forall|i: int| 0 <= i < n && i != off && i != j ==> #[trigger] ment(A@, k, i) == ment(A3@, k, i) by {
    assert(rm(A@[k]@, A3@[k]@, j, off, 1, t, 0, 1)); let u = A3@[k]@[j].v(); let v = A3@[k]@[off].v(); assert(0 * u == 0 && 1 * v == v && 1 * u == u); assert(A3@[k]@.len() == n); }
  assert((-tmp) * g == -(tmp * g)) by(nonlinear_arith); assert(ment(A@, off, off) == g); assert(ment(A@, off, j) == 0);
  assert forall|k: int| off < k < n implies #[trigger] ment(A@, k, off) == 0 by { assert(ment(A3@, k, off) == 0); }
  assert forall|k: int| off < k < j + 1 implies #[trigger] ment(A@, off, k) == 0 by { if k < j { assert(ment(A3@, off, k) == 0); } }
  assert forall|k: int| j + 1 <= k < n implies dvd(g, #[trigger] ment(A@, off, k)) by { assert(dvd(g, ment(A3@, off, k))); assert(ment(A@, off, k) == ment(A3@, off, k)); } }
pub proof fn drw_fin(A: Mt, L: Mt, R: Mt, A0: Mt, L0: Mt, R0: Mt, n: int, off: int) requires dst(A, L, R, A0, L0, R0, n, off), drw(A@, off, n), 0 <= off < n ensures dst(A, L, R, A0, L0, R0, n, off + 1)
{ let k = off + 1; assert(A@.len() == n); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j && (i < k || j < k) implies #[trigger] ment(A@, i, j) == 0 by { }
  assert forall|i: int| 0 <= i < k && i < n implies #[trigger] ment(A@, i, i) >= 1 by { } assert(zp(A@, k)); }
pub proof fn last_pos(A: Mt, L: Mt, R: Mt, A0: Mt, L0: Mt, R0: Mt, n: int) requires dst(A, L, R, A0, L0, R0, n, n - 1), n >= 1, ment(A@, n - 1, n - 1) > 0 ensures dst(A, L, R, A0, L0, R0, n, n)
{ assert(A@.len() == n); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j && (i < n || j < n) implies #[trigger] ment(A@, i, j) == 0 by { if i == n - 1 { assert(j < n - 1); } } assert(zp(A@, n)); }
pub proof fn last_nz(A: Mt, L: Mt, R: Mt, A0: Mt, L0: Mt, R0: Mt, n: int) requires dst(A, L, R, A0, L0, R0, n, n - 1), n >= 1 ensures ment(A@, n - 1, n - 1) != 0
{ dst_in(A, L, R, A0, L0, R0, n, n - 1); assert forall|j: int| 0 <= j < n && j != n - 1 implies #[trigger] ment(A@, n - 1, j) == 0 by { assert(zp(A@, n - 1)); } row_nz(A@, n - 1); }
@fn diagonalizationIn(mat_ZZ &, mat_ZZ &, mat_ZZ &) as sn_diag static
@requires mdim(A, A@.len() as int, A@.len() as int), mdim(L, A@.len() as int, A@.len() as int), mdim(R, A@.len() as int, A@.len() as int), 1 <= A@.len() <= i32::MAX, mdet(A@) != 0
@ensures A@.len() == A0@.len(), dst(A, L, R, A0, L0, R0, A0@.len() as int, A0@.len() as int)
@at ghost entry
  let ghost n = A@.len() as int; let ghost mut ph: int = 1; let ghost mut A1 = A; let ghost mut L1 = L; let ghost mut R1 = R; let ghost mut cur: int = 0;
@at entry
  dst_start(A0, L0, R0, n);
@invariant 0
  n == A0@.len(), n <= i32::MAX, 0 <= offset, offset <= n - 1, dst(A, L, R, A0, L0, R0, n, offset as int), mdim(A, n, n)
@loopdec 0 n - offset
@at begin 0
  ph = 1;
@invariant 1
  n == A0@.len(), n <= i32::MAX, 0 <= offset, offset < n - 1, dst(A, L, R, A0, L0, R0, n, offset as int), mdim(A, n, n), ph == 1 || ph == 0, ph == 0 ==> ment(A@, offset as int, offset as int) != 0 && !rdiv_all(A@, offset as int)
@loopens 1 n == A0@.len(), n <= i32::MAX, 0 <= offset, offset < n - 1, dst(A, L, R, A0, L0, R0, n, offset as int), mdim(A, n, n), ment(A@, offset as int, offset as int) != 0, czero(A@, offset as int), rdiv_all(A@, offset as int)
@loopdec 1 ph, zabs(ment(A@, offset as int, offset as int))
@at ghost begin 1
  let ghost A1 = A; let ghost L1 = L; let ghost R1 = R; proof { dst_in(A, L, R, A0, L0, R0, n, offset as int); }
@at ghost after /sn_row\(/
  let ghost A2 = A; let ghost L2 = L; let ghost R2 = R; proof { dst_c(A, R, A1, L1, R1, A0, L0, R0, n, offset as int, offset as int); dst_in(A, L, R, A0, L0, R0, n, offset as int); }
@at after /sn_col\(/
  dst_r(A, L, A2, L2, R2, A0, L0, R0, n, offset as int, offset as int); if ph == 0 { dia_dec(A1@, A2@, ment(A2@, offset as int, offset as int), ment(A@, offset as int, offset as int), offset as int); } ph = 0;
@at after 1
  cur = offset as int; dst_in(A, L, R, A0, L0, R0, n, cur); A1 = A; L1 = L; R1 = R;
@at after every /\*L = mt_setrow/
  mk_rneg(A@, A1@, cur); mk_rneg(L@, L1@, cur); dia_neg(A, L, A1, L1, R1, A0, L0, R0, n, cur);
@at before 2
  if ment(A1@, cur, cur) > 0 { dgo_pos(A, cur); } else { dgo_neg(A, A1, cur, n); } drw_start(A, cur); dst_in(A, L, R, A0, L0, R0, n, cur);
@invariant 2
  n == A0@.len(), n <= i32::MAX, cur == offset, 0 <= offset, offset < n - 1, offset < i <= n, dst(A, L, R, A0, L0, R0, n, cur), mdim(A, n, n), mdim(R, n, n), drw(A@, cur, i as int)
@loopdec 2 n - i
@at ghost begin 2
  let ghost A3 = A; let ghost R3 = R; proof { dst_in(A, L, R, A0, L0, R0, n, cur); drw_pos(A, cur, i as int); if ment(A@, cur, i as int) != 0 { drw_in(A, cur, i as int); } }
@at before 3
  partc_0(A@, i as int, cur, 1, -tmp.v(), 0, 1); partc_0(R@, i as int, cur, 1, -tmp.v(), 0, 1);
@invariant 3
  n == A0@.len(), n <= i32::MAX, cur == offset, 0 <= offset, offset < n - 1, offset < i < n, 0 <= j <= n, mdim(A, n, n), mdim(R, n, n), mdim(A3, n, n), mdim(R3, n, n),
  partc(A@, A3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1), partc(R@, R3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1)
@loopdec 3 n - j
@at ghost begin 3
  let ghost Ab = A@; let ghost Rb = R@; proof { partc_at(Ab, A3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1); partc_at(Rb, R3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1); }
@at end 3
  rm_sub(A@[j as int]@, A3@[j as int]@, i as int, cur, tmp.v()); rm_sub(R@[j as int]@, R3@[j as int]@, i as int, cur, tmp.v()); partc_step(Ab, A@, A3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1); partc_step(Rb, R@, R3@, j as int, i as int, cur, 1, -tmp.v(), 0, 1);
@at after 3
  drw_step(A, R, A3, L, R3, A0, L0, R0, n, cur, i as int, tmp.v()); dst_in(A, L, R, A0, L0, R0, n, cur);
@at end 2
  if ment(A3@, cur, i as int) == 0 { drw_skip(A, cur, i as int); }
@at after 2
  drw_fin(A, L, R, A0, L0, R0, n, cur);
@at after 0
  cur = n - 1; dst_in(A, L, R, A0, L0, R0, n, cur); last_nz(A, L, R, A0, L0, R0, n); A1 = A; L1 = L; R1 = R;
@at exit
  last_pos(A, L, R, A0, L0, R0, n);
@end
