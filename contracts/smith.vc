// Smith normal form (Iliopoulos): genFunction/matrix_ops.cpp
@include smlem.vc proved
@source genFunction/matrix_ops.cpp
@enum BarvinokParameters::SmithFormType
@hidden st zp crel rrel drel sqm cmix rmix rm lin tsum gst addr alld cdiv unimod mulm dvd is_gcd fdiv frem zabs mdet unitm partc parta cs1 cs2 rs1 rs2 radd is_lv nodes_lv chain_lv lset submap lrows rows_of gcdof facets_ok fdone scaled
@fn check(const mat_ZZ &, int) as sn_check static
@requires mdim(A, A@.len() as int, A@.len() as int), A@.len() <= i32::MAX, 0 <= offset, offset + 1 < A@.len()
@ensures ret == (ment(A@, offset as int, offset as int) == 0 || rdiv_all(A@, offset as int))
@invariant 0
  mdim(A, A@.len() as int, A@.len() as int), A@.len() <= i32::MAX, 0 <= offset < row_p, row_p <= A@.len(), ment(A@, offset as int, offset as int) != 0,
  forall|j: int| offset < j < row_p ==> dvd(ment(A@, offset as int, offset as int), #[trigger] ment(A@, offset as int, j))
@loopdec 0 A@.len() - row_p
@at after /tmp = zz_rem/
  let ghost_p = ment(A@, offset as int, offset as int); frem_dvd(ment(A@, offset as int, row_p as int), ghost_p); if tmp.v() != 0 { assert(!dvd(ghost_p, ment(A@, offset as int, row_p as int))); }
@rs
pub open spec fn rdiv_all(A: Seq<Vc<Z>>, off: int) -> bool { forall|j: int| off < j < A.len() ==> dvd(ment(A, off, off), #[trigger] ment(A, off, j)) }
pub open spec fn rzero(A: Seq<Vc<Z>>, off: int) -> bool { forall|j: int| off < j < A.len() ==> #[trigger] ment(A, off, j) == 0 }
pub open spec fn czero(A: Seq<Vc<Z>>, off: int) -> bool { forall|j: int| off < j < A.len() ==> #[trigger] ment(A, j, off) == 0 }
pub open spec fn sq2(A: Mt, R: Mt, n: int) -> bool { mdim(A, n, n) && mdim(R, n, n) && sqm(A@) && sqm(R@) }
pub proof fn mk_sqm(A: Mt, n: int) requires mdim(A, n, n) ensures sqm(A@) {}
// state after the first column step
pub open spec fn cs1(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int) -> bool {
    sq2(A, R, n) && crel(A0@, R0@, A@, R@, off) && ment(A@, off, off) == 0 && cdiv(A@[off]@, A0@[off]@, off)
}
pub proof fn cs1_zero(A: Mt, R: Mt, n: int, off: int) requires mdim(A, n, n), mdim(R, n, n), 0 <= off < n, ment(A@, off, off) == 0 ensures cs1(A, R, A, R, n, off)
{ mk_sqm(A, n); mk_sqm(R, n); crel_refl(A@, R@, off); assert(A@[off]@.len() == n); cdiv_zero(A@[off]@, off); }
pub proof fn part_cmix(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) requires partc(Y, X, X.len() as int, a, b, p, q, r, s) ensures cmix(Y, X, a, b, p, q, r, s)
{ reveal(cmix); }
pub proof fn cs1_swap(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int) requires mdim(A, n, n), mdim(R, n, n), mdim(A0, n, n), mdim(R0, n, n), 0 <= off, off + 1 < n, partc(A@, A0@, n, off, off + 1, 0, 1, 1, 0), partc(R@, R0@, n, off, off + 1, 0, 1, 1, 0), ment(A0@, off, off + 1) == 0 ensures cs1(A, R, A0, R0, n, off)
{ mk_sqm(A, n); mk_sqm(R, n); mk_sqm(A0, n); mk_sqm(R0, n); part_cmix(A@, A0@, off, off + 1, 0, 1, 1, 0); part_cmix(R@, R0@, off, off + 1, 0, 1, 1, 0); assert(0 * 0 - 1 * 1 == -1); crel_mix(A0@, R0@, A@, R@, off, off + 1, 0, 1, 1, 0, off);
  assert(A0@[off]@.len() == n); assert(rm(A@[off]@, A0@[off]@, off, off + 1, 0, 1, 1, 0)); cdiv_swap(A@[off]@, A0@[off]@, off); }
pub proof fn cs1_gcd(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, p: int, q: int, r: int, s: int) requires mdim(A, n, n), mdim(R, n, n), mdim(A0, n, n), mdim(R0, n, n), 0 <= off, off + 1 < n, partc(A@, A0@, n, off, off + 1, p, q, r, s), partc(R@, R0@, n, off, off + 1, p, q, r, s), xg(A0@[off]@, off, g, p, q, r, s) ensures cs1(A, R, A0, R0, n, off)
{ reveal(xg); mk_sqm(A, n); mk_sqm(R, n); mk_sqm(A0, n); mk_sqm(R0, n); part_cmix(A@, A0@, off, off + 1, p, q, r, s); part_cmix(R@, R0@, off, off + 1, p, q, r, s);
  assert(A0@[off]@.len() == n); assert(rm(A@[off]@, A0@[off]@, off, off + 1, p, q, r, s)); cdiv_gcd(A@[off]@, A0@[off]@, off, g, p, q, r, s); crel_mix(A0@, R0@, A@, R@, off, off + 1, p, q, r, s, off); }
#[verifier::opaque]
pub open spec fn xg(x: Seq<Z>, off: int, g: int, p: int, q: int, r: int, s: int) -> bool { x[off].v() != 0 && is_gcd(g, x[off].v(), x[off + 1].v()) && r * x[off].v() + s * x[off + 1].v() == g && p == fdiv(x[off + 1].v(), g) && q == fdiv(-1 * x[off].v(), g) }
pub proof fn xgcd_nz(g: int, a: int, b: int) requires is_gcd(g, a, b), a != 0 ensures g != 0 { dvd_le(g, a); }
// after adding the multiples
pub open spec fn cs2(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, j: int) -> bool {
    &&& sq2(A, R, n) && crel(A0@, R0@, A@, R@, off) && ment(A@, off, off) == g && alld(g, A0@[off]@, off)
    &&& (forall|k: int| off < k < j ==> #[trigger] ment(A@, off, k) == 0) && forall|k: int| j <= k < n ==> dvd(g, #[trigger] ment(A@, off, k))
}
pub proof fn cs2_add(A: Mt, R: Mt, A1: Mt, R1: Mt, A0: Mt, R0: Mt, n: int, off: int, t: Seq<Z>, g: int) requires cs1(A1, R1, A0, R0, n, off), mdim(A, n, n), mdim(R, n, n), 0 <= off, off + 1 < n, parta(A@, A1@, n, off, t, n - off), parta(R@, R1@, n, off, t, n - off), gst(t, A1@[off]@, off, n - off, 1, g) ensures cs2(A, R, A0, R0, n, off, g, off + 1)
{ let m = n - off; mk_sqm(A, n); mk_sqm(R, n); assert(cadd(A@, A1@, off, t, m)); assert(cadd(R@, R1@, off, t, m)); cadd_eq(A@, A1@, off, t, m); cadd_eq(R@, R1@, off, t, m); crel_add(A1@, R1@, off, t, m); crel_trans(A0@, R0@, A1@, R1@, A@, R@, off);
  assert(addr(A@[off]@, A1@[off]@, off, t, m)); let w = A1@[off]@; assert(w.len() == n);
  assert forall|k: int| off + 1 <= k < n implies dvd(g, #[trigger] ment(A@, off, k)) by { assert(A@[off]@[k] == w[k]); assert(dvd(g, w[off + (k - off)].v())); }
  assert(alld(g, w, off + 1)) by { assert forall|k: int| off + 1 <= k < w.len() implies dvd(g, (#[trigger] w[k]).v()) by { assert(dvd(g, w[off + (k - off)].v())); } } }
pub proof fn cs2_step(A: Mt, R: Mt, A3: Mt, R3: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, j: int, tmp: int) requires cs2(A3, R3, A0, R0, n, off, g, j), mdim(A, n, n), mdim(R, n, n), 0 <= off < j, j < n, partc(A@, A3@, n, j, off, 1, -tmp, 0, 1), partc(R@, R3@, n, j, off, 1, -tmp, 0, 1), tmp * g == ment(A3@, off, j) ensures cs2(A, R, A0, R0, n, off, g, j + 1)
{ mk_sqm(A, n); mk_sqm(R, n); part_cmix(A@, A3@, j, off, 1, -tmp, 0, 1); part_cmix(R@, R3@, j, off, 1, -tmp, 0, 1); assert((-tmp) * 0 == 0 && 1 * 1 - (-tmp) * 0 == 1); crel_mix(A3@, R3@, A@, R@, j, off, 1, -tmp, 0, 1, off); crel_trans(A0@, R0@, A3@, R3@, A@, R@, off);
  let y = A@[off]@; let x = A3@[off]@; assert(x.len() == n); assert(rm(y, x, j, off, 1, -tmp, 0, 1)); let u = x[j].v(); let v = x[off].v(); assert(0 * u == 0 && 1 * v == v && 1 * u == u); assert((-tmp) * v == -(tmp * v)) by(nonlinear_arith);
  assert(ment(A@, off, j) == 0); assert(ment(A@, off, off) == g);
  assert forall|k: int| off < k < j + 1 implies #[trigger] ment(A@, off, k) == 0 by { if k < j { assert(y[k] == x[k]); assert(ment(A3@, off, k) == 0); } }
  assert forall|k: int| j + 1 <= k < n implies dvd(g, #[trigger] ment(A@, off, k)) by { assert(y[k] == x[k]); assert(dvd(g, ment(A3@, off, k))); } }
pub proof fn cs2_skip(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, j: int) requires cs2(A, R, A0, R0, n, off, g, j), ment(A@, off, j) == 0, off < j < n ensures cs2(A, R, A0, R0, n, off, g, j + 1) {}
pub proof fn cs2_fin(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int) requires cs2(A, R, A0, R0, n, off, g, n), 0 <= off < n, zp(A0@, off), mdet(A0@) != 0, A0@[off]@.len() == n ensures zp(A@, off), rzero(A@, off), ment(A@, off, off) != 0, mdet(A@) != 0, alld(ment(A@, off, off), A0@[off]@, off), crel(A0@, R0@, A@, R@, off), sq2(A, R, n)
{ assert forall|j: int| 0 <= j < n && j != off implies #[trigger] ment(A@, off, j) == 0 by { if j < off { reveal(zp); } } row_nz(A@, off); }
pub proof fn xline(x: int, g: int) requires dvd(g, x), x != 0 ensures g != 0, fdiv(x, g) * g == x { if g == 0 { dvd_zero(x); } exd(x, g); }
pub proof fn rm_swap(y: Seq<Z>, x: Seq<Z>, a: int, b: int) requires y.len() == x.len(), 0 <= a < x.len(), 0 <= b < x.len(), y[a] == x[b], y[b] == x[a], forall|j: int| 0 <= j < x.len() && j != a && j != b ==> #[trigger] y[j] == x[j] ensures rm(y, x, a, b, 0, 1, 1, 0)
{ let u = x[a].v(); let v = x[b].v(); assert(0 * u == 0 && 1 * u == u && 1 * v == v && 0 * v == 0); }
pub proof fn rm_sub(y: Seq<Z>, x: Seq<Z>, a: int, b: int, t: int) requires y.len() == x.len(), 0 <= a < x.len(), 0 <= b < x.len(), a != b, y[a].v() == x[a].v() - t * x[b].v(), forall|j: int| 0 <= j < x.len() && j != a ==> #[trigger] y[j] == x[j] ensures rm(y, x, a, b, 1, -t, 0, 1)
{ let u = x[a].v(); let v = x[b].v(); assert(0 * u == 0 && 1 * u == u && 1 * v == v && 0 * v == 0); assert((-t) * v == -(t * v)) by(nonlinear_arith); assert(y[b] == x[b]); }
pub proof fn addr_step(y2: Seq<Z>, y: Seq<Z>, x: Seq<Z>, off: int, t: Seq<Z>, k: int) requires addr(y, x, off, t, k), 0 <= off, 1 <= k, off + k < x.len(), y2.len() == y.len(), y2[off].v() == y[off].v() + t[k].v() * y[off + k].v(), forall|j: int| 0 <= j < x.len() && j != off ==> #[trigger] y2[j] == y[j] ensures addr(y2, x, off, t, k + 1)
{ assert(y[off + k] == x[off + k]); assert forall|j: int| 0 <= j < x.len() && j != off implies #[trigger] y2[j] == x[j] by { assert(y[j] == x[j]); } }
pub proof fn partc_0(X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) ensures partc(X, X, 0, a, b, p, q, r, s) {}
pub proof fn parta_0(X: Seq<Vc<Z>>, off: int, t: Seq<Z>, m: int) ensures parta(X, X, 0, off, t, m) {}
pub proof fn partc_at(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, a: int, b: int, p: int, q: int, r: int, s: int) requires partc(Y, X, i, a, b, p, q, r, s), 0 <= i < X.len() ensures Y[i] == X[i], Y.len() == X.len() {}
pub proof fn parta_at(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, off: int, t: Seq<Z>, m: int) requires parta(Y, X, i, off, t, m), 0 <= i < X.len() ensures Y[i] == X[i], Y.len() == X.len() {}
pub proof fn mk_rm(y: Seq<Z>, x: Seq<Z>, a: int, b: int, p: int, q: int, r: int, s: int) requires y.len() == x.len() && y[a].v() == p * x[a].v() + q * x[b].v() && y[b].v() == r * x[a].v() + s * x[b].v(), forall|j: int| 0 <= j < x.len() && j != a && j != b ==> #[trigger] y[j] == x[j] ensures rm(y, x, a, b, p, q, r, s) {}
pub proof fn cs_in(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int) requires cs1(A, R, A0, R0, n, off) ensures mdim(A, n, n), mdim(R, n, n) {}
pub proof fn cs2_in(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, j: int) requires cs2(A, R, A0, R0, n, off, g, j), off < j < n ensures mdim(A, n, n), mdim(R, n, n), dvd(g, ment(A@, off, j)), ment(A@, off, off) == g {}
pub proof fn cs2_out(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int, g: int, j: int) requires cs2(A, R, A0, R0, n, off, g, j) ensures mdim(A, n, n), mdim(R, n, n) {}
pub proof fn addr_0(x: Seq<Z>, off: int, t: Seq<Z>) requires 0 <= off < x.len() ensures addr(x, x, off, t, 1) { assert(tsum(t, x, off, 1, 1) == 0); }
@fn eliminationRow(mat_ZZ &, mat_ZZ &, int) as sn_row static
@requires mdim(A, A@.len() as int, A@.len() as int), mdim(R, A@.len() as int, A@.len() as int), A@.len() <= i32::MAX, 0 <= offset, offset + 1 < A@.len(), zp(A@, offset as int), mdet(A@) != 0
@ensures A@.len() == A0@.len(), sq2(A, R, A0@.len() as int), crel(A0@, R0@, A@, R@, offset as int), zp(A@, offset as int), mdet(A@) != 0, rzero(A@, offset as int), ment(A@, offset as int, offset as int) != 0, alld(ment(A@, offset as int, offset as int), A0@[offset as int]@, offset as int)
@at ghost entry
  let ghost n = A@.len() as int; let ghost off = offset as int; let ghost mut A1 = A; let ghost mut R1 = R;
@at entry
  mk_sqm(A0, n); mk_sqm(R0, n); if ment(A0@, off, off) == 0 { cs1_zero(A0, R0, n, off); }
@at before 0
  partc_0(A@, off, off + 1, 0, 1, 1, 0); partc_0(R@, off, off + 1, 0, 1, 1, 0);
@invariant 0
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 0 <= i <= n, mdim(A, n, n), mdim(R, n, n), mdim(A0, n, n), mdim(R0, n, n),
  partc(A@, A0@, i as int, off, off + 1, 0, 1, 1, 0), partc(R@, R0@, i as int, off, off + 1, 0, 1, 1, 0)
@loopdec 0 n - i
@at ghost begin 0
  let ghost Ab = A@; let ghost Rb = R@; proof { partc_at(Ab, A0@, i as int, off, off + 1, 0, 1, 1, 0); partc_at(Rb, R0@, i as int, off, off + 1, 0, 1, 1, 0); }
@at end 0
 rm_swap(A@[i as int]@, A0@[i as int]@, off, off + 1); rm_swap(R@[i as int]@, R0@[i as int]@, off, off + 1); partc_step(Ab, A@, A0@, i as int, off, off + 1, 0, 1, 1, 0); partc_step(Rb, R@, R0@, i as int, off, off + 1, 0, 1, 1, 0);
@at after 0
  cs1_swap(A, R, A0, R0, n, off);
@at after /zz_xgcd\(vget\(mt_row\(\(\*A\), \(offset as i64\)\), \(offset as i64\)\)/
  xgcd_nz(r.v(), ment(A0@, off, off), ment(A0@, off, off + 1));
@at after /y2 = zz_div/
  assert(xg(A0@[off]@, off, r.v(), y1.v(), y2.v(), x1.v(), x2.v())) by { reveal(xg); }
@at before 1
  partc_0(A@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); partc_0(R@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v());
@invariant 1
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 0 <= i_2 <= n, mdim(A, n, n), mdim(R, n, n), mdim(A0, n, n), mdim(R0, n, n),
  partc(A@, A0@, i_2 as int, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()), partc(R@, R0@, i_2 as int, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v())
@loopdec 1 n - i_2
@at ghost begin 1
  let ghost Ab = A@; let ghost Rb = R@; proof { partc_at(Ab, A0@, i_2 as int, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); partc_at(Rb, R0@, i_2 as int, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); }
@at end 1
  let i = i_2 as int; mk_rm(A@[i]@, A0@[i]@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); mk_rm(R@[i]@, R0@[i]@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); partc_step(Ab, A@, A0@, i, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v()); partc_step(Rb, R@, R0@, i, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v());
@at after 1
  cs1_gcd(A, R, A0, R0, n, off, r.v(), y1.v(), y2.v(), x1.v(), x2.v());
@at after /t_Coeffs = ntl_setlength_z/
  cs_in(A, R, A0, R0, n, off); A1 = A; R1 = R;
@at before 2
  gst_start(t_Coeffs@, A1@[off]@, off, n - off);
@invariant 2
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 2 <= i_3 <= n - off, A == A1, R == R1, cs1(A1, R1, A0, R0, n, off), mdim(A1, n, n),
  gst(t_Coeffs@, A1@[off]@, off, n - off, n - off - i_3 + 1, g.v()), t_Coeffs@.len() == n - off
@loopdec 2 n - i_3
@at ghost begin 2
  let ghost told = t_Coeffs@; let ghost gold = g.v();
@invariant 3
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 2 <= i_3 < n - off, A == A1, mdim(A1, n, n), told.len() == n - off, t_Coeffs@.len() == n - off, n - off - i_3 + 1 <= j <= n - off,
  t_Coeffs@[n - off - i_3].v() == r.v(), forall|k: int| n - off - i_3 + 1 <= k < j ==> (#[trigger] t_Coeffs@[k]).v() == told[k].v() * s.v(), forall|k: int| j <= k < n - off ==> #[trigger] t_Coeffs@[k] == told[k]
@loopdec 3 n - off - j
@at end 2
  assert forall|k: int| n - off - i_3 + 1 <= k < n - off implies (#[trigger] t_Coeffs@[k]).v() == told[k].v() * s.v() by { if s.v() == 1 { let u = told[k].v(); assert(u * 1 == u); } }
    gst_step(told, t_Coeffs@, A1@[off]@, off, n - off, n - off - i_3 + 1, gold, g.v(), r.v(), s.v());
@at before 4
  cs_in(A, R, A0, R0, n, off); parta_0(A@, off, t_Coeffs@, n - off); parta_0(R@, off, t_Coeffs@, n - off);
@invariant 4
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 0 <= i_4 <= n, mdim(A, n, n), mdim(R, n, n), mdim(A1, n, n), mdim(R1, n, n), t_Coeffs@.len() == n - off, cs1(A1, R1, A0, R0, n, off), gst(t_Coeffs@, A1@[off]@, off, n - off, 1, g.v()),
  parta(A@, A1@, i_4 as int, off, t_Coeffs@, n - off), parta(R@, R1@, i_4 as int, off, t_Coeffs@, n - off)
@loopdec 4 n - i_4
@at ghost begin 4
  let ghost Ab = A@; let ghost Rb = R@;
@at before 5
  parta_at(A@, A1@, i_4 as int, off, t_Coeffs@, n - off); parta_at(R@, R1@, i_4 as int, off, t_Coeffs@, n - off);
  addr_0(A1@[i_4 as int]@, off, t_Coeffs@); addr_0(R1@[i_4 as int]@, off, t_Coeffs@);
@invariant 5
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 0 <= i_4 < n, mdim(A, n, n), mdim(R, n, n), mdim(A1, n, n), mdim(R1, n, n), t_Coeffs@.len() == n - off, 1 <= j_2 <= n - off,
  addr(A@[i_4 as int]@, A1@[i_4 as int]@, off, t_Coeffs@, j_2 as int), addr(R@[i_4 as int]@, R1@[i_4 as int]@, off, t_Coeffs@, j_2 as int), A@.len() == Ab.len(), R@.len() == Rb.len(),
  forall|k: int| 0 <= k < n && k != i_4 ==> #[trigger] A@[k] == Ab[k], forall|k: int| 0 <= k < n && k != i_4 ==> #[trigger] R@[k] == Rb[k]
@loopdec 5 n - off - j_2
@at ghost begin 5
  let ghost Ac = A@[i_4 as int]@; let ghost Rc = R@[i_4 as int]@;
@at end 5
  let i = i_4 as int; addr_step(A@[i]@, Ac, A1@[i]@, off, t_Coeffs@, j_2 as int); addr_step(R@[i]@, Rc, R1@[i]@, off, t_Coeffs@, j_2 as int);
@at end 4
  parta_step(Ab, A@, A1@, i_4 as int, off, t_Coeffs@, n - off); parta_step(Rb, R@, R1@, i_4 as int, off, t_Coeffs@, n - off);
@at after 4
  cs2_add(A, R, A1, R1, A0, R0, n, off, t_Coeffs@, g.v());
@invariant 6
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, off < j_3 <= n, mdim(A, n, n), mdim(R, n, n), mdim(A0, n, n), cs2(A, R, A0, R0, n, off, g.v(), j_3 as int)
@loopdec 6 n - j_3
@at ghost begin 6
  let ghost A3 = A; let ghost R3 = R;
@at begin 6
  cs2_in(A, R, A0, R0, n, off, g.v(), j_3 as int); if ment(A@, off, j_3 as int) != 0 { assert(dvd(g.v(), ment(A@, off, j_3 as int))); xline(ment(A@, off, j_3 as int), g.v()); }
@at before 7
  partc_0(A@, j_3 as int, off, 1, -tmp.v(), 0, 1); partc_0(R@, j_3 as int, off, 1, -tmp.v(), 0, 1);
@invariant 7
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off < j_3 < n, 0 <= i_5 <= n, mdim(A, n, n), mdim(R, n, n), mdim(A3, n, n), mdim(R3, n, n),
  partc(A@, A3@, i_5 as int, j_3 as int, off, 1, -tmp.v(), 0, 1), partc(R@, R3@, i_5 as int, j_3 as int, off, 1, -tmp.v(), 0, 1)
@loopdec 7 n - i_5
@at ghost begin 7
  let ghost Ab = A@; let ghost Rb = R@; proof { partc_at(Ab, A3@, i_5 as int, j_3 as int, off, 1, -tmp.v(), 0, 1); partc_at(Rb, R3@, i_5 as int, j_3 as int, off, 1, -tmp.v(), 0, 1); }
@at end 7
  let i = i_5 as int; let j = j_3 as int; rm_sub(A@[i]@, A3@[i]@, j, off, tmp.v()); rm_sub(R@[i]@, R3@[i]@, j, off, tmp.v()); partc_step(Ab, A@, A3@, i, j, off, 1, -tmp.v(), 0, 1); partc_step(Rb, R@, R3@, i, j, off, 1, -tmp.v(), 0, 1);
@at after 7
  cs2_step(A, R, A3, R3, A0, R0, n, off, g.v(), j_3 as int, tmp.v());
@at end 6
  if ment(A3@, off, j_3 as int) == 0 { cs2_skip(A, R, A0, R0, n, off, g.v(), j_3 as int); }
@at after 6
  cs2_fin(A, R, A0, R0, n, off, g.v());
@rs
pub proof fn rmix_col(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, c: int) requires sqm(X), rmix(Y, X, a, b, p, q, r, s), 0 <= a < X.len(), 0 <= b < X.len(), 0 <= c < X.len() ensures rm(colv(Y, c), colv(X, c), a, b, p, q, r, s)
{ let y = colv(Y, c); let x = colv(X, c); assert(X[a]@.len() == X.len()); assert(Y[a]@[c].v() == p * X[a]@[c].v() + q * X[b]@[c].v()); assert(Y[b]@[c].v() == r * X[a]@[c].v() + s * X[b]@[c].v());
  assert forall|j: int| 0 <= j < x.len() && j != a && j != b implies #[trigger] y[j] == x[j] by { assert(Y[j] == X[j]); } }
pub open spec fn rs1(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int) -> bool {
    sq2(A, L, n) && rrel(A0@, L0@, A@, L@, off) && ment(A@, off, off) == 0 && cdiv(colv(A@, off), colv(A0@, off), off)
}
pub proof fn rs1_zero(A: Mt, L: Mt, n: int, off: int) requires mdim(A, n, n), mdim(L, n, n), 0 <= off < n, ment(A@, off, off) == 0 ensures rs1(A, L, A, L, n, off)
{ mk_sqm(A, n); mk_sqm(L, n); crel_refl(A@, L@, off); cdiv_zero(colv(A@, off), off); }
pub proof fn rs1_swap(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int) requires mdim(A, n, n), mdim(L, n, n), mdim(A0, n, n), mdim(L0, n, n), 0 <= off, off + 1 < n, A@ == A0@.update(off, A0@[off + 1]).update(off + 1, A0@[off]), L@ == L0@.update(off, L0@[off + 1]).update(off + 1, L0@[off]), ment(A0@, off + 1, off) == 0 ensures rs1(A, L, A0, L0, n, off)
{ mk_sqm(A, n); mk_sqm(L, n); mk_sqm(A0, n); mk_sqm(L0, n); rmix_swap(A@, A0@, off, off + 1); rmix_swap(L@, L0@, off, off + 1); assert(0 * 0 - 1 * 1 == -1); rrel_mix(A0@, L0@, A@, L@, off, off + 1, 0, 1, 1, 0, off);
  rmix_col(A@, A0@, off, off + 1, 0, 1, 1, 0, off); cdiv_swap(colv(A@, off), colv(A0@, off), off); }
pub proof fn rmix_swap(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), a != b, Y == X.update(a, X[b]).update(b, X[a]) ensures rmix(Y, X, a, b, 0, 1, 1, 0)
{ assert(X[a]@.len() == X.len() && X[b]@.len() == X.len());
  assert forall|k: int| 0 <= k < X.len() implies (#[trigger] Y[a]@[k]).v() == 0 * X[a]@[k].v() + 1 * X[b]@[k].v() by { let u = X[a]@[k].v(); let v = X[b]@[k].v(); assert(0 * u == 0 && 1 * v == v); }
  assert forall|k: int| 0 <= k < X.len() implies (#[trigger] Y[b]@[k]).v() == 1 * X[a]@[k].v() + 0 * X[b]@[k].v() by { let u = X[a]@[k].v(); let v = X[b]@[k].v(); assert(0 * v == 0 && 1 * u == u); } }
pub proof fn rs1_gcd(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int, p: int, q: int, r: int, s: int) requires mdim(A, n, n), mdim(L, n, n), mdim(A0, n, n), mdim(L0, n, n), 0 <= off, off + 1 < n, rmix(A@, A0@, off, off + 1, p, q, r, s), rmix(L@, L0@, off, off + 1, p, q, r, s), xg(colv(A0@, off), off, g, p, q, r, s) ensures rs1(A, L, A0, L0, n, off)
{ reveal(xg); mk_sqm(A, n); mk_sqm(L, n); mk_sqm(A0, n); mk_sqm(L0, n); rmix_col(A@, A0@, off, off + 1, p, q, r, s, off); cdiv_gcd(colv(A@, off), colv(A0@, off), off, g, p, q, r, s); rrel_mix(A0@, L0@, A@, L@, off, off + 1, p, q, r, s, off); }
pub proof fn mk_rmix2(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, u: Vc<Z>, w: Vc<Z>) requires a != b, 0 <= a < X.len(), 0 <= b < X.len(), sqm(X), Y == X.update(a, u).update(b, w), lin(u@, X[a]@, X[b]@, p, q), lin(w@, X[a]@, X[b]@, r, s) ensures rmix(Y, X, a, b, p, q, r, s) {}
pub proof fn mk_lin(v: Seq<Z>, x: Seq<Z>, y: Seq<Z>, p: int, q: int) requires v.len() == x.len(), y.len() == x.len(), forall|k: int| 0 <= k < x.len() ==> (#[trigger] v[k]).v() == p * x[k].v() + q * y[k].v() ensures lin(v, x, y, p, q) {}
pub proof fn lin_self(x: Seq<Z>, y: Seq<Z>) requires x.len() == y.len() ensures lin(y, x, y, 0, 1), lin(x, x, y, 1, 0)
{ assert forall|k: int| 0 <= k < x.len() implies (#[trigger] y[k]).v() == 0 * x[k].v() + 1 * y[k].v() by { let u = x[k].v(); let v = y[k].v(); assert(0 * u == 0 && 1 * v == v); }
  assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]).v() == 1 * x[k].v() + 0 * y[k].v() by { let u = x[k].v(); let v = y[k].v(); assert(0 * v == 0 && 1 * u == u); } }
// row a gets t times row b added
pub proof fn rmix_add(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, t: int, v: Vc<Z>) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), a != b, Y == X.update(a, v), v@.len() == X.len(), forall|k: int| 0 <= k < X.len() ==> (#[trigger] v@[k]).v() == X[a]@[k].v() + t * X[b]@[k].v() ensures rmix(Y, X, a, b, 1, t, 0, 1)
{ assert(X[a]@.len() == X.len() && X[b]@.len() == X.len()); assert forall|k: int| 0 <= k < X.len() implies (#[trigger] v@[k]).v() == 1 * X[a]@[k].v() + t * X[b]@[k].v() by { let u = X[a]@[k].v(); assert(1 * u == u); } lin_self(X[a]@, X[b]@); assert(Y[b] == X[b]); }
pub open spec fn radd(A: Mt, L: Mt, A1: Mt, L1: Mt, n: int, off: int, t: Seq<Z>, j: int) -> bool {
    sq2(A, L, n) && rrel(A1@, L1@, A@, L@, off) && ment(A@, off, off) == ment(A1@, off, off) + tsum(t, colv(A1@, off), off, 1, j) && forall|k: int| 0 <= k < n && k != off ==> #[trigger] A@[k] == A1@[k]
}
pub proof fn radd_0(A: Mt, L: Mt, n: int, off: int, t: Seq<Z>) requires mdim(A, n, n), mdim(L, n, n), 0 <= off < n ensures radd(A, L, A, L, n, off, t, 1) { mk_sqm(A, n); mk_sqm(L, n); crel_refl(A@, L@, off); assert(tsum(t, colv(A@, off), off, 1, 1) == 0); }
pub proof fn radd_step(A: Mt, L: Mt, A3: Mt, L3: Mt, A1: Mt, L1: Mt, n: int, off: int, t: Seq<Z>, j: int, v: Vc<Z>, w: Vc<Z>) requires radd(A3, L3, A1, L1, n, off, t, j), 0 <= off, 1 <= j, off + j < n, mdim(A, n, n), mdim(L, n, n), mdim(A1, n, n), mdim(L1, n, n), A@ == A3@.update(off, v), L@ == L3@.update(off, w), v@.len() == n, w@.len() == n,
    forall|k: int| 0 <= k < n ==> (#[trigger] v@[k]).v() == A3@[off]@[k].v() + t[j].v() * A3@[off + j]@[k].v(), forall|k: int| 0 <= k < n ==> (#[trigger] w@[k]).v() == L3@[off]@[k].v() + t[j].v() * L3@[off + j]@[k].v() ensures radd(A, L, A1, L1, n, off, t, j + 1)
{ mk_sqm(A, n); mk_sqm(L, n); rmix_add(A@, A3@, off, off + j, t[j].v(), v); rmix_add(L@, L3@, off, off + j, t[j].v(), w); let x = t[j].v(); assert(x * 0 == 0 && 1 * 1 - x * 0 == 1); rrel_mix(A3@, L3@, A@, L@, off, off + j, 1, x, 0, 1, off); rrel_trans(A1@, L1@, A3@, L3@, A@, L@, off);
  assert(A3@[off + j] == A1@[off + j]); let c = colv(A1@, off); assert(c[off + j] == A1@[off + j]@[off]); assert(tsum(t, c, off, 1, j + 1) == tsum(t, c, off, 1, j) + t[j].v() * c[off + j].v());
  assert forall|k: int| 0 <= k < n && k != off implies #[trigger] A@[k] == A1@[k] by { assert(A3@[k] == A1@[k]); } }
pub open spec fn rs2(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int, j: int) -> bool {
    &&& sq2(A, L, n) && rrel(A0@, L0@, A@, L@, off) && ment(A@, off, off) == g && alld(g, colv(A0@, off), off)
    &&& (forall|k: int| off < k < j ==> #[trigger] ment(A@, k, off) == 0) && forall|k: int| j <= k < n ==> dvd(g, #[trigger] ment(A@, k, off))
}
pub proof fn rs2_add(A: Mt, L: Mt, A1: Mt, L1: Mt, A0: Mt, L0: Mt, n: int, off: int, t: Seq<Z>, g: int) requires rs1(A1, L1, A0, L0, n, off), 0 <= off, off + 1 < n, radd(A, L, A1, L1, n, off, t, n - off), gst(t, colv(A1@, off), off, n - off, 1, g) ensures rs2(A, L, A0, L0, n, off, g, off + 1)
{ rrel_trans(A0@, L0@, A1@, L1@, A@, L@, off); let w = colv(A1@, off);
  assert forall|k: int| off + 1 <= k < n implies dvd(g, #[trigger] ment(A@, k, off)) by { assert(A@[k] == A1@[k]); assert(dvd(g, w[off + (k - off)].v())); }
  assert(alld(g, w, off + 1)) by { assert forall|k: int| off + 1 <= k < w.len() implies dvd(g, (#[trigger] w[k]).v()) by { assert(dvd(g, w[off + (k - off)].v())); } } }
pub proof fn rs2_step(A: Mt, L: Mt, A3: Mt, L3: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int, j: int, tmp: int, v: Vc<Z>, w: Vc<Z>) requires rs2(A3, L3, A0, L0, n, off, g, j), mdim(A, n, n), mdim(L, n, n), 0 <= off < j, j < n, A@ == A3@.update(j, v), L@ == L3@.update(j, w), v@.len() == n, w@.len() == n, tmp * g == ment(A3@, j, off),
    forall|k: int| 0 <= k < n ==> (#[trigger] v@[k]).v() == A3@[j]@[k].v() - tmp * A3@[off]@[k].v(), forall|k: int| 0 <= k < n ==> (#[trigger] w@[k]).v() == L3@[j]@[k].v() - tmp * L3@[off]@[k].v() ensures rs2(A, L, A0, L0, n, off, g, j + 1)
{ mk_sqm(A, n); mk_sqm(L, n); let x = -tmp;
  assert forall|k: int| 0 <= k < n implies (#[trigger] v@[k]).v() == A3@[j]@[k].v() + x * A3@[off]@[k].v() by { let u = A3@[off]@[k].v(); assert((-tmp) * u == -(tmp * u)) by(nonlinear_arith); }
  assert forall|k: int| 0 <= k < n implies (#[trigger] w@[k]).v() == L3@[j]@[k].v() + x * L3@[off]@[k].v() by { let u = L3@[off]@[k].v(); assert((-tmp) * u == -(tmp * u)) by(nonlinear_arith); }
  rmix_add(A@, A3@, j, off, x, v); rmix_add(L@, L3@, j, off, x, w); assert(x * 0 == 0 && 1 * 1 - x * 0 == 1); rrel_mix(A3@, L3@, A@, L@, j, off, 1, x, 0, 1, off); rrel_trans(A0@, L0@, A3@, L3@, A@, L@, off);
  assert(v@[off].v() == A3@[j]@[off].v() - tmp * A3@[off]@[off].v()); assert(ment(A@, j, off) == 0);
  assert forall|k: int| off < k < j + 1 implies #[trigger] ment(A@, k, off) == 0 by { if k < j { assert(ment(A3@, k, off) == 0); } }
  assert forall|k: int| j + 1 <= k < n implies dvd(g, #[trigger] ment(A@, k, off)) by { assert(dvd(g, ment(A3@, k, off))); } }
pub proof fn rs2_skip(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int, j: int) requires rs2(A, L, A0, L0, n, off, g, j), ment(A@, j, off) == 0, off < j < n ensures rs2(A, L, A0, L0, n, off, g, j + 1) {}
pub proof fn rs2_in(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int, j: int) requires rs2(A, L, A0, L0, n, off, g, j), off < j < n ensures dvd(g, ment(A@, j, off)) {}
pub proof fn rs1_in(A: Mt, R: Mt, A0: Mt, R0: Mt, n: int, off: int) requires rs1(A, R, A0, R0, n, off) ensures mdim(A, n, n), mdim(R, n, n) {}
pub proof fn rs2_fin(A: Mt, L: Mt, A0: Mt, L0: Mt, n: int, off: int, g: int) requires rs2(A, L, A0, L0, n, off, g, n), 0 <= off < n, zp(A0@, off), mdet(A0@) != 0, A0@.len() == n ensures zp(A@, off), czero(A@, off), ment(A@, off, off) != 0, mdet(A@) != 0, alld(ment(A@, off, off), colv(A0@, off), off), rrel(A0@, L0@, A@, L@, off), sq2(A, L, n)
{ assert forall|j: int| 0 <= j < n && j != off implies #[trigger] ment(A@, j, off) == 0 by { if j < off { reveal(zp); } } col_nz(A@, off); }
@fn eliminationCol(mat_ZZ &, mat_ZZ &, int) as sn_col static
@requires mdim(A, A@.len() as int, A@.len() as int), mdim(L, A@.len() as int, A@.len() as int), A@.len() <= i32::MAX, 0 <= offset, offset + 1 < A@.len(), zp(A@, offset as int), mdet(A@) != 0
@ensures A@.len() == A0@.len(), sq2(A, L, A0@.len() as int), rrel(A0@, L0@, A@, L@, offset as int), zp(A@, offset as int), mdet(A@) != 0, czero(A@, offset as int), ment(A@, offset as int, offset as int) != 0, alld(ment(A@, offset as int, offset as int), colv(A0@, offset as int), offset as int)
@at ghost entry
  let ghost n = A@.len() as int; let ghost off = offset as int; let ghost mut A1 = A; let ghost mut L1 = L;
@at entry
  mk_sqm(A0, n); mk_sqm(L0, n); if ment(A0@, off, off) == 0 { rs1_zero(A0, L0, n, off); }
@at after /tmp1 = mt_row\(\(\*A\), \(offset as i64\)\)/
  assert(L@ == L0@.update(off, L0@[off + 1]).update(off + 1, L0@[off]));
@at after /\*A = mt_setrow\(\(\*A\), ix__\d+, tmp1\)/
  rs1_swap(A, L, A0, L0, n, off);
@at after /zz_xgcd\(vget\(mt_row\(\(\*A\), \(offset as i64\)\), \(offset as i64\)\)/
  xgcd_nz(r.v(), ment(A0@, off, off), ment(A0@, off + 1, off));
@at after /y2 = zz_div/
  assert(xg(colv(A0@, off), off, r.v(), y1.v(), y2.v(), x1.v(), x2.v())) by { reveal(xg); }
@at after /\*L = mt_setrow\(\(\*L\), ix__\d+, tmp2\)/
  mk_lin(tmp1@, L0@[off]@, L0@[off + 1]@, y1.v(), y2.v()); mk_lin(tmp2@, L0@[off]@, L0@[off + 1]@, x1.v(), x2.v()); mk_rmix2(L@, L0@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v(), tmp1, tmp2);
@at after /\*A = mt_setrow\(\(\*A\), ix__\d+, tmp2\)/
  mk_lin(tmp1@, A0@[off]@, A0@[off + 1]@, y1.v(), y2.v()); mk_lin(tmp2@, A0@[off]@, A0@[off + 1]@, x1.v(), x2.v()); mk_rmix2(A@, A0@, off, off + 1, y1.v(), y2.v(), x1.v(), x2.v(), tmp1, tmp2);
  rs1_gcd(A, L, A0, L0, n, off, r.v(), y1.v(), y2.v(), x1.v(), x2.v());
@at after /t_Coeffs = ntl_setlength_z/
  rs1_in(A, L, A0, L0, n, off); A1 = A; L1 = L;
@at before 0
  gst_start(t_Coeffs@, colv(A1@, off), off, n - off);
@invariant 0
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 2 <= i <= n - off, A == A1, L == L1, rs1(A1, L1, A0, L0, n, off), mdim(A1, n, n), mdim(L1, n, n),
  gst(t_Coeffs@, colv(A1@, off), off, n - off, n - off - i + 1, g.v()), t_Coeffs@.len() == n - off
@loopdec 0 n - i
@at ghost begin 0
  let ghost told = t_Coeffs@; let ghost gold = g.v();
@invariant 1
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 2 <= i < n - off, A == A1, mdim(A1, n, n), told.len() == n - off, t_Coeffs@.len() == n - off, n - off - i + 1 <= j <= n - off,
  t_Coeffs@[n - off - i].v() == r.v(), forall|k: int| n - off - i + 1 <= k < j ==> (#[trigger] t_Coeffs@[k]).v() == told[k].v() * s.v(), forall|k: int| j <= k < n - off ==> #[trigger] t_Coeffs@[k] == told[k]
@loopdec 1 n - off - j
@at end 0
  assert forall|k: int| n - off - i + 1 <= k < n - off implies (#[trigger] t_Coeffs@[k]).v() == told[k].v() * s.v() by { if s.v() == 1 { let u = told[k].v(); assert(u * 1 == u); } }
    gst_step(told, t_Coeffs@, colv(A1@, off), off, n - off, n - off - i + 1, gold, g.v(), r.v(), s.v());
@at before 2
  radd_0(A, L, n, off, t_Coeffs@);
@invariant 2
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, 1 <= j_2 <= n - off, mdim(A, n, n), mdim(L, n, n), mdim(A1, n, n), mdim(L1, n, n), t_Coeffs@.len() == n - off, radd(A, L, A1, L1, n, off, t_Coeffs@, j_2 as int)
@loopdec 2 n - off - j_2
@at ghost begin 2
  let ghost A3 = A; let ghost L3 = L;
@at end 2
  radd_step(A, L, A3, L3, A1, L1, n, off, t_Coeffs@, j_2 as int, A@[off], L@[off]);
@at after 2
  rs2_add(A, L, A1, L1, A0, L0, n, off, t_Coeffs@, g.v());
@invariant 3
  n == A0@.len(), off == offset, n <= i32::MAX, 0 <= off, off + 1 < n, off < i_2 <= n, mdim(A, n, n), mdim(L, n, n), mdim(A0, n, n), rs2(A, L, A0, L0, n, off, g.v(), i_2 as int)
@loopdec 3 n - i_2
@at ghost begin 3
  let ghost A3 = A; let ghost L3 = L;
@at begin 3
  rs2_in(A, L, A0, L0, n, off, g.v(), i_2 as int); if ment(A@, i_2 as int, off) != 0 { xline(ment(A@, i_2 as int, off), g.v()); }
@at end 3
  if ment(A3@, i_2 as int, off) == 0 { rs2_skip(A, L, A0, L0, n, off, g.v(), i_2 as int); } else { rs2_step(A, L, A3, L3, A0, L0, n, off, g.v(), i_2 as int, s.v(), A@[i_2 as int], L@[i_2 as int]); }
@at after 3
  rs2_fin(A, L, A0, L0, n, off, g.v());
@end
