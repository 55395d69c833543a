// Enumeration of the integer vectors between zero and an upper bound: IntCombEnum.cpp
@source genFunction/IntCombEnum.cpp
@struct IntCombEnum from genFunction/IntCombEnum.cpp
@inline IntCombEnum::set_zero
@rs
// number of vectors below the bound, and the position of one in lexicographic order
pub open spec fn vol(u: Seq<i32>, n: nat) -> int decreases n { if n == 0 { 1 } else { vol(u, (n - 1) as nat) * (u[n - 1] + 1) } }
pub open spec fn rnk(m: Seq<i32>, u: Seq<i32>, n: nat) -> int decreases n { if n == 0 { 0 } else { rnk(m, u, (n - 1) as nat) * (u[n - 1] + 1) + m[n - 1] } }
pub open spec fn below(m: Seq<i32>, u: Seq<i32>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> 0 <= #[trigger] m[i] && m[i] <= u[i] }
pub open spec fn ge0(u: Seq<i32>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> 0 <= #[trigger] u[i] }
// the lexicographic successor: entry k grows, the entries behind it return from the bound to zero
pub open spec fn succ(m: Seq<i32>, p: Seq<i32>, u: Seq<i32>, k: int, n: nat) -> bool {
    &&& 0 <= k < n &&& p[k] == m[k] + 1
    &&& forall|j: int| 0 <= j < k ==> #[trigger] p[j] == m[j]
    &&& forall|j: int| k < j < n ==> #[trigger] p[j] == 0
    &&& forall|j: int| k < j < n ==> #[trigger] m[j] == u[j]
}
pub proof fn rnk_ext(m: Seq<i32>, p: Seq<i32>, u: Seq<i32>, n: nat) requires forall|j: int| 0 <= j < n ==> #[trigger] p[j] == m[j] ensures rnk(m, u, n) == rnk(p, u, n) decreases n
{ if n > 0 { rnk_ext(m, p, u, (n - 1) as nat); assert(p[n - 1] == m[n - 1]); } }
pub proof fn rnk_succ(m: Seq<i32>, p: Seq<i32>, u: Seq<i32>, k: int, n: nat) requires succ(m, p, u, k, n) ensures rnk(p, u, n) == rnk(m, u, n) + 1 decreases n
{ if k == n - 1 { rnk_ext(m, p, u, (n - 1) as nat); } else { rnk_succ(m, p, u, k, (n - 1) as nat); assert(p[n - 1] == 0 && m[n - 1] == u[n - 1]);
  let r = rnk(m, u, (n - 1) as nat); let q = u[n - 1] + 1; assert((r + 1) * q == r * q + q) by(nonlinear_arith); } }
pub proof fn rnk_bound(m: Seq<i32>, u: Seq<i32>, n: nat) requires below(m, u, n) ensures 0 <= rnk(m, u, n) < vol(u, n) decreases n
{ if n > 0 { rnk_bound(m, u, (n - 1) as nat); let r = rnk(m, u, (n - 1) as nat); let v = vol(u, (n - 1) as nat); let q = u[n - 1] + 1; let x = m[n - 1] as int; assert(0 <= m[n - 1] && m[n - 1] <= u[n - 1]);
  assert(0 <= r * q && r * q + x < v * q) by(nonlinear_arith) requires 0 <= r <= v - 1, 0 <= x < q; } }
pub proof fn rnk_top(m: Seq<i32>, u: Seq<i32>, n: nat) requires forall|j: int| 0 <= j < n ==> #[trigger] m[j] == u[j] ensures rnk(m, u, n) == vol(u, n) - 1 decreases n
{ if n > 0 { rnk_top(m, u, (n - 1) as nat); assert(m[n - 1] == u[n - 1]); let v = vol(u, (n - 1) as nat); let q = u[n - 1] + 1; assert((v - 1) * q == v * q - q) by(nonlinear_arith); } }
pub proof fn rnk_zero(m: Seq<i32>, u: Seq<i32>, n: nat) requires forall|j: int| 0 <= j < n ==> #[trigger] m[j] == 0 ensures rnk(m, u, n) == 0 decreases n
{ if n > 0 { rnk_zero(m, u, (n - 1) as nat); assert(m[n - 1] == 0); let q = u[n - 1] + 1; assert(0 * q == 0); } }
pub proof fn vol_pos(u: Seq<i32>, n: nat) requires ge0(u, n) ensures vol(u, n) >= 1 decreases n
{ if n > 0 { vol_pos(u, (n - 1) as nat); let v = vol(u, (n - 1) as nat); assert(u[n - 1] >= 0); let q = u[n - 1] + 1; assert(v * q >= 1) by(nonlinear_arith) requires v >= 1, q >= 1; } }
pub proof fn divmod_unique(r: int, s: int, x: int, y: int, q: int) requires 0 <= x < q, 0 <= y < q, r * q + x == s * q + y ensures r == s, x == y
{ if r < s { assert(r * q + x < s * q + y) by(nonlinear_arith) requires r + 1 <= s, 0 <= x < q, 0 <= y; } if s < r { assert(s * q + y < r * q + x) by(nonlinear_arith) requires s + 1 <= r, 0 <= y < q, 0 <= x; } }
pub proof fn rnk_inj(m: Seq<i32>, p: Seq<i32>, u: Seq<i32>, n: nat, i: int) requires below(m, u, n), below(p, u, n), rnk(m, u, n) == rnk(p, u, n), 0 <= i < n ensures m[i] == p[i] decreases n
{ assert(0 <= m[n - 1] && m[n - 1] <= u[n - 1]); assert(0 <= p[n - 1] && p[n - 1] <= u[n - 1]);
  divmod_unique(rnk(m, u, (n - 1) as nat), rnk(p, u, (n - 1) as nat), m[n - 1] as int, p[n - 1] as int, u[n - 1] + 1); if i < n - 1 { rnk_inj(m, p, u, (n - 1) as nat, i); } }
pub open spec fn ce_wf(c: IntCombEnum) -> bool {
    &&& c.len >= 1 &&& c.prev@.len() == c.len &&& c.next@.len() == c.len &&& c.upper_bound@.len() == c.len
    &&& below(c.prev@, c.upper_bound@, c.len as nat)
    &&& c.cur_col == -1 || c.cur_col == c.len - 1
    &&& c.cur_col == -1 ==> forall|j: int| 0 <= j < c.len ==> #[trigger] c.prev@[j] == 0
}
// how many vectors have been handed out
pub open spec fn cnt(c: IntCombEnum) -> int { if c.cur_col < 0 { vol(c.upper_bound@, c.len as nat) } else { rnk(c.prev@, c.upper_bound@, c.len as nat) } }
pub open spec fn ce_same(c: IntCombEnum, d: IntCombEnum) -> bool { c.len == d.len && c.upper_bound == d.upper_bound }
@fn IntCombEnum::IntCombEnum(int *, int) as ce_new
@requires l >= 1, u@.len() == l, forall|i: int| 0 <= i < l ==> 0 <= #[trigger] u@[i]
@ensures u == u0, ce_wf(ret), ret.upper_bound == u, ret.len == l, cnt(ret) == 0, ret.cur_col == l - 1, forall|j: int| 0 <= j < l ==> #[trigger] ret.prev@[j] == 0
@at exit
  rnk_zero(this.prev@, u@, l as nat);
@fn IntCombEnum::is_last() as ce_last
@requires ce_wf(this)
@ensures this == this0, ret != 0 <==> this.cur_col == -1
@invariant 0
  0 <= i <= this.len, this == this0, is_zero != 0 <==> forall|j: int| 0 <= j < i ==> #[trigger] this.prev@[j] == 0
@loopdec 0 this.len - i
@at before /return 0i32/
  assert(this.cur_col != -1);
@fn IntCombEnum::copy_comb(int *, int *) as ce_copy onlyalias
@requires this.len >= 0, dest@.len() == this.len, src@.len() == this.len
@ensures dest@ == src0@, src@ == src0@, this.len == this0.len, this.cur_col == this0.cur_col, this.upper_bound == this0.upper_bound
@invariant 0
  0 <= i <= this.len, this.len == this0.len, this.cur_col == this0.cur_col, this.upper_bound == this0.upper_bound, src@ == src0@, dest@.len() == this.len, forall|j: int| 0 <= j < i ==> #[trigger] dest@[j] == src0@[j]
@loopdec 0 this.len - i
@at after 0
  assert(dest@ =~= src0@);
@alias ce_copy_np dest=this.next src=this.prev
@alias ce_copy_pn dest=this.prev src=this.next
@fn IntCombEnum::getNext() as ce_next
@requires ce_wf(this)
@ensures ce_wf(this), ce_same(this, this0)
@ensures cnt(this0) == vol(this0.upper_bound@, this0.len as nat) ==> ret@.len() == 0 && this == this0
@ensures cnt(this0) != vol(this0.upper_bound@, this0.len as nat) ==> ret@.len() == this0.len && cnt(this) == cnt(this0) + 1 && below(ret@, this0.upper_bound@, this0.len as nat) && rnk(ret@, this0.upper_bound@, this0.len as nat) == (if cnt(this) == vol(this0.upper_bound@, this0.len as nat) { 0 } else { cnt(this) })
@at ghost entry
  let ghost c0 = this; let ghost nn = this.len as nat; let ghost pv = this.prev@; let ghost up = this.upper_bound@;
  proof { rnk_bound(pv, up, nn); }
@invariant 0
  this == (IntCombEnum { next: this.next, cur_col: this.cur_col, ..c0 }), this.next@.len() == nn, -1 <= this.cur_col < nn,
  forall|j: int| 0 <= j <= this.cur_col ==> #[trigger] this.next@[j] == pv[j], forall|j: int| this.cur_col < j < nn ==> #[trigger] this.next@[j] == 0, forall|j: int| this.cur_col <= j < nn && j >= 0 ==> #[trigger] pv[j] == up[j]
@loopdec 0 this.cur_col + 1
@loopens 0 this == (IntCombEnum { next: this.next, cur_col: this.cur_col, ..c0 }), this.next@.len() == nn, this.cur_col == -1 || (this.cur_col == nn - 1 && exists|k: int| #[trigger] succ(pv, this.next@, up, k, nn)), this.cur_col == -1 ==> (forall|j: int| 0 <= j < nn ==> #[trigger] this.next@[j] == 0) && (forall|j: int| 0 <= j < nn ==> #[trigger] pv[j] == up[j])
@at end 0
  if this.cur_col >= 0 { assert(pv[this.cur_col as int] == up[this.cur_col as int]); }
@at before /this.cur_col = \(this.len - 1/
  assert(succ(pv, this.next@, up, this.cur_col as int, nn));
@at before /return this.next/
  assert(this.prev@ =~= this.next@); if this.cur_col >= 0 { assert(exists|k: int| #[trigger] succ(pv, this.next@, up, k, nn)) by { if pv[nn - 1] != up[nn - 1] { assert(succ(pv, this.next@, up, nn - 1, nn)); } }
    let k = choose|k: int| #[trigger] succ(pv, this.next@, up, k, nn); rnk_succ(pv, this.next@, up, k, nn);
    assert(below(this.next@, up, nn)) by { assert forall|j: int| 0 <= j < nn implies 0 <= #[trigger] this.next@[j] && this.next@[j] <= up[j] by { assert(0 <= pv[j] && pv[j] <= up[j]); } } rnk_bound(this.next@, up, nn); }
  else { rnk_zero(this.next@, up, nn); rnk_top(pv, up, nn); assert(below(this.next@, up, nn)) by { assert forall|j: int| 0 <= j < nn implies 0 <= #[trigger] this.next@[j] && this.next@[j] <= up[j] by { assert(0 <= pv[j] && pv[j] <= up[j]); } } }
@fn IntCombEnum::decrementUpperBound() as ce_dec
@requires this.len >= 0, this.upper_bound@.len() == this.len, forall|i: int| 0 <= i < this.len ==> 1 <= #[trigger] this.upper_bound@[i]
@ensures this == (IntCombEnum { upper_bound: this.upper_bound, ..(this0) }), this.upper_bound@ == Seq::new(this0.len as nat, |i: int| (this0.upper_bound@[i] - 1) as i32)
@invariant 0
  0 <= i <= this.len, this == (IntCombEnum { upper_bound: this.upper_bound, ..(this0) }), this.upper_bound@.len() == this.len, forall|j: int| 0 <= j < i ==> #[trigger] this.upper_bound@[j] == (this0.upper_bound@[j] - 1) as i32, forall|j: int| i <= j < this.len ==> #[trigger] this.upper_bound@[j] == this0.upper_bound@[j]
@loopdec 0 this.len - i
@at after 0
  assert(this.upper_bound@ =~= Seq::new(this0.len as nat, |i: int| (this0.upper_bound@[i] - 1) as i32));
@end
