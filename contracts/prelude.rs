// Models of the value types the C++ code computes with, and trusted contracts of library operations.
#[derive(Clone, Copy)]
pub struct Z { pub g: Ghost<int> }
impl Z { pub open spec fn v(self) -> int { self.g@ } }
pub open spec fn mkz(i: int) -> Z { Z { g: Ghost(i) } }
pub struct Vc<T> { pub g: Ghost<Seq<T>> }
impl<T> Copy for Vc<T> {}
#[verifier::external]
impl<T> Clone for Vc<T> { fn clone(&self) -> Self { *self } }
impl<T> View for Vc<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }

// ---- a C string passed for a message only
#[derive(Clone, Copy)]
pub struct Str { }
pub fn mkstr() -> Str { Str { } }

// ---- exits
#[verifier::external_body]
pub fn cpp_abort(c: Ghost<bool>) requires c@, ensures false, no_unwind { unimplemented!() }
pub fn assert_ob(b: bool) requires b, ensures b { }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn havoc_i8() -> (r: i8) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_u8() -> (r: u8) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_i16() -> (r: i16) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_u16() -> (r: u16) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_i32() -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_i64() -> (r: i64) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_u32() -> (r: u32) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_u64() -> (r: u64) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_usize() -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn havoc_bool() -> (r: bool) { unimplemented!() }
pub fn b2i(b: bool) -> (r: i32) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }

// ---- integers (ZZ / mpz_class)
pub fn zi(i: i64) -> (r: Z) ensures r.v() == i { Z { g: Ghost(i as int) } }
pub fn zu(i: u64) -> (r: Z) ensures r.v() == i { Z { g: Ghost(i as int) } }
pub fn zz_add(a: Z, b: Z) -> (r: Z) ensures r.v() == a.v() + b.v() { Z { g: Ghost(a.g@ + b.g@) } }
pub fn zz_sub(a: Z, b: Z) -> (r: Z) ensures r.v() == a.v() - b.v() { Z { g: Ghost(a.g@ - b.g@) } }
pub fn zz_mul(a: Z, b: Z) -> (r: Z) ensures r.v() == a.v() * b.v(), b.v() == -1 ==> r.v() == -a.v(), a.v() == -1 ==> r.v() == -b.v(),
    b.v() == 1 ==> r.v() == a.v(), a.v() == 1 ==> r.v() == b.v(), b.v() == 0 ==> r.v() == 0, a.v() == 0 ==> r.v() == 0
{ proof { lemma_mul_small(a.v(), b.v()); } Z { g: Ghost(a.g@ * b.g@) } }
pub proof fn lemma_mul_small(x: int, y: int)
    ensures y == -1 ==> x * y == -x, x == -1 ==> x * y == -y, y == 1 ==> x * y == x, x == 1 ==> x * y == y, y == 0 ==> x * y == 0, x == 0 ==> x * y == 0
{
    if y == -1 { assert(x * y == -x) by(nonlinear_arith) requires y == -1; }
    if x == -1 { assert(x * y == -y) by(nonlinear_arith) requires x == -1; }
    if y == 1 { assert(x * y == x) by(nonlinear_arith) requires y == 1; }
    if x == 1 { assert(x * y == y) by(nonlinear_arith) requires x == 1; }
    if x == 0 || y == 0 { assert(x * y == 0) by(nonlinear_arith) requires x == 0 || y == 0; }
}
pub fn zz_neg(a: Z) -> (r: Z) ensures r.v() == -a.v() { Z { g: Ghost(-a.g@) } }
pub fn zz_abs(a: Z) -> (r: Z) ensures r.v() == zabs(a.v()) { Z { g: Ghost(zabs(a.g@)) } }
pub open spec fn zabs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn zsgn(a: int) -> int { if a < 0 { -1 } else if a == 0 { 0 } else { 1 } }
// floor division / remainder with the sign of the divisor (NTL)
pub open spec fn fdiv(a: int, b: int) -> int { if b > 0 { a / b } else { (-a) / (-b) } }
pub open spec fn frem(a: int, b: int) -> int { a - b * fdiv(a, b) }
// truncating division (C, GMP)
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub fn zz_div(a: Z, b: Z) -> (r: Z) requires b.v() != 0, ensures r.v() == fdiv(a.v(), b.v()) { Z { g: Ghost(fdiv(a.g@, b.g@)) } }
pub fn zz_rem(a: Z, b: Z) -> (r: Z) requires b.v() != 0, ensures r.v() == frem(a.v(), b.v()) { Z { g: Ghost(frem(a.g@, b.g@)) } }
pub fn mp_div(a: Z, b: Z) -> (r: Z) requires b.v() != 0, ensures r.v() == tdiv(a.v(), b.v()) { Z { g: Ghost(tdiv(a.g@, b.g@)) } }
pub fn mp_rem(a: Z, b: Z) -> (r: Z) requires b.v() != 0, ensures r.v() == trem(a.v(), b.v()) { Z { g: Ghost(trem(a.g@, b.g@)) } }
#[verifier::external_body]
pub fn zz_remi(a: Z, b: i64) -> (r: i64) requires b > 0, ensures r == a.v() % (b as int), 0 <= r < b { unimplemented!() }
#[verifier::external_body]
pub fn zz_eq(a: Z, b: Z) -> (r: bool) ensures r == (a.v() == b.v()), r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn zz_ne(a: Z, b: Z) -> (r: bool) ensures r == (a.v() != b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_lt(a: Z, b: Z) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_le(a: Z, b: Z) -> (r: bool) ensures r == (a.v() <= b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_gt(a: Z, b: Z) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_ge(a: Z, b: Z) -> (r: bool) ensures r == (a.v() >= b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_compare(a: Z, b: Z) -> (r: i64) ensures (r < 0) == (a.v() < b.v()), (r == 0) == (a.v() == b.v()), -1 <= r <= 1 { unimplemented!() }
pub fn zz_iszero(a: Z) -> (r: bool) ensures r == (a.v() == 0) { zz_eq(a, zi(0)) }
pub fn zz_isone(a: Z) -> (r: bool) ensures r == (a.v() == 1) { zz_eq(a, zi(1)) }
#[verifier::external_body]
pub fn zz_isodd(a: Z) -> (r: bool) ensures r == (a.v() % 2 != 0) { unimplemented!() }
#[verifier::external_body]
pub fn zz_sign(a: Z) -> (r: i64) ensures r == zsgn(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_sgn(a: Z) -> (r: i32) ensures r == zsgn(a.v()) { unimplemented!() }
// to_long / conv(long): the value when it fits, unspecified otherwise
#[verifier::external_body]
pub fn zz_to_long(a: Z) -> (r: i64) ensures i64::MIN <= a.v() <= i64::MAX ==> r == a.v() { unimplemented!() }
#[verifier::external_body]
pub fn zz_to_int(a: Z) -> (r: i32) ensures i32::MIN <= a.v() <= i32::MAX ==> r == a.v() { unimplemented!() }
pub open spec fn zpow(a: int, e: nat) -> int decreases e { if e == 0 { 1 } else { a * zpow(a, (e - 1) as nat) } }
pub fn zz_pow(a: Z, e: i64) -> (r: Z) requires e >= 0, ensures r.v() == zpow(a.v(), e as nat) { Z { g: Ghost(zpow(a.g@, e as nat)) } }
// trusted: the number of binary digits; functions that compute with it state how large it may get in terms of this bound
pub uninterp spec fn nb_limit() -> int;
#[verifier::external_body]
pub fn zz_numbits(a: Z) -> (r: i64) ensures 0 <= r < nb_limit(), zabs(a.v()) < zpow(2, r as nat), a.v() != 0 ==> r >= 1 && zpow(2, (r - 1) as nat) <= zabs(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_shl(a: Z, e: i64) -> (r: Z) ensures e >= 0 ==> r.v() == a.v() * zpow(2, e as nat) { unimplemented!() }
// divides, gcd (with Bezout witness)
pub open spec fn dvd(d: int, a: int) -> bool { exists|k: int| #[trigger] (d * k) == a }
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    &&& g >= 0
    &&& dvd(g, a)
    &&& dvd(g, b)
    &&& exists|s: int, t: int| #[trigger] (s * a) + #[trigger] (t * b) == g
}
// trusted: NTL's GCD returns a nonnegative common divisor that is an integer combination of its arguments
#[verifier::external_body]
pub fn zz_gcd(a: Z, b: Z) -> (r: Z) ensures is_gcd(r.v(), a.v(), b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_xgcd(a: Z, b: Z) -> (r: (Z, Z, Z)) ensures is_gcd(r.0.v(), a.v(), b.v()), r.1.v() * a.v() + r.2.v() * b.v() == r.0.v() { unimplemented!() }
#[verifier::external_body]
pub fn zz_divides(a: Z, b: Z) -> (r: bool) requires b.v() != 0, ensures r == (frem(a.v(), b.v()) == 0) { unimplemented!() }

// ---- machine integers: signed division truncates
#[verifier::external_body]
pub fn i32_div(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1), ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn i32_rem(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1), ensures r == trem(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn i64_div(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1), ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn i64_rem(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1), ensures r == trem(a as int, b as int) { unimplemented!() }
pub fn u64_div(a: u64, b: u64) -> (r: u64) requires b != 0, ensures r == a / b { a / b }
pub fn u64_rem(a: u64, b: u64) -> (r: u64) requires b != 0, ensures r == a % b { a % b }
pub fn u32_div(a: u32, b: u32) -> (r: u32) requires b != 0, ensures r == a / b { a / b }
pub fn u32_rem(a: u32, b: u32) -> (r: u32) requires b != 0, ensures r == a % b { a % b }
pub fn i32_abs(a: i32) -> (r: i32) requires a != i32::MIN, ensures r == zabs(a as int) { if a < 0 { -a } else { a } }
pub fn i64_abs(a: i64) -> (r: i64) requires a != i64::MIN, ensures r == zabs(a as int) { if a < 0 { -a } else { a } }
pub fn i32_max(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn i32_min(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// checked conversions (a value-changing conversion is a failed obligation)
pub fn ck_i64_i32(a: i64) -> (r: i32) requires i32::MIN <= a <= i32::MAX, ensures r == a { a as i32 }
pub fn ck_i64_u64(a: i64) -> (r: u64) requires 0 <= a, ensures r == a { a as u64 }
pub fn ck_i64_u32(a: i64) -> (r: u32) requires 0 <= a <= u32::MAX, ensures r == a { a as u32 }
pub fn ck_i32_u64(a: i32) -> (r: u64) requires 0 <= a, ensures r == a { a as u64 }
pub fn ck_i32_u32(a: i32) -> (r: u32) requires 0 <= a, ensures r == a { a as u32 }
pub fn ck_u64_i64(a: u64) -> (r: i64) requires a <= i64::MAX, ensures r == a { a as i64 }
pub fn ck_u64_i32(a: u64) -> (r: i32) requires a <= i32::MAX, ensures r == a { a as i32 }
pub fn ck_u64_u32(a: u64) -> (r: u32) requires a <= u32::MAX, ensures r == a { a as u32 }
pub fn ck_u32_i32(a: u32) -> (r: i32) requires a <= i32::MAX, ensures r == a { a as i32 }

// ---- vectors (NTL Vec<T>, std::vector<T>, owned arrays)
pub open spec fn VLIM() -> int { 0x7fff_ffff }
#[verifier::external_body]
pub fn vlen<T>(v: Vc<T>) -> (r: i64) ensures r == v@.len(), r >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn vsize<T>(v: Vc<T>) -> (r: u64) ensures r == v@.len(), r <= i64::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vget<T>(v: Vc<T>, i: i64) -> (r: T) requires 0 <= i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vset<T>(v: Vc<T>, i: i64, x: T) -> (r: Vc<T>) requires 0 <= i < v@.len(), ensures r@ == v@.update(i as int, x) { unimplemented!() }
#[verifier::external_body]
pub fn vnew<T>() -> (r: Vc<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vpush<T>(v: Vc<T>, x: T) -> (r: Vc<T>) ensures r@ == v@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn vpop<T>(v: Vc<T>) -> (r: Vc<T>) requires v@.len() > 0, ensures r@ == v@.drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn vfill<T>(n: u64, x: T) -> (r: Vc<T>) ensures r@ == Seq::new(n as nat, |i: int| x), n <= i64::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vzero_i32(v: Vc<i32>, a: i64, n: i64) -> (r: Vc<i32>) requires 0 <= a, 0 <= n, a + n <= v@.len(), ensures r@ == Seq::new(v@.len(), |i: int| if a <= i < a + n { 0i32 } else { v@[i] }) { unimplemented!() }
#[verifier::external_body]
pub fn vhavoc<T>(n: u64) -> (r: Vc<T>) ensures r@.len() == n, n <= i64::MAX { unimplemented!() }
// SetLength keeps the common prefix; further entries are unspecified (NTL may expose old contents)
#[verifier::external_body]
pub fn ntl_setlength<T>(v: Vc<T>, n: i64) -> (r: Vc<T>) requires n >= 0, ensures r@.len() == n, forall|i: int| 0 <= i < n && i < v@.len() ==> r@[i] == v@[i] { unimplemented!() }
// growing a never-filled vector yields zeros
#[verifier::external_body]
pub fn ntl_setlength_z(v: Vc<Z>, n: i64) -> (r: Vc<Z>) requires n >= 0, ensures r@.len() == n, forall|i: int| 0 <= i < n && i < v@.len() ==> r@[i] == v@[i], v@.len() == 0 ==> forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == mkz(0) { unimplemented!() }
#[verifier::external_body]
pub fn std_resize<T>(v: Vc<T>, n: u64, x: T) -> (r: Vc<T>) ensures n <= i64::MAX, r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == (if i < v@.len() { v@[i] } else { x }) { unimplemented!() }
pub open spec fn dot(a: Seq<Z>, b: Seq<Z>, n: nat) -> int decreases n { if n == 0 { 0 } else { dot(a, b, (n - 1) as nat) + a[n - 1].v() * b[n - 1].v() } }
pub fn vz_add(a: Vc<Z>, b: Vc<Z>) -> (r: Vc<Z>) requires a@.len() == b@.len(), ensures r@ == Seq::new(a@.len(), |i: int| mkz(a@[i].v() + b@[i].v())) { Vc { g: Ghost(Seq::new(a@.len(), |i: int| mkz(a@[i].v() + b@[i].v()))) } }
pub fn vz_sub(a: Vc<Z>, b: Vc<Z>) -> (r: Vc<Z>) requires a@.len() == b@.len(), ensures r@ == Seq::new(a@.len(), |i: int| mkz(a@[i].v() - b@[i].v())) { Vc { g: Ghost(Seq::new(a@.len(), |i: int| mkz(a@[i].v() - b@[i].v()))) } }
pub fn vz_neg(a: Vc<Z>) -> (r: Vc<Z>) ensures r@ == Seq::new(a@.len(), |i: int| mkz(-a@[i].v())) { Vc { g: Ghost(Seq::new(a@.len(), |i: int| mkz(-a@[i].v()))) } }
pub fn vz_scale(c: Z, a: Vc<Z>) -> (r: Vc<Z>) ensures r@ == Seq::new(a@.len(), |i: int| mkz(c.v() * a@[i].v())) { Vc { g: Ghost(Seq::new(a@.len(), |i: int| mkz(c.v() * a@[i].v()))) } }
pub fn vz_dot(a: Vc<Z>, b: Vc<Z>) -> (r: Z) requires a@.len() == b@.len(), ensures r.v() == dot(a@, b@, a@.len()) { Z { g: Ghost(dot(a@, b@, a@.len())) } }
pub fn vz_zero(n: i64) -> (r: Vc<Z>) requires n >= 0, ensures r@ == Seq::new(n as nat, |i: int| mkz(0)) { Vc { g: Ghost(Seq::new(n as nat, |i: int| mkz(0))) } }
#[verifier::external_body]
pub fn vz_eq(a: Vc<Z>, b: Vc<Z>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vz_ne(a: Vc<Z>, b: Vc<Z>) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body]
pub fn vz_iszero(a: Vc<Z>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < a@.len() ==> a@[i].v() == 0) { unimplemented!() }

// ---- ring axioms used by generated polynomial-identity lemmas (each proved here)
pub proof fn ring_dl(x: int, y: int, z: int) ensures (x + y) * z == x * z + y * z { assert((x + y) * z == x * z + y * z) by(nonlinear_arith); }
pub proof fn ring_dr(x: int, y: int, z: int) ensures x * (y + z) == x * y + x * z { assert(x * (y + z) == x * y + x * z) by(nonlinear_arith); }
pub proof fn ring_as(x: int, y: int, z: int) ensures x * (y * z) == (x * y) * z { assert(x * (y * z) == (x * y) * z) by(nonlinear_arith); }
pub proof fn ring_cm(x: int, y: int) ensures x * y == y * x { assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn ring_sw(x: int, y: int, z: int) ensures (x * y) * z == (x * z) * y { assert((x * y) * z == (x * z) * y) by(nonlinear_arith); }
pub proof fn ring_cc(c: int, x: int, d: int, y: int) ensures (c * x) * (d * y) == (c * d) * (x * y) {
    ring_as(c * x, d, y); ring_sw(c, x, d); ring_as(c * d, x, y); }
pub proof fn ring_zero(x: int, y: int) ensures y == 0 ==> x * y == 0 { if y == 0 { assert(x * y == 0) by(nonlinear_arith) requires y == 0; } }
pub proof fn ring_cancel(k: int, x: int, y: int) requires k != 0, k * x == k * y ensures x == y { assert(x == y) by(nonlinear_arith) requires k != 0, k * x == k * y; }

// ---- integer matrices (NTL Mat<ZZ>): a sequence of rows of one common length
#[derive(Clone, Copy)]
pub struct Mt { pub g: Ghost<Seq<Vc<Z>>>, pub c: Ghost<nat> }
impl View for Mt { type V = Seq<Vc<Z>>; open spec fn view(&self) -> Seq<Vc<Z>> { self.g@ } }
pub open spec fn mwf(m: Mt) -> bool { forall|i: int| 0 <= i < m@.len() ==> (#[trigger] m@[i])@.len() == m.c@ }
pub open spec fn mdim(m: Mt, r: int, c: int) -> bool { mwf(m) && m@.len() == r && m.c@ == c }
pub open spec fn ment(m: Seq<Vc<Z>>, i: int, j: int) -> int { m[i]@[j].v() }
pub open spec fn mtr(m: Seq<Vc<Z>>, r: nat, c: nat) -> Seq<Vc<Z>> { Seq::new(c, |i: int| Vc { g: Ghost(Seq::new(r, |j: int| m[j]@[i])) }) }
pub open spec fn unitm(m: Seq<Vc<Z>>, x: Seq<Vc<Z>>, n: nat, d: int) -> bool {
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] dotcol(m[i]@, x, j, n) == (if i == j { d } else { 0 })
}
// sum over k < n of a[k] * x[k][j]
pub open spec fn dotcol(a: Seq<Z>, x: Seq<Vc<Z>>, j: int, n: nat) -> int decreases n { if n == 0 { 0 } else { dotcol(a, x, j, (n - 1) as nat) + a[n - 1].v() * x[n - 1]@[j].v() } }
// determinant: expansion along the first row
pub open spec fn minor(m: Seq<Vc<Z>>, j: int) -> Seq<Vc<Z>> { Seq::new((m.len() - 1) as nat, |i: int| Vc { g: Ghost(m[i + 1]@.remove(j)) }) }
pub open spec fn sg(j: int) -> int { if j % 2 == 0 { 1 } else { -1 } }
pub open spec fn mdet(m: Seq<Vc<Z>>) -> int decreases m.len(), 1nat, 0nat { if m.len() == 0 { 1 } else { lapl(m, m.len()) } }
pub open spec fn lapl(m: Seq<Vc<Z>>, j: nat) -> int decreases m.len(), 0nat, j when m.len() > 0 { if j == 0 { 0 } else { lapl(m, (j - 1) as nat) + sg(j - 1) * (m[0]@[j - 1].v() * mdet(minor(m, j - 1))) } }
#[verifier::external_body]
pub fn mt_new() -> (r: Mt) ensures r@ == Seq::<Vc<Z>>::empty(), r.c@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn mt_rows(m: Mt) -> (r: i64) ensures r == m@.len() { unimplemented!() }
#[verifier::external_body]
pub fn mt_cols(m: Mt) -> (r: i64) ensures r == m.c@ { unimplemented!() }
#[verifier::external_body]
pub fn mt_row(m: Mt, i: i64) -> (r: Vc<Z>) requires 0 <= i < m@.len(), ensures r == m@[i as int] { unimplemented!() }
// the rows of a matrix have a fixed length
#[verifier::external_body]
pub fn mt_setrow(m: Mt, i: i64, x: Vc<Z>) -> (r: Mt) requires 0 <= i < m@.len(), x@.len() == m.c@, ensures r@ == m@.update(i as int, x), r.c == m.c { unimplemented!() }
// SetDims on an empty matrix yields zeros; otherwise contents are unspecified
#[verifier::external_body]
pub fn mt_setdims(m: Mt, n: i64, k: i64) -> (r: Mt) requires n >= 0, k >= 0, ensures mdim(r, n as int, k as int), m@.len() == 0 ==> forall|i: int, j: int| 0 <= i < n && 0 <= j < k ==> #[trigger] r@[i]@[j] == mkz(0) { unimplemented!() }
#[verifier::external_body]
pub fn mt_transpose(m: Mt) -> (r: Mt) requires mwf(m), ensures mdim(r, m.c@ as int, m@.len() as int), r@ == mtr(m@, m@.len(), m.c@) { unimplemented!() }
#[verifier::external_body]
pub fn mt_mulv(m: Mt, v: Vc<Z>) -> (r: Vc<Z>) requires mwf(m), v@.len() == m.c@, ensures r@.len() == m@.len(), forall|i: int| 0 <= i < m@.len() ==> (#[trigger] r@[i]).v() == dot(m@[i]@, v@, m.c@) { unimplemented!() }
#[verifier::external_body]
pub fn mt_mul(a: Mt, b: Mt) -> (r: Mt) requires mwf(a), mwf(b), a.c@ == b@.len(), ensures mdim(r, a@.len() as int, b.c@ as int), forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < b.c@ ==> #[trigger] ment(r@, i, j) == dotcol(a@[i]@, b@, j, b@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn mt_ident(n: i64) -> (r: Mt) requires n >= 0, ensures mdim(r, n as int, n as int), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ment(r@, i, j) == (if i == j { 1int } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn mt_scale(c: Z, m: Mt) -> (r: Mt) requires mwf(m), ensures mdim(r, m@.len() as int, m.c@ as int), forall|i: int, j: int| 0 <= i < m@.len() && 0 <= j < m.c@ ==> #[trigger] ment(r@, i, j) == c.v() * m@[i]@[j].v() { unimplemented!() }
#[verifier::external_body]
pub fn mt_neg(m: Mt) -> (r: Mt) requires mwf(m), ensures mdim(r, m@.len() as int, m.c@ as int), forall|i: int, j: int| 0 <= i < m@.len() && 0 <= j < m.c@ ==> #[trigger] r@[i]@[j] == mkz(-m@[i]@[j].v()) { unimplemented!() }
#[verifier::external_body]
pub fn mt_det(m: Mt) -> (r: Z) requires mdim(m, m@.len() as int, m@.len() as int), ensures r.v() == mdet(m@) { unimplemented!() }
// NTL inv(d, X, A): d = det A; when d != 0, X*A = A*X = d*I
#[verifier::external_body]
pub fn mt_inv(a: Mt, x: Mt) -> (r: (Z, Mt)) requires mdim(a, a@.len() as int, a@.len() as int), 
    ensures r.0.v() == mdet(a@), r.0.v() != 0 ==> mdim(r.1, a@.len() as int, a@.len() as int) && unitm(a@, r.1@, a@.len(), r.0.v()) && unitm(r.1@, a@, a@.len(), r.0.v()) { unimplemented!() }
// NTL image(d, B, U): U is unimodular with rows*old B = new B, whose leading zero rows witness dependence of the rows
#[verifier::external_body]
pub fn mt_image(b: Mt) -> (r: (Z, Mt, Mt)) requires mwf(b), 
    ensures mdim(r.1, b@.len() as int, b.c@ as int), mdim(r.2, b@.len() as int, b@.len() as int),
        b@.len() > b.c@ ==> (exists|i: int| 0 <= i < b@.len() && #[trigger] ment(r.2@, 0, i) != 0) && forall|j: int| 0 <= j < b.c@ ==> #[trigger] dotcol(r.2@[0]@, b@, j, b@.len()) == 0 { unimplemented!() }
// multiplying one row multiplies the determinant
pub open spec fn rowscaled(m: Seq<Vc<Z>>, m2: Seq<Vc<Z>>, i: int, g: int) -> bool {
    &&& m.len() == m2.len()
    &&& forall|r: int| 0 <= r < m.len() ==> (#[trigger] m[r])@.len() == m.len() && m2[r]@.len() == m.len()
    &&& forall|r: int| 0 <= r < m.len() && r != i ==> #[trigger] m[r] == m2[r]
    &&& forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[i]@[k]).v() == g * m2[i]@[k].v()
}
pub proof fn det_scale(m: Seq<Vc<Z>>, m2: Seq<Vc<Z>>, i: int, g: int)
    requires rowscaled(m, m2, i, g), 0 <= i < m.len() ensures mdet(m) == g * mdet(m2) decreases m.len(), 1nat, 0nat
{ lapl_scale(m, m2, i, g, m.len()); }
pub proof fn lapl_scale(m: Seq<Vc<Z>>, m2: Seq<Vc<Z>>, i: int, g: int, j: nat)
    requires rowscaled(m, m2, i, g), 0 <= i < m.len(), j <= m.len() ensures lapl(m, j) == g * lapl(m2, j) decreases m.len(), 0nat, j
{
    if j == 0 { assert(g * 0 == 0); } else {
        lapl_scale(m, m2, i, g, (j - 1) as nat);
        let k = j - 1; let a = m[0]@[k].v(); let a2 = m2[0]@[k].v(); let d = mdet(minor(m, k)); let d2 = mdet(minor(m2, k)); let s = sg(k); let l = lapl(m2, (j - 1) as nat);
        if i == 0 {
            assert(minor(m, k) =~= minor(m2, k)) by { assert forall|r: int| 0 <= r < m.len() - 1 implies minor(m, k)[r] == minor(m2, k)[r] by { assert(m[r + 1] == m2[r + 1]); } }
            assert(a == g * a2);
            assert(g * l + s * ((g * a2) * d) == g * (l + s * (a2 * d))) by(nonlinear_arith);
        } else {
            assert(m[0] == m2[0]);
            assert(rowscaled(minor(m, k), minor(m2, k), i - 1, g)) by {
                let n = minor(m, k); let n2 = minor(m2, k);
                assert forall|r: int| 0 <= r < n.len() implies (#[trigger] n[r])@.len() == n.len() && n2[r]@.len() == n.len() by { assert(m[r + 1]@.len() == m.len()); }
                assert forall|r: int| 0 <= r < n.len() && r != i - 1 implies #[trigger] n[r] == n2[r] by { assert(m[r + 1] == m2[r + 1]); }
                assert forall|c: int| 0 <= c < n.len() implies (#[trigger] n[i - 1]@[c]).v() == g * n2[i - 1]@[c].v() by { let c2 = if c < k { c } else { c + 1 }; assert(m[i]@.len() == m.len()); assert(n[i - 1]@[c] == m[i]@[c2]); assert(n2[i - 1]@[c] == m2[i]@[c2]); }
            }
            det_scale(minor(m, k), minor(m2, k), i - 1, g);
            assert(g * l + s * (a * (g * d2)) == g * (l + s * (a * d2))) by(nonlinear_arith);
        }
    }
}
