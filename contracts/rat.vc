// Rational numbers (mpq_class): exact arithmetic on reals; trusted contracts of the GMP operations
@rs
#[derive(Clone, Copy)]
pub struct Q { pub g: Ghost<real> }
impl Q { pub open spec fn v(self) -> real { self.g@ } }
pub fn q_zero() -> (r: Q) ensures r.v() == 0real { Q { g: Ghost(0real) } }
pub fn q_of_z(a: Z) -> (r: Q) ensures r.v() == a.v() as real { Q { g: Ghost(a.g@ as real) } }
pub fn q_add(a: Q, b: Q) -> (r: Q) ensures r.v() == a.v() + b.v() { Q { g: Ghost(a.g@ + b.g@) } }
pub fn q_sub(a: Q, b: Q) -> (r: Q) ensures r.v() == a.v() - b.v() { Q { g: Ghost(a.g@ - b.g@) } }
pub fn q_neg(a: Q) -> (r: Q) ensures r.v() == -a.v() { Q { g: Ghost(-a.g@) } }
pub fn q_mul(a: Q, b: Q) -> (r: Q) ensures r.v() == a.v() * b.v() { Q { g: Ghost(a.g@ * b.g@) } }
pub fn q_div(a: Q, b: Q) -> (r: Q) requires b.v() != 0real, ensures r.v() * b.v() == a.v(), r.v() == a.v() / b.v()
{ proof { let x = a.g@; let y = b.g@; assert((x / y) * y == x) by(nonlinear_arith) requires y != 0real; } Q { g: Ghost(a.g@ / b.g@) } }
#[verifier::external_body]
pub fn q_eq(a: Q, b: Q) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_ne(a: Q, b: Q) -> (r: bool) ensures r == (a.v() != b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_lt(a: Q, b: Q) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_le(a: Q, b: Q) -> (r: bool) ensures r == (a.v() <= b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_gt(a: Q, b: Q) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_ge(a: Q, b: Q) -> (r: bool) ensures r == (a.v() >= b.v()) { unimplemented!() }
// numerator and denominator of the canonical form
#[verifier::external_body]
pub fn q_den(a: Q) -> (r: Z) ensures r.v() >= 1, forall|n: int| #[trigger] rl(n) == a.v() ==> r.v() == 1 { unimplemented!() }
#[verifier::external_body]
pub fn q_num(a: Q) -> (r: Z) ensures forall|n: int| #[trigger] rl(n) == a.v() ==> r.v() == n { unimplemented!() }
#[verifier::external_body]
pub fn u64_min(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn u64_max(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
pub open spec fn rl(n: int) -> real { n as real }
pub open spec fn rv(a: Seq<Q>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i].v()) }
@end
