@source rational.cpp
@struct RationalNTL
@struct vec_RationalNTL
@rs
pub open spec fn coprime(a: int, b: int) -> bool { exists|s: int, t: int| #[trigger] (s * a) + #[trigger] (t * b) == 1 }
pub open spec fn canon(r: RationalNTL) -> bool { r.denominator.v() > 0 && coprime(r.numerator.v(), r.denominator.v()) }
// r is the canonical representation of n/d
pub open spec fn is_rat(r: RationalNTL, n: int, d: int) -> bool {
    canon(r) && r.numerator.v() * d == n * r.denominator.v()
}
pub open spec fn nn(r: RationalNTL) -> int { r.numerator.v() }
pub open spec fn dd(r: RationalNTL) -> int { r.denominator.v() }

pub proof fn lemma_reduce(n: int, d: int, g: int)
    requires is_gcd(g, n, d), d > 0
    ensures g > 0, fdiv(n, g) * g == n, fdiv(d, g) * g == d, fdiv(d, g) > 0, coprime(fdiv(n, g), fdiv(d, g)),
        fdiv(n, g) * d == n * fdiv(d, g)
{
    let k = choose|k: int| #[trigger] (g * k) == n;
    let l = choose|l: int| #[trigger] (g * l) == d;
    let (s, t) = choose|s: int, t: int| #[trigger] (s * n) + #[trigger] (t * d) == g;
    assert(g > 0) by(nonlinear_arith) requires g >= 0, g * l == d, d > 0;
    assert(n / g == k) by(nonlinear_arith) requires g * k == n, g > 0;
    assert(d / g == l) by(nonlinear_arith) requires g * l == d, g > 0;
    assert(l > 0) by(nonlinear_arith) requires g * l == d, g > 0, d > 0;
    assert(s * k + t * l == 1) by(nonlinear_arith) requires s * n + t * d == g, g * k == n, g * l == d, g > 0;
    assert(k * g == n && l * g == d) by(nonlinear_arith) requires g * k == n, g * l == d;
    assert(k * d == n * l) by(nonlinear_arith) requires g * k == n, g * l == d;
}
// uniqueness of the canonical representation (Gauss)
pub proof fn lemma_unique(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, coprime(n1, d1), coprime(n2, d2), n1 * d2 == n2 * d1
    ensures n1 == n2, d1 == d2
{
    let (s, t) = choose|s: int, t: int| #[trigger] (s * n1) + #[trigger] (t * d1) == 1;
    let (u, w) = choose|u: int, w: int| #[trigger] (u * n2) + #[trigger] (w * d2) == 1;
    // d2 = d2*(s n1 + t d1) = d1 (s n2 + t d2);  d1 = d2 (u n1 + w d1)
    let a = s * n2 + t * d2;
    let b = u * n1 + w * d1;
    assert(d2 == d1 * a) by(nonlinear_arith) requires s * n1 + t * d1 == 1, n1 * d2 == n2 * d1, a == s * n2 + t * d2;
    assert(d1 == d2 * b) by(nonlinear_arith) requires u * n2 + w * d2 == 1, n1 * d2 == n2 * d1, b == u * n1 + w * d1;
    assert(a > 0) by(nonlinear_arith) requires d2 == d1 * a, d1 > 0, d2 > 0;
    assert(b > 0) by(nonlinear_arith) requires d1 == d2 * b, d1 > 0, d2 > 0;
    assert(d1 <= d2) by(nonlinear_arith) requires d2 == d1 * a, a > 0, d1 > 0;
    assert(d2 <= d1) by(nonlinear_arith) requires d1 == d2 * b, b > 0, d2 > 0;
    assert(n1 == n2) by(nonlinear_arith) requires n1 * d2 == n2 * d1, d1 == d2, d1 > 0;
}
pub proof fn lemma_coprime_one(n: int, d: int)
    ensures d == 1 ==> coprime(n, d)
{
    if d == 1 { assert(0 * n + 1 * d == 1); }
}
pub proof fn lemma_sign(n: int, d: int, g: int)
    requires coprime(n, d)
    ensures coprime(-n, d)
{
    let (s, t) = choose|s: int, t: int| #[trigger] (s * n) + #[trigger] (t * d) == 1;
    assert((-s) * (-n) + t * d == 1) by(nonlinear_arith) requires s * n + t * d == 1;
}

pub proof fn lemma_neg_cross(n: int, d: int) ensures (-n) * d == n * (-d) { assert((-n) * d == n * (-d)) by(nonlinear_arith); }
pub proof fn lemma_neg_cross2(a: int, b: int, n: int, d: int) ensures a * (-d) == (-n) * b ==> a * d == n * b
{ assert(a * (-d) == (-n) * b ==> a * d == n * b) by(nonlinear_arith); }
pub proof fn lemma_frac_one(g: int, n: int, d: int) requires is_gcd(g, n, d), d > 0 ensures g == 1 ==> coprime(n, d)
{ let (s, t) = choose|s: int, t: int| #[trigger] (s * n) + #[trigger] (t * d) == g; if g == 1 { assert(s * n + t * d == 1); } }
pub proof fn lemma_nz(a: int, b: int) ensures a != 0 && b != 0 ==> a * b != 0, a > 0 && b > 0 ==> a * b > 0, a == 0 || b == 0 ==> a * b == 0
{
    if a != 0 && b != 0 { assert(a * b != 0) by(nonlinear_arith) requires a != 0, b != 0; }
    if a > 0 && b > 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; }
    if a == 0 || b == 0 { assert(a * b == 0) by(nonlinear_arith) requires a == 0 || b == 0; }
}
// the same value written with either representation of the right operand
pub proof fn lemma_rat_scale(r: RationalNTL, n: int, d: int, k: int)
    requires is_rat(r, n * k, d * k), k != 0 ensures is_rat(r, n, d)
{ let a = nn(r); let b = dd(r); assert(a * d == n * b) by(nonlinear_arith) requires a * (d * k) == (n * k) * b, k != 0; }

@fn RationalNTL::RationalNTL() as rntl_new0
@ensures is_rat(this, 0, 1)
@at exit
  lemma_coprime_one(0, 1);

@fn RationalNTL::canonicalize() as rntl_canonicalize
@ensures this0.denominator.v() != 0 ==> is_rat(this, nn(this0), dd(this0))
@ensures this0.denominator.v() == 0 ==> nn(this) == nn(this0) && dd(this) == 1
@at after /let mut gcd/
  lemma_reduce(this.numerator.v(), this.denominator.v(), gcd.v());
  lemma_neg_cross(nn(this0), dd(this0));
  lemma_frac_one(gcd.v(), nn(this), dd(this));
  lemma_neg_cross2(fdiv(nn(this), gcd.v()), fdiv(dd(this), gcd.v()), nn(this0), dd(this0));
@at exit
  lemma_coprime_one(this.numerator.v(), this.denominator.v());

@fn RationalNTL::RationalNTL(const ZZ &, const ZZ &) as rntl_new_zz
@requires denom.v() != 0
@ensures is_rat(this, num.v(), denom.v())
@fn RationalNTL::RationalNTL(const ZZ &, const int) as rntl_new_zi
@requires denom != 0
@ensures is_rat(this, num.v(), denom as int)
@fn RationalNTL::RationalNTL(const int, const ZZ &) as rntl_new_iz
@requires denom.v() != 0
@ensures is_rat(this, num as int, denom.v())
@fn RationalNTL::RationalNTL(const int, const int) as rntl_new_ii
@requires denom != 0
@ensures is_rat(this, num as int, denom as int)

@fn RationalNTL::add(const ZZ &, const ZZ &) as rntl_add_zz returns_this
@requires dd(this) > 0, denom.v() != 0
@at exit
  lemma_nz(dd(this0), denom0.v());
@at entry
  lemma_nz(dd(this), denom.v());
@ensures is_rat(this, nn(this0) * denom.v() + num.v() * dd(this0), dd(this0) * denom.v()), ret == this
@alias rntl_add_zz_self num=this.numerator denom=this.denominator
@alias rntl_add_zz_selfd denom=this.denominator
@fn RationalNTL::add(const RationalNTL &) as rntl_add_r returns_this
@requires dd(this) > 0, dd(rationalNTL) > 0
@ensures is_rat(this, nn(this0) * dd(rationalNTL) + nn(rationalNTL) * dd(this0), dd(this0) * dd(rationalNTL)), ret == this
@alias rntl_add_r_self rationalNTL=this
@fn RationalNTL::operator+(const RationalNTL &) const as rntl_plus
@requires canon(this), canon(rhs)
@ensures is_rat(ret, nn(this) * dd(rhs) + nn(rhs) * dd(this), dd(this) * dd(rhs))
@fn RationalNTL::operator-(const RationalNTL &) const as rntl_minus
@requires canon(this), canon(rhs)
@ensures is_rat(ret, nn(this) * dd(rhs) - nn(rhs) * dd(this), dd(this) * dd(rhs))
@at entry
  lemma_negmul(nn(rhs), dd(this));
@fn RationalNTL::operator+=(const RationalNTL &) as rntl_pluseq returns_this
@requires canon(this), canon(rhs)
@ensures is_rat(this, nn(this0) * dd(rhs) + nn(rhs) * dd(this0), dd(this0) * dd(rhs)), ret == this
@alias rntl_pluseq_self rhs=this
@fn RationalNTL::operator-=(const RationalNTL &) as rntl_minuseq returns_this
@requires canon(this), canon(rhs)
@ensures is_rat(this, nn(this0) * dd(rhs) - nn(rhs) * dd(this0), dd(this0) * dd(rhs)), ret == this
@alias rntl_minuseq_self rhs=this
@at entry
  lemma_negmul(nn(rhs), dd(this));
@fn RationalNTL::div(const ZZ &) as rntl_div_z returns_this
@requires dd(this) > 0, rhs.v() != 0
@ensures is_rat(this, nn(this0), dd(this0) * rhs.v()), ret == this
@at entry
  lemma_nz(dd(this), rhs.v());
@fn RationalNTL::div(const RationalNTL &) as rntl_div_r returns_this
@requires canon(this), canon(rhs), nn(rhs) != 0
@ensures is_rat(this, nn(this0) * dd(rhs), dd(this0) * nn(rhs)), ret == this
@alias rntl_div_r_self rhs=this
@at entry
  lemma_nz(dd(this), nn(rhs));
@fn RationalNTL::operator/(const RationalNTL &) const as rntl_divide_r
@requires canon(this), canon(rhs), nn(rhs) != 0
@ensures is_rat(ret, nn(this) * dd(rhs), dd(this) * nn(rhs))
@fn RationalNTL::operator/(const ZZ &) const as rntl_divide_z
@requires canon(this), rhs.v() != 0
@ensures is_rat(ret, nn(this), dd(this) * rhs.v())
@fn RationalNTL::getNumerator() const as rntl_getnum
@ensures ret.v() == nn(this)
@fn RationalNTL::getDenominator() const as rntl_getden
@ensures ret.v() == dd(this)
@fn RationalNTL::mult(const ZZ &, const ZZ &) as rntl_mult_zz returns_this
@requires dd(this) > 0, denum.v() != 0
@ensures is_rat(this, nn(this0) * num.v(), dd(this0) * denum.v()), ret == this
@alias rntl_mult_zz_self num=this.numerator denum=this.denominator
@at entry
  lemma_nz(dd(this), denum.v());
@fn RationalNTL::mult(const RationalNTL &) as rntl_mult_r returns_this
@requires canon(this), canon(rationalNTL)
@ensures is_rat(this, nn(this0) * nn(rationalNTL), dd(this0) * dd(rationalNTL)), ret == this
@alias rntl_mult_r_self rationalNTL=this
@fn RationalNTL::mult(const ZZ) as rntl_mult_z returns_this
@requires canon(this)
@ensures is_rat(this, nn(this0) * rhs.v(), dd(this0)), ret == this
@fn RationalNTL::power(const long) as rntl_power returns_this
@requires canon(this), e < 0 ==> nn(this) != 0, e > i64::MIN
@ensures e >= 0 ==> is_rat(this, zpow(nn(this0), e as nat), zpow(dd(this0), e as nat))
@ensures e < 0 ==> is_rat(this, zpow(dd(this0), (-e) as nat), zpow(nn(this0), (-e) as nat))
@ensures ret == this
@at entry
  if e >= 0 { lemma_pow_nz(dd(this), e as nat); } else { lemma_pow_nz(nn(this), (-e) as nat); }
@fn RationalNTL::power(const RationalNTL &, long) as rntl_power_s static
@requires canon(base), e < 0 ==> nn(base) != 0, e > i64::MIN
@ensures e >= 0 ==> is_rat(ret, zpow(nn(base), e as nat), zpow(dd(base), e as nat))
@ensures e < 0 ==> is_rat(ret, zpow(dd(base), (-e) as nat), zpow(nn(base), (-e) as nat))
@fn RationalNTL::operator*(const RationalNTL &) const as rntl_times_r
@requires canon(this), canon(rhs)
@ensures is_rat(ret, nn(this) * nn(rhs), dd(this) * dd(rhs))
@fn RationalNTL::operator*(const ZZ &) const as rntl_times_z
@requires canon(this)
@ensures is_rat(ret, nn(this) * rhs.v(), dd(this))
@fn RationalNTL::operator*(const int &) const as rntl_times_i
@requires canon(this)
@ensures is_rat(ret, nn(this) * rhs, dd(this))
@fn RationalNTL::operator*=(const RationalNTL &) as rntl_timeseq_r returns_this
@requires canon(this), canon(rhs)
@ensures is_rat(this, nn(this0) * nn(rhs), dd(this0) * dd(rhs)), ret == this
@alias rntl_timeseq_r_self rhs=this
@fn RationalNTL::operator*=(const ZZ &) as rntl_timeseq_z returns_this
@requires canon(this)
@ensures is_rat(this, nn(this0) * rhs.v(), dd(this0)), ret == this
@fn RationalNTL::operator*=(const int &) as rntl_timeseq_i returns_this
@requires canon(this)
@ensures is_rat(this, nn(this0) * rhs, dd(this0)), ret == this
@fn RationalNTL::changeSign() as rntl_chsign
@requires canon(this)
@ensures canon(this), nn(this) == -nn(this0), dd(this) == dd(this0)
@at entry
  lemma_sign(nn(this), dd(this), 1);
@fn RationalNTL::operator==(const RationalNTL &) const as rntl_eq
@requires canon(this), canon(rhs)
@ensures ret == (nn(this) * dd(rhs) == nn(rhs) * dd(this))
@at entry
  if nn(this) * dd(rhs) == nn(rhs) * dd(this) { lemma_unique(nn(this), dd(this), nn(rhs), dd(rhs)); }
@fn RationalNTL::operator==(const long) const as rntl_eq_l
@requires canon(this)
@ensures ret == (nn(this) == rhs * dd(this))
@at entry
  lemma_mul_small(rhs as int, dd(this));
  if nn(this) == rhs * dd(this) { lemma_coprime_one(rhs as int, 1); lemma_unique(nn(this), dd(this), rhs as int, 1); }
@fn RationalNTL::operator==(const ZZ &) const as rntl_eq_z
@requires canon(this)
@ensures ret == (nn(this) == rhs.v() * dd(this))
@at entry
  lemma_mul_small(rhs.v(), dd(this));
  if nn(this) == rhs.v() * dd(this) { lemma_coprime_one(rhs.v(), 1); lemma_unique(nn(this), dd(this), rhs.v(), 1); }
@fn RationalNTL::operator!=(const RationalNTL &) const as rntl_ne
@requires canon(this), canon(rhs)
@ensures ret == (nn(this) * dd(rhs) != nn(rhs) * dd(this))
@fn RationalNTL::operator!=(const long) const as rntl_ne_l
@requires canon(this)
@ensures ret == (nn(this) != rhs * dd(this))
@fn RationalNTL::operator=(const long) as rntl_assign_l returns_this
@ensures is_rat(this, rhs as int, 1), ret == this
@at entry
  lemma_coprime_one(rhs as int, 1);
@fn RationalNTL::operator=(const ZZ &) as rntl_assign_z returns_this
@ensures is_rat(this, rhs.v(), 1), ret == this
@at entry
  lemma_coprime_one(rhs.v(), 1);
@fn RationalNTL::operator=(const RationalNTL &) as rntl_assign_r returns_this
@requires canon(rhs)
@ensures is_rat(this, nn(rhs), dd(rhs)), ret == this, this == rhs
@alias rntl_assign_r_self rhs=this
@at exit
  lemma_unique(nn(this), dd(this), nn(rhs), dd(rhs));
@rs
pub proof fn lemma_negmul(a: int, b: int) ensures (-a) * b == -(a * b) { assert((-a) * b == -(a * b)) by(nonlinear_arith); }
pub proof fn lemma_pow_nz(a: int, e: nat) ensures a != 0 ==> zpow(a, e) != 0, a > 0 ==> zpow(a, e) > 0 decreases e
{ if e > 0 { lemma_pow_nz(a, (e - 1) as nat); lemma_nz(a, zpow(a, (e - 1) as nat)); } }
// exact inner product of two rational vectors as a fraction
pub open spec fn ipd(a: Seq<RationalNTL>, b: Seq<RationalNTL>, k: nat) -> int decreases k { if k == 0 { 1 } else { ipd(a, b, (k - 1) as nat) * (dd(a[k - 1]) * dd(b[k - 1])) } }
pub open spec fn ipn(a: Seq<RationalNTL>, b: Seq<RationalNTL>, k: nat) -> int decreases k { if k == 0 { 0 } else { ipn(a, b, (k - 1) as nat) * (dd(a[k - 1]) * dd(b[k - 1])) + (nn(a[k - 1]) * nn(b[k - 1])) * ipd(a, b, (k - 1) as nat) } }
pub open spec fn allcanon(a: Seq<RationalNTL>) -> bool { forall|i: int| 0 <= i < a.len() ==> canon(#[trigger] a[i]) }
pub proof fn lemma_add_cong(r: RationalNTL, a: int, b: int, p: int, q: int, n: int, d: int, pp: int, qq: int)
    requires is_rat(r, a * q + p * b, b * q), a * d == n * b, p * qq == pp * q, b > 0, q > 0
    ensures is_rat(r, n * qq + pp * d, d * qq)
{
    let x = nn(r); let y = dd(r);
    lemma_nz(b, q);
    lemma_add_cong_ring(x, y, a, b, p, q, n, d, pp, qq);
    ring_cancel(b * q, x * (d * qq), (n * qq + pp * d) * y);
}
@ring lemma_add_cong_ring(x, y, a, b, p, q, n, d, pp, qq)
hyp d*qq : x*(b*q) == (a*q+p*b)*y
hyp q*qq*y : a*d == n*b
hyp b*d*y : p*qq == pp*q
concl (b*q)*(x*(d*qq)) == (b*q)*((n*qq+pp*d)*y)
@fn vec_RationalNTL::length() const as vrntl_length
@ensures ret == this.vec@.len()
@fn vec_RationalNTL::SetLength(long) as vrntl_setlength
@requires n >= 0, allcanon(this.vec@)
@ensures this.vec@.len() == n, allcanon(this.vec@)
@ensures forall|i: int| 0 <= i < n && i < this0.vec@.len() ==> this.vec@[i] == this0.vec@[i]
@ensures forall|i: int| this0.vec@.len() <= i < n ==> nn(#[trigger] this.vec@[i]) == 0
@fn vec_RationalNTL::kill() as vrntl_kill
@ensures this.vec@.len() == 0
@fn vec_RationalNTL::operator=(const vec_RationalNTL &) as vrntl_assign returns_this
@ensures this.vec@ == a.vec@
@fn vec_RationalNTL::vec_RationalNTL(const vec_RationalNTL &) as vrntl_copy
@ensures this.vec@ == a.vec@
@fn vec_RationalNTL::innerProduct(const vec_RationalNTL &, const vec_RationalNTL &) as vrntl_inner static
@requires v1.vec@.len() == v2.vec@.len(), v1.vec@.len() < 0x7fff_ffff, allcanon(v1.vec@), allcanon(v2.vec@)
@ensures is_rat(ret, ipn(v1.vec@, v2.vec@, v1.vec@.len()), ipd(v1.vec@, v2.vec@, v1.vec@.len()))
@ensures ipd(v1.vec@, v2.vec@, v1.vec@.len()) > 0
@invariant 0
  0 <= k <= v1.vec@.len(),
  is_rat(sum, ipn(v1.vec@, v2.vec@, k as nat), ipd(v1.vec@, v2.vec@, k as nat)),
  ipd(v1.vec@, v2.vec@, k as nat) > 0,
@loopdec 0 v1.vec@.len() - k
@at ghost begin 0
  let ghost sum_before = sum;
@at end 0
  let x = v1.vec@[k as int]; let y = v2.vec@[k as int];
  let p = choose|p: RationalNTL| is_rat(p, nn(x) * nn(y), dd(x) * dd(y)) && is_rat(sum, nn(sum_before) * dd(p) + nn(p) * dd(sum_before), dd(sum_before) * dd(p));
  lemma_add_cong(sum, nn(sum_before), dd(sum_before), nn(p), dd(p), ipn(v1.vec@, v2.vec@, k as nat), ipd(v1.vec@, v2.vec@, k as nat), nn(x) * nn(y), dd(x) * dd(y));
  lemma_nz(dd(x), dd(y)); lemma_nz(ipd(v1.vec@, v2.vec@, k as nat), dd(x) * dd(y));
