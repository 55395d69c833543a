@source rational.cpp
@include rational.vc proved
@struct rationalVector
@rs
// well-formed: positive denominators; a cached integer representation agrees with the entries
pub open spec fn rv_dims(v: rationalVector) -> bool { v.enumerator@.len() == v.denominator@.len() && v.enumerator@.len() <= i32::MAX && forall|i: int| 0 <= i < v.denominator@.len() ==> (#[trigger] v.denominator@[i]).v() > 0 }
pub open spec fn cross(a: int, b: int, c: int, d: int) -> bool { a * d == c * b }
pub open spec fn scaled_at(s: int, f: int, n: int, d: int) -> bool { s * d == n * f }
pub open spec fn scaled_by(s: Seq<Z>, f: int, v: rationalVector) -> bool { s.len() == v.enumerator@.len() && f > 0 && forall|i: int| 0 <= i < s.len() ==> scaled_at(#[trigger] s[i].v(), f, v.enumerator@[i].v(), v.denominator@[i].v()) }
pub open spec fn rv_wf(v: rationalVector) -> bool { rv_dims(v) && (v.computed_integer_scale ==> scaled_by(v.integer_scale@, v.integer_scale_factor.v(), v)) }
// equal as vectors of rational numbers
pub open spec fn rv_same(a: rationalVector, b: rationalVector) -> bool { a.enumerator@.len() == b.enumerator@.len() && forall|i: int| 0 <= i < a.enumerator@.len() ==> cross(#[trigger] a.enumerator@[i].v(), a.denominator@[i].v(), b.enumerator@[i].v(), b.denominator@[i].v()) }
pub proof fn lcm_fact(a: int, b: int, g: int)
    requires is_gcd(g, a, b), a > 0, b > 0 ensures g > 0, a * fdiv(b, g) > 0, dvd(a, a * fdiv(b, g)), dvd(b, a * fdiv(b, g))
{
    let k = choose|k: int| #[trigger] (g * k) == a; let l = choose|l: int| #[trigger] (g * l) == b;
    assert(g > 0) by(nonlinear_arith) requires g >= 0, g * l == b, b > 0;
    assert(b / g == l) by(nonlinear_arith) requires g * l == b, g > 0;
    assert(l > 0) by(nonlinear_arith) requires g * l == b, g > 0, b > 0;
    assert(a * l > 0) by(nonlinear_arith) requires a > 0, l > 0;
    assert(a * l == b * k) by(nonlinear_arith) requires g * k == a, g * l == b;
}
pub proof fn dvd_tr(a: int, b: int, c: int) requires dvd(a, b), dvd(b, c) ensures dvd(a, c)
{ let k = choose|k: int| #[trigger] (a * k) == b; let l = choose|l: int| #[trigger] (b * l) == c; assert(a * (k * l) == c) by(nonlinear_arith) requires a * k == b, b * l == c; }
pub proof fn ediv(a: int, g: int) requires g > 0, dvd(g, a) ensures g * fdiv(a, g) == a
{ let k = choose|k: int| #[trigger] (g * k) == a; assert(a / g == k) by(nonlinear_arith) requires g * k == a, g > 0; }
// x divisible by d>0:  (n * x) / d  scaled
pub proof fn scl(n: int, x: int, d: int) requires d > 0, dvd(d, x) ensures scaled_at(fdiv(n * x, d), x, n, d), scaled_at(n * fdiv(x, d), x, n, d)
{
    let k = choose|k: int| #[trigger] (d * k) == x;
    assert((n * x) == d * (n * k)) by(nonlinear_arith) requires d * k == x;
    assert(dvd(d, n * x)); ediv(n * x, d); ediv(x, d);
    assert(fdiv(n * x, d) * d == n * x) by(nonlinear_arith) requires d * fdiv(n * x, d) == n * x;
    let f = fdiv(x, d); assert((n * f) * d == n * x) by(nonlinear_arith) requires d * f == x;
}

pub proof fn lcm_all(a: int, b: int) requires a > 0, b > 0 ensures forall|g: int| #![trigger is_gcd(g, a, b)] is_gcd(g, a, b) ==> g > 0 && a * fdiv(b, g) > 0 && dvd(a, a * fdiv(b, g)) && dvd(b, a * fdiv(b, g))
{ hide(is_gcd); assert forall|g: int| #![trigger is_gcd(g, a, b)] is_gcd(g, a, b) implies g > 0 && a * fdiv(b, g) > 0 && dvd(a, a * fdiv(b, g)) && dvd(b, a * fdiv(b, g)) by { lcm_fact(a, b, g); } }

@fn lcm(const ZZ &, const ZZ &) as zz_lcm static
@requires a.v() > 0, b.v() > 0
@ensures ret.v() > 0, dvd(a.v(), ret.v()), dvd(b.v(), ret.v())
@at entry
  lcm_all(a.v(), b.v());
@fn rationalVector::compute_integer_scale() as rv_comp
@requires rv_dims(this)
@ensures this.computed_integer_scale, rv_wf(this), this.enumerator == this0.enumerator, this.denominator == this0.denominator
@at entry
  assert(dvd(1, 1)) by { assert(1 * 1int == 1int); }
@invariant 0
  0 <= i <= numOfVars, this == (rationalVector { integer_scale: this.integer_scale, integer_scale_factor: this.integer_scale_factor, ..(this0) }), this.integer_scale@.len() == numOfVars, this.integer_scale_factor.v() > 0,
  forall|k: int| 0 <= k < i ==> dvd((#[trigger] this.denominator@[k]).v(), this.integer_scale_factor.v())
@loopdec 0 numOfVars - i
@at ghost begin 0
  let ghost f0 = this.integer_scale_factor.v();
@at end 0
  assert forall|k: int| 0 <= k < i implies dvd((#[trigger] this.denominator@[k]).v(), this.integer_scale_factor.v()) by { dvd_tr(this.denominator@[k].v(), f0, this.integer_scale_factor.v()); }
@invariant 1
  0 <= i <= numOfVars, this == (rationalVector { integer_scale: this.integer_scale, integer_scale_factor: this.integer_scale_factor, ..(this0) }), this.integer_scale@.len() == numOfVars, this.integer_scale_factor.v() > 0,
  forall|k: int| 0 <= k < numOfVars ==> dvd((#[trigger] this.denominator@[k]).v(), this.integer_scale_factor.v()),
  forall|k: int| 0 <= k < i ==> scaled_at(#[trigger] this.integer_scale@[k].v(), this.integer_scale_factor.v(), this.enumerator@[k].v(), this.denominator@[k].v())
@loopdec 1 numOfVars - i
@at begin 1
  assert(dvd(this.denominator@[i as int].v(), this.integer_scale_factor.v()));
  scl(this.enumerator@[i as int].v(), this.integer_scale_factor.v(), this.denominator@[i as int].v());
@fn rationalVector::rationalVector(int) as rv_new defaults
@requires dimension >= 0
@ensures rv_wf(this), this.enumerator@.len() == dimension, forall|i: int| 0 <= i < dimension ==> (#[trigger] this.enumerator@[i]).v() == 0, forall|i: int| 0 <= i < dimension ==> (#[trigger] this.denominator@[i]).v() == 1
@invariant 0
  0 <= i <= dimension, this.enumerator@.len() == dimension, this.denominator@.len() == dimension, forall|k: int| 0 <= k < i ==> (#[trigger] this.enumerator@[k]).v() == 0, forall|k: int| 0 <= k < i ==> (#[trigger] this.denominator@[k]).v() == 1
@loopdec 0 dimension - i
@fn rationalVector::rationalVector(const vec_ZZ &, const ZZ &) as rv_newd
@requires numer@.len() <= i32::MAX, denom.v() > 0
@ensures rv_wf(this), this.enumerator == numer, forall|i: int| 0 <= i < numer@.len() ==> (#[trigger] this.denominator@[i]) == denom
@invariant 0
  0 <= i <= dimension, this.enumerator == numer, this.denominator@.len() == dimension, forall|k: int| 0 <= k < i ==> (#[trigger] this.denominator@[k]) == denom
@loopdec 0 dimension - i
@fn rationalVector::rationalVector(const vec_ZZ &, const vec_ZZ &) as rv_newv
@requires numer@.len() <= i32::MAX, numer@.len() == denom@.len(), forall|i: int| 0 <= i < denom@.len() ==> (#[trigger] denom@[i]).v() > 0
@ensures rv_wf(this), this.enumerator == numer, this.denominator == denom
@fn rationalVector::rationalVector(const vector<RationalNTL> &) as rv_newr
@requires rational@.len() <= i32::MAX, allcanon(rational@)
@ensures rv_wf(this), this.enumerator@.len() == rational@.len(), forall|i: int| 0 <= i < rational@.len() ==> (#[trigger] this.enumerator@[i]).v() == nn(rational@[i]), forall|i: int| 0 <= i < rational@.len() ==> (#[trigger] this.denominator@[i]).v() == dd(rational@[i])
@invariant 0
  0 <= i <= rational@.len(), this.enumerator@.len() == rational@.len(), this.denominator@.len() == rational@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] this.enumerator@[k]).v() == nn(rational@[k]), forall|k: int| 0 <= k < i ==> (#[trigger] this.denominator@[k]).v() == dd(rational@[k])
@loopdec 0 rational@.len() - i
@fn rationalVector::set_entry(int, const ZZ &, const ZZ &, bool) as rv_set
@requires rv_dims(this), 0 <= i < this.enumerator@.len(), denom.v() > 0
@ensures rv_wf(this), this.enumerator@ == this0.enumerator@.update(i as int, numer), this.denominator@ == this0.denominator@.update(i as int, denom)
@fn rationalVector::getEntry(const int, ZZ &, ZZ &) const as rv_get
@requires rv_dims(this), i >= 0
@ensures i < this.enumerator@.len() ==> numer == this.enumerator@[i as int] && denom == this.denominator@[i as int]
@ensures i >= this.enumerator@.len() ==> numer == numer0 && denom == denom0
@fn rationalVector::set_numerator(int, const ZZ &) as rv_setnum
@requires rv_dims(this), 0 <= i < this.enumerator@.len()
@ensures rv_wf(this), this.enumerator@ == this0.enumerator@.update(i as int, numer), this.denominator == this0.denominator
@fn rationalVector::set_denominator(int, const ZZ &) as rv_setden
@requires rv_dims(this), 0 <= i < this.enumerator@.len(), denom.v() > 0
@ensures rv_wf(this), this.enumerator == this0.enumerator, this.denominator@ == this0.denominator@.update(i as int, denom)
@end
