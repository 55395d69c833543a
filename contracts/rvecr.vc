@source rational.cpp
@include rvec.vc proved
@ptr ref rationalVector
@rs
// reduced by the gcd: same value, coprime
pub proof fn red(n: int, d: int, g: int) requires is_gcd(g, n, d), d > 0 ensures g > 0, fdiv(d, g) > 0, coprime(fdiv(n, g), fdiv(d, g)), cross(fdiv(n, g), fdiv(d, g), n, d), g == 1 ==> coprime(n, d)
{ lemma_reduce(n, d, g); lemma_frac_one(g, n, d); }
pub open spec fn rv_canon_to(v: rationalVector, k: int) -> bool { forall|i: int| 0 <= i < k ==> coprime((#[trigger] v.enumerator@[i]).v(), v.denominator@[i].v()) }
@rs
pub open spec fn canon_st(v0: rationalVector, v: rationalVector, i: int) -> bool {
    &&& rv_wf(v) && rv_same(v, v0) && rv_canon_to(v, i)
    &&& forall|k: int| i <= k < v.enumerator@.len() ==> #[trigger] v.enumerator@[k] == v0.enumerator@[k]
    &&& forall|k: int| i <= k < v.enumerator@.len() ==> #[trigger] v.denominator@[k] == v0.denominator@[k]
}
pub proof fn red_all(n: int, d: int) requires d > 0 ensures forall|g: int| #![trigger is_gcd(g, n, d)] is_gcd(g, n, d) ==> g > 0 && fdiv(d, g) > 0 && coprime(fdiv(n, g), fdiv(d, g)) && cross(fdiv(n, g), fdiv(d, g), n, d) && (g == 1 ==> coprime(n, d))
{ hide(is_gcd); assert forall|g: int| #![trigger is_gcd(g, n, d)] is_gcd(g, n, d) implies g > 0 && fdiv(d, g) > 0 && coprime(fdiv(n, g), fdiv(d, g)) && cross(fdiv(n, g), fdiv(d, g), n, d) && (g == 1 ==> coprime(n, d)) by { red(n, d, g); } }
@fn canonicalizeRationalVector(rationalVector *, int) as rv_canonicalize
@requires rv_wf(vec), numOfVars == vec.enumerator@.len()
@ensures rv_wf(vec), vec.computed_integer_scale, rv_same(vec, vec0), rv_canon_to(vec, numOfVars as int)
@invariant 0
  0 <= i <= numOfVars, numOfVars == vec.enumerator@.len(), canon_st(vec0, vec, i as int)
@loopdec 0 numOfVars - i
@at ghost begin 0
  let ghost v1 = vec;
  proof { red_all(v1.enumerator@[i as int].v(), v1.denominator@[i as int].v()); }
@rs
// the vector times num / den
pub open spec fn rv_times(v: rationalVector, v0: rationalVector, num: int, den: int) -> bool {
    v.enumerator@.len() == v0.enumerator@.len() && forall|i: int| 0 <= i < v.enumerator@.len() ==> cross(#[trigger] v.enumerator@[i].v(), v.denominator@[i].v(), v0.enumerator@[i].v() * num, v0.denominator@[i].v() * den)
}
@fn rationalVector::scalarMultiplication(const ZZ &, const ZZ &) as rv_smul
@requires rv_dims(this), denom.v() > 0
@ensures rv_wf(this), this.computed_integer_scale, rv_times(this, this0, numer.v(), denom.v()), rv_canon_to(this, this.enumerator@.len() as int)
@at ghost entry
  let ghost v0 = this;
@invariant 0
  0 <= i <= v0.enumerator@.len(), this.enumerator@.len() == v0.enumerator@.len(), rv_dims(this), rv_dims(v0),
  forall|k: int| 0 <= k < i ==> (#[trigger] this.enumerator@[k]).v() == v0.enumerator@[k].v() * numer.v(),
  forall|k: int| 0 <= k < i ==> (#[trigger] this.denominator@[k]).v() == v0.denominator@[k].v() * denom.v(),
  forall|k: int| i <= k < v0.enumerator@.len() ==> #[trigger] this.enumerator@[k] == v0.enumerator@[k],
  forall|k: int| i <= k < v0.enumerator@.len() ==> #[trigger] this.denominator@[k] == v0.denominator@[k]
@loopdec 0 v0.enumerator@.len() - i
@at begin 0
  lemma_nz(v0.denominator@[i as int].v(), denom.v());
@end
