// Conversions between the number types of NTL, GMP and the machine: latte_gmp.cpp, latte_ntl.cpp
@include rat.vc
@source latte_gmp.cpp
@rs
// the number whose base-256 digits are the first n bytes, least significant first
pub uninterp spec fn bytesv(s: Seq<u8>, n: int) -> int;
// the number of binary digits, 1 for zero
pub uninterp spec fn nbits(a: int) -> nat;
pub open spec fn mag(a: int) -> int { if a < 0 { -a } else { a } }
#[verifier::external_body]
pub fn mpz_bits(a: Z, base: i32) -> (r: u64) requires base == 2 ensures r == nbits(a.v()), 1 <= r <= 0x7fff_ffff_ffff, mag(a.v()) < zpow(2, r as nat) { unimplemented!() }
#[verifier::external_body]
pub fn zz_numbytes(a: Z) -> (r: i64) ensures 0 <= r <= 0x7fff_ffff_ffff, mag(a.v()) < zpow(256, r as nat) { unimplemented!() }
#[verifier::external_body]
pub fn zz_bytes(d: Vc<u8>, a: Z, n: i64) -> (r: Vc<u8>) requires 0 <= n <= d@.len() ensures r@.len() == d@.len(), mag(a.v()) < zpow(256, n as nat) ==> bytesv(r@, n as int) == mag(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn zz_frombytes(d: Vc<u8>, n: i64) -> (r: Z) requires 0 <= n <= d@.len() ensures r.v() == bytesv(d@, n as int), r.v() >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn mpz_import(count: u64, order: i32, size: u64, endian: i32, nails: u64, d: Vc<u8>) -> (r: Z) requires order == -1, size == 1, nails == 0, count <= d@.len() ensures r.v() == bytesv(d@, count as int), r.v() >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn mpz_export(d: Vc<u8>, order: i32, size: u64, endian: i32, nails: u64, a: Z) -> (r: (Vc<u8>, u64)) requires order == -1, size == 1, nails == 0, mag(a.v()) < zpow(256, d@.len()) ensures r.0@.len() == d@.len(), r.1 <= d@.len(), bytesv(r.0@, r.1 as int) == mag(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn mpz_si(a: Z) -> (r: i64) ensures i64::MIN <= a.v() <= i64::MAX ==> r == a.v() { unimplemented!() }
pub proof fn zp_mono(a: nat, b: nat) requires a <= b ensures 1 <= zpow(2, a) <= zpow(2, b) decreases b { if a < b { zp_mono(a, (b - 1) as nat); } else if a > 0 { zp_mono((a - 1) as nat, (a - 1) as nat); } }
pub proof fn zp_256(k: nat) ensures zpow(256, k) == zpow(2, 8 * k) decreases k { if k > 0 { zp_256((k - 1) as nat); reveal_with_fuel(zpow, 9); } }
pub open spec fn zeq(a: Seq<Z>, b: Seq<Z>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).v() == b[i].v() }
@end
@fn convert_ZZ_to_mpz(const ZZ &, mpz_class &) as cv_z2
@ensures mpz.v() == zz.v()
@fn convert_ZZ_to_mpz(const ZZ &) as cv_z
@ensures ret.v() == zz.v()
@fn convert_mpz_to_ZZ(const mpz_class &) as cv_m
@ensures ret.v() == mpz.v()
@at before /new unsigned char|vhavoc/
  zp_256(count as nat); zp_mono(nbits(mpz.v()), (8 * count) as nat);
@fn convert_ZZ_to_mpq(const ZZ &) as cv_q
@ensures ret.v() == zz.v() as real
@fn convert_mpq_to_ZZ(mpq_class) as cv_qz
@requires exists|n: int| #[trigger] rl(n) == elt.v()
@ensures rl(ret.v()) == elt.v()
@fn convert_vec_ZZ_to_mpz_vector(const vec_ZZ &, mpz_vector &) as cv_vec2
@requires result@.len() >= vec@.len(), vec@.len() <= i32::MAX
@ensures result@.len() == result0@.len(), forall|i: int| 0 <= i < vec@.len() ==> (#[trigger] result@[i]).v() == vec@[i].v()
@ensures forall|i: int| vec@.len() <= i < result@.len() ==> (#[trigger] result@[i]) == result0@[i]
@invariant 0
  0 <= j <= vec@.len() <= i32::MAX, result@.len() >= vec@.len(), result@.len() == result0@.len(), (forall|i: int| 0 <= i < j ==> (#[trigger] result@[i]).v() == vec@[i].v()), forall|i: int| j <= i < result@.len() ==> (#[trigger] result@[i]) == result0@[i]
@loopdec 0 vec@.len() - j
@fn convert_vec_ZZ_to_mpz_vector(const vec_ZZ &) as cv_vec
@requires vec@.len() <= i32::MAX
@ensures zeq(ret@, vec@)
@source latte_ntl.cpp
@fn convert_ZZ_to_int(const ZZ &) as cv_int
@ensures ret == zz.v()
@aborts !(-(i32::MAX as int) <= zz.v() <= i32::MAX)
@fn InnerProductModulo(ZZ &, const vec_ZZ &, const vec_ZZ &, const ZZ &) as ipm
@requires a@.len() == b@.len(), module.v() != 0
@ensures result.v() == frem(dot(a@, b@, a@.len()), module.v())
