// Taylor series: todd/todd-expansion.cpp
@source todd/todd-expansion.cpp
@include rat.vc
@rs
pub open spec fn fact(n: nat) -> int decreases n { if n == 0 { 1 } else { n * fact((n - 1) as nat) } }
pub proof fn fact_pos(n: nat) ensures fact(n) >= 1 decreases n { if n > 0 { fact_pos((n - 1) as nat); let f = fact((n - 1) as nat); assert(n * f >= 1) by(nonlinear_arith) requires n >= 1, f >= 1; } }
// sum of a[j] * b[i-j] over j < n: for n = i + 1 the i-th coefficient of the product of two power series
pub open spec fn cv(a: Seq<real>, b: Seq<real>, i: int, n: nat) -> real decreases n { if n == 0 { 0real } else { cv(a, b, i, (n - 1) as nat) + a[n - 1] * b[i - (n - 1)] } }
pub proof fn cv_ext(a: Seq<real>, b: Seq<real>, c: Seq<real>, d: Seq<real>, i: int, n: nat)
    requires forall|j: int| 0 <= j < n ==> #[trigger] a[j] == c[j], forall|j: int| i - n < j <= i ==> #[trigger] b[j] == d[j]
    ensures cv(a, b, i, n) == cv(c, d, i, n) decreases n
{ if n > 0 { cv_ext(a, b, c, d, i, (n - 1) as nat); assert(a[n - 1] == c[n - 1]); assert(b[i - (n - 1)] == d[i - (n - 1)]); } }
// the same sum without its first term
pub proof fn cv_first(a: Seq<real>, b: Seq<real>, i: int, n: nat) requires n >= 1 ensures cv(a, b, i, n) == a[0] * b[i] + cvt(a, b, i, n) decreases n
{ if n == 1 { assert(cv(a, b, i, 0) == 0real); } else { cv_first(a, b, i, (n - 1) as nat); } }
pub open spec fn cvt(a: Seq<real>, b: Seq<real>, i: int, n: nat) -> real decreases n { if n <= 1 { 0real } else { cvt(a, b, i, (n - 1) as nat) + a[n - 1] * b[i - (n - 1)] } }
pub proof fn cvt_ext(a: Seq<real>, b: Seq<real>, c: Seq<real>, d: Seq<real>, i: int, n: nat)
    requires forall|j: int| 0 <= j < n ==> #[trigger] a[j] == c[j], forall|j: int| i - n < j < i ==> #[trigger] b[j] == d[j]
    ensures cvt(a, b, i, n) == cvt(c, d, i, n) decreases n
{ if n > 1 { cvt_ext(a, b, c, d, i, (n - 1) as nat); assert(a[n - 1] == c[n - 1]); assert(b[i - (n - 1)] == d[i - (n - 1)]); } }
pub open spec fn delta(i: int) -> real { if i == 0 { 1real } else { 0real } }
// b is the reciprocal of the power series a, up to the given number of coefficients
pub open spec fn recip(a: Seq<real>, b: Seq<real>, n: nat) -> bool { forall|i: nat| i < n ==> #[trigger] cv(a, b, i as int, i + 1) == delta(i as int) }
pub proof fn recip_unique(a: Seq<real>, b: Seq<real>, c: Seq<real>, n: nat)
    requires a.len() >= n, b.len() >= n, c.len() >= n, n > 0 ==> a[0] != 0real, recip(a, b, n), recip(a, c, n)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] b[i] == c[i] decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        recip_unique(a, b, c, m);
        assert(cv(a, b, m as int, m + 1) == cv(a, c, m as int, m + 1));
        cv_first(a, b, m as int, m + 1); cv_first(a, c, m as int, m + 1);
        cvt_ext(a, b, a, c, m as int, m + 1);
        let x = a[0]; let y = b[m as int]; let z = c[m as int];
        assert(y == z) by(nonlinear_arith) requires x * y == x * z, x != 0real;
    }
}
// 1 - exp(t), with one factor t cancelled
pub open spec fn tden(n: nat) -> Seq<real> { Seq::new(n, |j: int| -(1real / (fact((j + 1) as nat) as real))) }
// the Taylor series of t/(1-exp(t))
pub open spec fn is_todd(t: Seq<real>, n: nat) -> bool { t.len() == n && recip(tden(n), t, n) }
pub open spec fn todd(n: nat) -> Seq<real> { choose|t: Seq<real>| is_todd(t, n) }
pub proof fn todd_unique(t: Seq<real>, n: nat) requires is_todd(t, n) ensures t =~= todd(n)
{ if n > 0 { assert(fact(1) == 1 * fact(0)); assert(tden(n)[0] == -(1real / 1real)); recip_unique(tden(n), t, todd(n), n); } }
pub proof fn todd_len(n: nat) ensures todd(n).len() == n { todd_ex(n); todd_unique(todd_mk(n), n); }
// its existence: the coefficients by recursion
pub open spec fn todd_mk(n: nat) -> Seq<real> decreases n { if n == 0 { Seq::empty() } else { let t = todd_mk((n - 1) as nat); t.push(if n == 1 { -1real } else { cvt(tden(n), t.push(0real), n - 1, n) }) } }
pub proof fn todd_ex(n: nat) ensures is_todd(todd_mk(n), n) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; todd_ex(m);
        let t = todd_mk(m); let u = todd_mk(n); let d = tden(n);
        assert(fact(1) == 1 * fact(0)); assert(fact(0) == 1); assert(d[0] == -(1real / 1real)); assert(d[0] == -1real);
        assert forall|k: nat| k < n implies #[trigger] cv(d, u, k as int, k + 1) == delta(k as int) by {
            if k < m { assert(cv(tden(m), t, k as int, k + 1) == delta(k as int)); cv_ext(d, u, tden(m), t, k as int, k + 1); }
            else {
                cv_first(d, u, m as int, n); cvt_ext(d, u, d, t.push(0real), m as int, n);
                let x = u[m as int]; assert(-1real * x == -x) by(nonlinear_arith);
                if n == 1 { assert(cvt(d, u, 0, 1) == 0real); assert(x == -1real); }
            }
        }
    }
}
pub open spec fn rpow(x: real, k: nat) -> real decreases k { if k == 0 { 1real } else { rpow(x, (k - 1) as nat) * x } }
pub open spec fn tscale(t: Seq<real>, x: int) -> Seq<real> { Seq::new(t.len(), |k: int| zpow(x, k as nat) as real * t[k]) }
pub open spec fn minl(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
// product of two power series, up to their common order
pub open spec fn cprod(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(minl(a.len(), b.len()), |i: int| cv(a, b, i, (i + 1) as nat)) }
pub open spec fn tprod(f: Seq<Seq<real>>, m: nat) -> Seq<real> decreases m { if m == 0 { seq![1real] } else if m == 1 { f[0] } else { cprod(tprod(f, (m - 1) as nat), f[m - 1]) } }
pub open spec fn rvv(f: Seq<Vc<Q>>) -> Seq<Seq<real>> { Seq::new(f.len(), |i: int| rv(f[i]@)) }
pub open spec fn fsc(x: Seq<Z>, n: nat) -> Seq<Seq<real>> { Seq::new(x.len(), |i: int| tscale(todd(n), x[i].v())) }
// the Taylor series of the product of x_i t/(1-exp(x_i t))
pub open spec fn toddp(x: Seq<Z>) -> Seq<real> { tprod(fsc(x, (x.len() + 1) as nat), x.len()) }
// step lemmas
pub proof fn fact_step(x: real, f: int, i: int, y: real) requires i >= 1, f >= 1, x == 1real / (f as real), y * (i as real) == x ensures y == 1real / ((i * f) as real)
{
    assert(x * (f as real) == 1real) by(nonlinear_arith) requires x == 1real / (f as real), f >= 1;
    assert(i * f >= 1) by(nonlinear_arith) requires i >= 1, f >= 1;
    assert((i * f) as real == (i as real) * (f as real)) by(nonlinear_arith);
    let r = (i * f) as real; let a = i as real; let b = f as real;
    assert(y * r == 1real) by(nonlinear_arith) requires y * a == x, x * b == 1real, r == a * b;
    assert(y == 1real / r) by(nonlinear_arith) requires y * r == 1real, r != 0real;
}
pub proof fn fact_div(x: real, f: int, i: int) requires i >= 1, f >= 1, x == 1real / (f as real) ensures x / (i as real) == 1real / ((i * f) as real)
{ let r = i as real; let y = x / r; assert(y * r == x) by(nonlinear_arith) requires y == x / r, r != 0real; fact_step(x, f, i, y); }
// b_i = -(a_1 b_{i-1} + ... + a_i b_0) / a_0 makes the i-th coefficient of a * b zero
pub proof fn recip_step(a: Seq<real>, b0: Seq<real>, b: Seq<real>, i: int, sum: real)
    requires 1 <= i < a.len(), b0.len() == a.len(), b.len() == a.len(), recip(a, b0, i as nat), b =~= b0.update(i, b[i]), sum == cvt(a, b0, i, (i + 1) as nat), b[i] * a[0] == -sum
    ensures recip(a, b, (i + 1) as nat)
{
    assert forall|k: nat| k < i + 1 implies #[trigger] cv(a, b, k as int, k + 1) == delta(k as int) by {
        if k < i { assert(cv(a, b0, k as int, k + 1) == delta(k as int)); cv_ext(a, b, a, b0, k as int, k + 1); }
        else { cv_first(a, b, i, (i + 1) as nat); cvt_ext(a, b, a, b0, i, (i + 1) as nat); let x = b[i]; let y = a[0]; assert(y * x == x * y) by(nonlinear_arith); }
    }
}
pub proof fn cprod_ext(a: Seq<real>, b: Seq<real>, c: Seq<real>) requires c.len() == minl(a.len(), b.len()), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == cv(a, b, i, (i + 1) as nat) ensures c =~= cprod(a, b) { }
pub proof fn tprod_ext(f: Seq<Seq<real>>, g: Seq<Seq<real>>, m: nat) requires m <= f.len(), m <= g.len(), forall|i: int| 0 <= i < m ==> #[trigger] f[i] =~= g[i] ensures tprod(f, m) =~= tprod(g, m) decreases m
{ if m == 1 { assert(f[0] =~= g[0]); } else if m > 1 { tprod_ext(f, g, (m - 1) as nat); assert(f[m - 1] =~= g[m - 1]); } }
pub proof fn tprod_len(f: Seq<Seq<real>>, m: nat, n: nat) requires m <= f.len(), forall|i: int| 0 <= i < m ==> (#[trigger] f[i]).len() == n ensures m > 0 ==> tprod(f, m).len() == n, m == 0 ==> tprod(f, m).len() == 1 decreases m
{ if m == 1 { assert(f[0].len() == n); } else if m > 1 { tprod_len(f, (m - 1) as nat, n); assert(f[m - 1].len() == n); } }
pub proof fn todds_len(x: Seq<Z>) ensures toddp(x).len() == x.len() + 1
{ let n = (x.len() + 1) as nat; todd_len(n); assert forall|i: int| 0 <= i < x.len() implies (#[trigger] fsc(x, n)[i]).len() == n by {} tprod_len(fsc(x, n), x.len(), n); }
@end
@fn taylor_exponential(int) as td_exp
@requires 0 <= order < i32::MAX
@ensures ret@.len() == order + 1, forall|i: int| 0 <= i <= order ==> (#[trigger] ret@[i]).v() == 1real / (fact(i as nat) as real)
@invariant 0
    0 <= i <= order + 1, order < i32::MAX, result@.len() == order + 1, coeff.v() == 1real / (fact(i as nat) as real),
    forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).v() == 1real / (fact(k as nat) as real)
@loopdec 0 order + 1 - i
@at before 0
    assert(fact(0) == 1); assert(1real / 1real == 1real); assert(coeff.v() == 1real / (fact(0) as real));
@at end 0
    fact_pos(i as nat);
    fact_div(coeff.v(), fact(i as nat), i + 1);
    assert(coeff.v() / ((i + 1) as real) == 1real / (fact((i + 1) as nat) as real));
@fn taylor_reciprocal(const mpq_vector &) as td_recip
@requires 1 <= a@.len() < u32::MAX, a@[0].v() != 0real
@ensures ret@.len() == a@.len(), recip(rv(a@), rv(ret@), a@.len())
@invariant 0
    1 <= i <= a@.len(), a@.len() < u32::MAX, b@.len() == a@.len(), a@[0].v() != 0real, recip(rv(a@), rv(b@), i as nat)
@loopdec 0 a@.len() - i
@invariant 1
    1 <= j <= i + 1, 1 <= i < a@.len(), a@.len() < u32::MAX, b@.len() == a@.len(), sum.v() == cvt(rv(a@), rv(b@), i as int, j as nat)
@loopdec 1 i + 1 - j
@at before 0
    assert(cv(rv(a@), rv(b@), 0, 0) == 0real);
    assert forall|k: nat| k < 1 implies #[trigger] cv(rv(a@), rv(b@), k as int, k + 1) == delta(k as int) by { let x = a@[0].v(); let y = b@[0].v(); assert(x * y == y * x) by(nonlinear_arith); assert(rv(a@)[0] * rv(b@)[0] == 1real); assert(cv(rv(a@), rv(b@), 0, 1) == cv(rv(a@), rv(b@), 0, 0) + rv(a@)[0] * rv(b@)[0]); }
@at ghost begin 0
    let ghost b0 = rv(b@);
@at end 0
    assert(rv(b@) =~= b0.update(i as int, rv(b@)[i as int]));
    recip_step(rv(a@), b0, rv(b@), i as int, sum.v());
@fn taylor_for_todd(int) as td_todd
@requires 0 <= order < i32::MAX - 3
@ensures ret@.len() == order + 1, rv(ret@) =~= todd((order + 1) as nat)
@invariant 0
    0 <= i <= order + 1, order < i32::MAX - 3, exp@.len() == order + 3, todd_denom@.len() == order + 1,
    forall|i: int| 0 <= i <= order + 2 ==> (#[trigger] exp@[i]).v() == 1real / (fact(i as nat) as real),
    forall|k: int| 0 <= k < i ==> (#[trigger] todd_denom@[k]).v() == -(1real / (fact((k + 1) as nat) as real))
@loopdec 0 order + 1 - i
@at after 0
    assert(rv(todd_denom@) =~= tden((order + 1) as nat));
    assert(fact(1) == 1 * fact(0)); assert(fact(0) == 1); assert(todd_denom@[0].v() == -(1real / 1real));
    assert forall|t: Seq<real>| #[trigger] is_todd(t, (order + 1) as nat) implies t =~= todd((order + 1) as nat) by { todd_unique(t, (order + 1) as nat); }
    assert forall|r: Seq<Q>| r.len() == order + 1 && recip(rv(todd_denom@), rv(r), todd_denom@.len()) implies is_todd(#[trigger] rv(r), (order + 1) as nat) by { }
@fn taylor_product_aux(const mpq_vector &, const mpq_vector &) as td_aux
@requires minl(a@.len(), b@.len()) < i32::MAX
@ensures rv(ret@) =~= cprod(rv(a@), rv(b@))
@invariant 0
    0 <= i <= size, size == minl(a@.len(), b@.len()), result@.len() == size,
    forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).v() == cv(rv(a@), rv(b@), k, (k + 1) as nat)
@loopdec 0 size - i
@invariant 1
    0 <= j <= i + 1, 0 <= i < size, size == minl(a@.len(), b@.len()), size < i32::MAX, sum.v() == cv(rv(a@), rv(b@), i as int, j as nat)
@loopdec 1 i + 1 - j
@fn taylor_product(const vector<mpq_vector> &) as td_prod
@requires forall|i: int| 0 <= i < taylors@.len() ==> (#[trigger] taylors@[i])@.len() < i32::MAX
@ensures rv(ret@) =~= tprod(rvv(taylors@), taylors@.len())
@invariant 0
    1 <= p <= taylors@.len(), forall|i: int| 0 <= i < taylors@.len() ==> (#[trigger] taylors@[i])@.len() < i32::MAX,
    rv(result_2@) =~= tprod(rvv(taylors@), p as nat)
@loopdec 0 taylors@.len() - p
@fn evaluate_todd(const mpz_vector &) as td_eval
@requires x@.len() < i32::MAX - 4
@ensures rv(ret@) =~= toddp(x@)
@invariant 0
    0 <= i <= dimension, dimension == x@.len(), x@.len() < i32::MAX - 4, factor@.len() == x@.len() + 1, rv(factor@) =~= todd((x@.len() + 1) as nat), factors@.len() == x@.len(),
    forall|k: int| 0 <= k < i ==> rv((#[trigger] factors@[k])@) =~= fsc(x@, (x@.len() + 1) as nat)[k]
@loopdec 0 dimension - i
@invariant 1
    0 <= i < dimension, dimension == x@.len(), x@.len() < i32::MAX - 4, factor@.len() == x@.len() + 1, rv(factor@) =~= todd((x@.len() + 1) as nat), factors@.len() == x@.len(),
    forall|k: int| 0 <= k < i ==> rv((#[trigger] factors@[k])@) =~= fsc(x@, (x@.len() + 1) as nat)[k],
    0 <= source <= factor@.len(), dest == source, dest_k == i, factors@[i as int]@.len() == factor@.len(), coefficient.v() == zpow(x@[i as int].v(), source as nat),
    forall|k: int| 0 <= k < source ==> (#[trigger] factors@[i as int]@[k]).v() == zpow(x@[i as int].v(), k as nat) as real * factor@[k].v()
@loopdec 1 factor@.len() - source
@at end 1
    assert(zpow(x@[i as int].v(), (source + 1) as nat) == x@[i as int].v() * zpow(x@[i as int].v(), source as nat));
    assert(x@[i as int].v() * zpow(x@[i as int].v(), source as nat) == zpow(x@[i as int].v(), source as nat) * x@[i as int].v()) by(nonlinear_arith);
@at after 1
    assert(rv(factors@[i as int]@) =~= fsc(x@, (x@.len() + 1) as nat)[i as int]) by { assert forall|k: int| 0 <= k < factor@.len() implies rv(factor@)[k] == #[trigger] factor@[k].v() by {} }
@at after 0
    assert forall|k: int| 0 <= k < factors@.len() implies (#[trigger] factors@[k])@.len() < i32::MAX by { assert(rv(factors@[k]@).len() == fsc(x@, (x@.len() + 1) as nat)[k].len()); }
    tprod_ext(rvv(factors@), fsc(x@, (x@.len() + 1) as nat), x@.len());
