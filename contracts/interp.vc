// Polynomial interpolation by Gauss-Jordan elimination: interpolation/PolynomialInterpolation.cpp
@source interpolation/PolynomialInterpolation.cpp
@rs
// mpq_class with GMP's canonical form made explicit: the pair constructor gives an arbitrary fraction, arithmetic and comparison ask for a canonical one
#[derive(Clone, Copy)]
pub struct Q { pub g: Ghost<real>, pub k: Ghost<bool> }
impl Q { pub open spec fn v(self) -> real { self.g@ } pub open spec fn c(self) -> bool { self.k@ } }
pub fn q_zero() -> (r: Q) ensures r.v() == 0real, r.c() { Q { g: Ghost(0real), k: Ghost(true) } }
pub fn q_of_z(a: Z) -> (r: Q) ensures r.v() == a.v() as real, r.c() { Q { g: Ghost(a.g@ as real), k: Ghost(true) } }
pub fn q_add(a: Q, b: Q) -> (r: Q) requires a.c(), b.c() ensures r.v() == a.v() + b.v(), r.c() { Q { g: Ghost(a.g@ + b.g@), k: Ghost(true) } }
pub fn q_sub(a: Q, b: Q) -> (r: Q) requires a.c(), b.c() ensures r.v() == a.v() - b.v(), r.c() { Q { g: Ghost(a.g@ - b.g@), k: Ghost(true) } }
pub fn q_neg(a: Q) -> (r: Q) requires a.c() ensures r.v() == -a.v(), r.c() { Q { g: Ghost(-a.g@), k: Ghost(true) } }
pub fn q_mul(a: Q, b: Q) -> (r: Q) requires a.c(), b.c() ensures r.v() == a.v() * b.v(), r.c() { Q { g: Ghost(a.g@ * b.g@), k: Ghost(true) } }
pub fn q_div(a: Q, b: Q) -> (r: Q) requires b.v() != 0real, a.c(), b.c() ensures r.v() == a.v() / b.v(), r.c() { Q { g: Ghost(a.g@ / b.g@), k: Ghost(true) } }
pub fn q_frac(a: Z, b: Z) -> (r: Q) requires b.v() != 0 ensures r.v() == (a.v() as real) / (b.v() as real) { Q { g: Ghost((a.g@ as real) / (b.g@ as real)), k: Ghost(false) } }
pub fn q_canon(a: Q) -> (r: Q) ensures r.v() == a.v(), r.c() { Q { g: a.g, k: Ghost(true) } }
#[verifier::external_body]
pub fn q_eq(a: Q, b: Q) -> (r: bool) requires a.c(), b.c() ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_ne(a: Q, b: Q) -> (r: bool) requires a.c(), b.c() ensures r == (a.v() != b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn q_den(a: Q) -> (r: Z) requires a.c() ensures r.v() == dn(a.v()), dn(a.v()) >= 1, a.v() * (dn(a.v()) as real) == nm(a.v()) as real { unimplemented!() }
#[verifier::external_body]
pub fn q_num(a: Q) -> (r: Z) requires a.c() ensures r.v() == nm(a.v()), dn(a.v()) >= 1, a.v() * (dn(a.v()) as real) == nm(a.v()) as real { unimplemented!() }
pub uninterp spec fn dn(x: real) -> int;
pub uninterp spec fn nm(x: real) -> int;
pub open spec fn rv(a: Seq<Q>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i].v()) }
pub open spec fn rvv(f: Seq<Vc<Q>>) -> Seq<Seq<real>> { Seq::new(f.len(), |i: int| rv(f[i]@)) }
pub open spec fn cano(a: Seq<Q>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).c() }
pub open spec fn wfr(r: Vc<Q>, n: int) -> bool { r@.len() == n + 1 && cano(r@) }
pub open spec fn wfm(m: Seq<Vc<Q>>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> wfr(#[trigger] m[i], n) }
pub open spec fn pwf(t: PolynomialInterpolation) -> bool { 1 <= t.colSize == t.rowSize < i32::MAX && wfm(t.matrix@, t.colSize as int) && 0 <= t.initCounter <= t.rowSize }
pub open spec fn pmat(t: PolynomialInterpolation) -> Seq<Seq<real>> { rvv(t.matrix@) }
// the first n entries of a row times a vector
pub open spec fn rdot(r: Seq<real>, y: Seq<real>, n: nat) -> real decreases n { if n == 0 { 0real } else { rdot(r, y, (n - 1) as nat) + r[n - 1] * y[n - 1] } }
// y solves the system (h = 1), or the homogeneous one (h = 0)
pub open spec fn holds(r: Seq<real>, y: Seq<real>, n: nat, h: real) -> bool { rdot(r, y, n) == h * r[n as int] }
pub open spec fn sol(m: Seq<Seq<real>>, y: Seq<real>, n: nat, h: real) -> bool { forall|i: int| 0 <= i < m.len() ==> holds(#[trigger] m[i], y, n, h) }
pub open spec fn same_sol(a: Seq<Seq<real>>, b: Seq<Seq<real>>, n: nat) -> bool { a.len() == b.len() && forall|y: Seq<real>, h: real| #[trigger] sol(a, y, n, h) == sol(b, y, n, h) }
pub open spec fn rscale(r: Seq<real>, c: real) -> Seq<real> { Seq::new(r.len(), |k: int| r[k] * c) }
pub open spec fn rsub(r: Seq<real>, c: real, f: Seq<real>) -> Seq<real> { Seq::new(r.len(), |k: int| r[k] - c * f[k]) }
pub open spec fn swapped(m: Seq<Seq<real>>, a: int, b: int) -> Seq<Seq<real>> { m.update(a, m[b]).update(b, m[a]) }
pub proof fn rdot_scale(r: Seq<real>, c: real, y: Seq<real>, n: nat) requires n <= r.len() ensures rdot(rscale(r, c), y, n) == rdot(r, y, n) * c decreases n
{ if n > 0 { let m = (n - 1) as nat; rdot_scale(r, c, y, m); let a = rdot(r, y, m); let x = r[n - 1]; let z = y[n - 1]; assert(a * c + (x * c) * z == (a + x * z) * c) by(nonlinear_arith); } else { assert(0real * c == 0real) by(nonlinear_arith); } }
pub proof fn rdot_sub(r: Seq<real>, c: real, f: Seq<real>, y: Seq<real>, n: nat) requires n <= r.len() ensures rdot(rsub(r, c, f), y, n) == rdot(r, y, n) - c * rdot(f, y, n) decreases n
{ if n > 0 { let m = (n - 1) as nat; rdot_sub(r, c, f, y, m); let a = rdot(r, y, m); let b = rdot(f, y, m); let x = r[n - 1]; let w = f[n - 1]; let z = y[n - 1]; assert((a - c * b) + (x - c * w) * z == (a + x * z) - c * (b + w * z)) by(nonlinear_arith); } else { assert(c * 0real == 0real) by(nonlinear_arith); } }
pub proof fn hold_scale(r: Seq<real>, c: real, y: Seq<real>, n: nat, h: real) requires n < r.len(), c != 0real ensures holds(rscale(r, c), y, n, h) == holds(r, y, n, h)
{ rdot_scale(r, c, y, n); let d = rdot(r, y, n); let b = r[n as int];
  assert(h * (b * c) == (h * b) * c) by(nonlinear_arith);
  assert((d * c == (h * b) * c) == (d == h * b)) by(nonlinear_arith) requires c != 0real; }
pub proof fn hold_sub(r: Seq<real>, c: real, f: Seq<real>, y: Seq<real>, n: nat, h: real) requires n < r.len(), n < f.len(), holds(f, y, n, h) ensures holds(rsub(r, c, f), y, n, h) == holds(r, y, n, h)
{ rdot_sub(r, c, f, y, n); let d = rdot(f, y, n); let b = f[n as int]; let x = r[n as int];
  assert(c * (h * b) == h * (c * b)) by(nonlinear_arith); assert(h * (x - c * b) == h * x - h * (c * b)) by(nonlinear_arith); }
pub proof fn ss_scale(a: Seq<Seq<real>>, r: int, c: real, n: nat) requires 0 <= r < a.len(), c != 0real, n < a[r].len() ensures same_sol(a, a.update(r, rscale(a[r], c)), n)
{
    let b = a.update(r, rscale(a[r], c));
    assert forall|y: Seq<real>, h: real| #[trigger] sol(a, y, n, h) == sol(b, y, n, h) by {
        hold_scale(a[r], c, y, n, h);
        if sol(a, y, n, h) { assert forall|i: int| 0 <= i < b.len() implies holds(#[trigger] b[i], y, n, h) by { assert(holds(a[i], y, n, h)); } }
        if sol(b, y, n, h) { assert forall|i: int| 0 <= i < a.len() implies holds(#[trigger] a[i], y, n, h) by { assert(holds(b[i], y, n, h)); } }
    }
}
pub proof fn ss_sub(a: Seq<Seq<real>>, f: int, t: int, c: real, n: nat) requires 0 <= f < a.len(), 0 <= t < a.len(), f != t, n < a[f].len(), n < a[t].len() ensures same_sol(a, a.update(t, rsub(a[t], c, a[f])), n)
{
    let b = a.update(t, rsub(a[t], c, a[f]));
    assert forall|y: Seq<real>, h: real| #[trigger] sol(a, y, n, h) == sol(b, y, n, h) by {
        if sol(a, y, n, h) { assert(holds(a[f], y, n, h)); hold_sub(a[t], c, a[f], y, n, h); assert forall|i: int| 0 <= i < b.len() implies holds(#[trigger] b[i], y, n, h) by { assert(holds(a[i], y, n, h)); } }
        if sol(b, y, n, h) { assert(holds(b[f], y, n, h)); hold_sub(a[t], c, a[f], y, n, h); assert(holds(b[t], y, n, h)); assert forall|i: int| 0 <= i < a.len() implies holds(#[trigger] a[i], y, n, h) by { assert(holds(b[i], y, n, h)); } }
    }
}
pub proof fn ss_swap(m: Seq<Seq<real>>, a: int, b: int, n: nat) requires 0 <= a < m.len(), 0 <= b < m.len() ensures same_sol(m, swapped(m, a, b), n)
{
    let q = swapped(m, a, b);
    assert forall|y: Seq<real>, h: real| #[trigger] sol(m, y, n, h) == sol(q, y, n, h) by {
        if sol(m, y, n, h) { assert forall|i: int| 0 <= i < q.len() implies holds(#[trigger] q[i], y, n, h) by { assert(holds(m[a], y, n, h)); assert(holds(m[b], y, n, h)); assert(holds(m[i], y, n, h)); } }
        if sol(q, y, n, h) { assert forall|i: int| 0 <= i < m.len() implies holds(#[trigger] m[i], y, n, h) by { assert(holds(q[a], y, n, h)); assert(holds(q[b], y, n, h)); assert(holds(q[i], y, n, h)); } }
    }
}
pub proof fn ss_trans(a: Seq<Seq<real>>, b: Seq<Seq<real>>, c: Seq<Seq<real>>, n: nat) requires same_sol(a, b, n), same_sol(b, c, n) ensures same_sol(a, c, n)
{ assert forall|y: Seq<real>, h: real| #[trigger] sol(a, y, n, h) == sol(c, y, n, h) by { assert(sol(b, y, n, h) == sol(c, y, n, h)); } }
pub open spec fn dlt(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn ucol(m: Seq<Seq<real>>, j: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])[j] == dlt(i, j) }
pub open spec fn zbelow(m: Seq<Seq<real>>, j: int) -> bool { forall|i: int| j <= i < m.len() ==> (#[trigger] m[i])[j] == 0real }
// elimination has handled c columns with p pivots; f is the first column without one (f = c when all have one)
pub open spec fn est(m: Seq<Seq<real>>, p: int, c: int, f: int) -> bool {
    0 <= f <= p <= c && (f == c || (f < c && p < c && zbelow(m, f))) && forall|j: int| 0 <= j < f ==> #[trigger] ucol(m, j)
}
pub open spec fn isid(m: Seq<Seq<real>>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] ucol(m, j) }
pub open spec fn nonzero(y: Seq<real>, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] y[k] != 0real }
pub open spec fn singular(m: Seq<Seq<real>>, n: nat) -> bool { exists|y: Seq<real>| y.len() == n && nonzero(y, n as int) && #[trigger] sol(m, y, n, 0real) }
pub proof fn sing_same(a: Seq<Seq<real>>, b: Seq<Seq<real>>, n: nat) requires same_sol(a, b, n), singular(b, n) ensures singular(a, n)
{ let y = choose|y: Seq<real>| y.len() == n && nonzero(y, n as int) && #[trigger] sol(b, y, n, 0real); assert(sol(a, y, n, 0real) == sol(b, y, n, 0real)); }
// the null vector of a column without a pivot
pub open spec fn nvec(m: Seq<Seq<real>>, f: int, n: nat) -> Seq<real> { Seq::new(n, |k: int| if k < f { -m[k][f] } else if k == f { 1real } else { 0real }) }
pub proof fn nv_dot(m: Seq<Seq<real>>, f: int, n: nat, i: int, t: nat)
    requires 0 <= f < n, m.len() == n, forall|j: int| 0 <= j < f ==> #[trigger] ucol(m, j), zbelow(m, f), 0 <= i < n, t <= n
    ensures rdot(m[i], nvec(m, f, n), t) == (if i < f && t <= f { if i < t { -m[i][f] } else { 0real } } else { 0real }) decreases t
{
    if t > 0 {
        nv_dot(m, f, n, i, (t - 1) as nat); let k = t - 1; let x = m[i][k]; let z = nvec(m, f, n)[k];
        if k < f { assert(ucol(m, k)); assert(m[i][k] == dlt(i, k)); if i == k { assert(x * z == z) by(nonlinear_arith) requires x == 1real; } else { assert(x * z == 0real) by(nonlinear_arith) requires x == 0real; } }
        else if k == f { assert(x * z == x) by(nonlinear_arith) requires z == 1real; if i >= f { assert(m[i][f] == 0real); } }
        else { assert(x * z == 0real) by(nonlinear_arith) requires z == 0real; }
    }
}
pub proof fn est_sing(m: Seq<Seq<real>>, p: int, f: int, n: nat) requires est(m, p, n as int, f), f < n, m.len() == n ensures singular(m, n)
{
    let y = nvec(m, f, n);
    assert(y[f] == 1real); assert(nonzero(y, n as int));
    assert forall|i: int| 0 <= i < m.len() implies holds(#[trigger] m[i], y, n, 0real) by { nv_dot(m, f, n, i, n); let b = m[i][n as int]; assert(0real * b == 0real) by(nonlinear_arith); }
    assert(sol(m, y, n, 0real));
}
// a unit matrix has the right-hand side as its only solution
pub proof fn id_dot(m: Seq<Seq<real>>, y: Seq<real>, n: nat, i: int, t: nat) requires isid(m, n as int), m.len() == n, 0 <= i < n, t <= n ensures rdot(m[i], y, t) == (if i < t { y[i] } else { 0real }) decreases t
{ if t > 0 { id_dot(m, y, n, i, (t - 1) as nat); assert(ucol(m, t - 1)); let x = m[i][t - 1]; let z = y[t - 1]; assert(x == dlt(i, t - 1)); if i == t - 1 { assert(x * z == z) by(nonlinear_arith) requires x == 1real; } else { assert(x * z == 0real) by(nonlinear_arith) requires x == 0real; } } }
pub proof fn id_sol(m: Seq<Seq<real>>, y: Seq<real>, n: nat) requires isid(m, n as int), m.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] y[i] == m[i][n as int] ensures sol(m, y, n, 1real)
{ assert forall|i: int| 0 <= i < m.len() implies holds(#[trigger] m[i], y, n, 1real) by { id_dot(m, y, n, i, n); assert(y[i] == m[i][n as int]); let b = m[i][n as int]; assert(1real * b == b) by(nonlinear_arith); } }
// ---- polynomials
pub open spec fn rpow(x: real, k: nat) -> real decreases k { if k == 0 { 1real } else { rpow(x, (k - 1) as nat) * x } }
// the coefficients from i on, by Horner's rule
pub open spec fn hor(y: Seq<real>, x: real, i: int) -> real decreases y.len() - i when i <= y.len() { if i == y.len() { 0real } else { y[i] + hor(y, x, i + 1) * x } }
pub open spec fn polyval(y: Seq<real>, x: real) -> real { hor(y, x, 0) }
// row i of the system says that the polynomial takes the value b at x
pub open spec fn vrow(r: Seq<real>, x: real, b: real, n: nat) -> bool { r[n as int] == b && forall|k: int| 0 <= k < n ==> #[trigger] r[k] == rpow(x, k as nat) }
pub open spec fn vmat(m: Seq<Seq<real>>, x: Seq<real>, b: Seq<real>, n: nat) -> bool { x.len() == n && b.len() == n && m.len() == n && forall|i: int| 0 <= i < n ==> vrow(#[trigger] m[i], x[i], b[i], n) }
pub open spec fn fits(y: Seq<real>, x: Seq<real>, b: Seq<real>) -> bool { forall|i: int| 0 <= i < x.len() ==> polyval(y, #[trigger] x[i]) == b[i] }
pub open spec fn distinct(x: Seq<real>) -> bool { forall|i: int, j: int| 0 <= i < j < x.len() ==> #[trigger] x[i] != #[trigger] x[j] }
// rows times powers are polynomial values
pub proof fn dot_hor(r: Seq<real>, y: Seq<real>, x: real, t: nat) requires t <= y.len(), forall|k: int| 0 <= k < y.len() ==> #[trigger] r[k] == rpow(x, k as nat)
    ensures rdot(r, y, t) + rpow(x, t) * hor(y, x, t as int) == polyval(y, x) decreases t
{
    if t == 0 { let h = hor(y, x, 0); assert(1real * h == h) by(nonlinear_arith); }
    else {
        let s = (t - 1) as nat; dot_hor(r, y, x, s); assert(r[s as int] == rpow(x, s));
        let p = rpow(x, s); let h = hor(y, x, t as int); let z = y[s as int];
        assert(p * (z + h * x) == p * z + (p * x) * h) by(nonlinear_arith);
    }
}
pub proof fn row_fit(r: Seq<real>, y: Seq<real>, x: real, b: real, n: nat, h: real) requires vrow(r, x, b, n), y.len() == n ensures holds(r, y, n, h) == (polyval(y, x) == h * b)
{ dot_hor(r, y, x, n); let p = rpow(x, n); assert(hor(y, x, n as int) == 0real); assert(p * 0real == 0real) by(nonlinear_arith); }
pub proof fn sol_fits(m: Seq<Seq<real>>, y: Seq<real>, n: nat) requires sol(m, y, n, 1real), y.len() == n ensures forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(m, x, b, n) ==> fits(y, x, b)
{ assert forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(m, x, b, n) implies fits(y, x, b) by { assert forall|i: int| 0 <= i < x.len() implies polyval(y, #[trigger] x[i]) == b[i] by { assert(vrow(m[i], x[i], b[i], n)); row_fit(m[i], y, x[i], b[i], n, 1real); assert(holds(m[i], y, n, 1real)); let c = b[i]; assert(1real * c == c) by(nonlinear_arith); } } }
// division of a polynomial by X - a: q[k] = value of the Horner scheme at a from k + 1 on
pub open spec fn quo(y: Seq<real>, a: real) -> Seq<real> { Seq::new((y.len() - 1) as nat, |k: int| hor(y, a, k + 1)) }
pub proof fn quo_val(y: Seq<real>, a: real, x: real, i: int) requires 0 <= i < y.len() ensures hor(y, x, i) == hor(y, a, i) + (x - a) * hor(quo(y, a), x, i) decreases y.len() - i
{
    let q = quo(y, a);
    if i == y.len() - 1 { assert(hor(y, x, i + 1) == 0real); assert(hor(y, a, i + 1) == 0real); assert(hor(q, x, i) == 0real); assert((x - a) * 0real == 0real) by(nonlinear_arith); assert(0real * x == 0real) by(nonlinear_arith); assert(0real * a == 0real) by(nonlinear_arith); }
    else {
        quo_val(y, a, x, i + 1);
        let u = hor(y, a, i + 1); let w = hor(q, x, i + 1); assert(q[i] == u);
        let e = x - a;
        assert((u + e * w) * x == u * x + e * (w * x)) by(nonlinear_arith);
        assert(e * (u + w * x) == e * u + e * (w * x)) by(nonlinear_arith);
        assert(e * u == u * x - u * a) by(nonlinear_arith) requires e == x - a;
    }
}
pub proof fn quo_zero(y: Seq<real>, a: real, k: int) requires 0 <= k < y.len(), hor(y, a, 0) == 0real, forall|j: int| 0 <= j < y.len() - 1 ==> #[trigger] quo(y, a)[j] == 0real ensures y[k] == 0real
{
    if k == 0 { if y.len() > 1 { assert(quo(y, a)[0] == 0real); } else { assert(hor(y, a, 1) == 0real); } assert(0real * a == 0real) by(nonlinear_arith); }
    else { assert(quo(y, a)[k - 1] == 0real); assert(hor(y, a, k) == 0real); if k < y.len() - 1 { assert(quo(y, a)[k] == 0real); } assert(hor(y, a, k + 1) == 0real); assert(0real * a == 0real) by(nonlinear_arith); }
}
// a polynomial with as many distinct roots as coefficients is zero
pub proof fn roots_zero(y: Seq<real>, x: Seq<real>) requires y.len() == x.len(), distinct(x), forall|i: int| 0 <= i < x.len() ==> polyval(y, #[trigger] x[i]) == 0real ensures forall|k: int| 0 <= k < y.len() ==> #[trigger] y[k] == 0real decreases y.len()
{
    if y.len() > 0 {
        let n = y.len() - 1; let a = x[n]; let q = quo(y, a); let z = x.take(n);
        assert(polyval(y, a) == 0real);
        assert forall|i: int| 0 <= i < z.len() implies polyval(q, #[trigger] z[i]) == 0real by {
            quo_val(y, a, x[i], 0); let e = x[i] - a; let w = hor(q, x[i], 0); assert(x[i] != x[n]);
            assert(polyval(y, x[i]) == 0real);
            assert(w == 0real) by(nonlinear_arith) requires e * w == 0real, e != 0real;
        }
        assert(distinct(z)) by { assert forall|i: int, j: int| 0 <= i < j < z.len() implies #[trigger] z[i] != #[trigger] z[j] by { assert(x[i] != x[j]); } }
        roots_zero(q, z);
        assert forall|k: int| 0 <= k < y.len() implies #[trigger] y[k] == 0real by { quo_zero(y, a, k); }
    }
}
pub open spec fn clash(m: Seq<Seq<real>>, n: nat) -> bool { forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(m, x, b, n) ==> !distinct(x) }
pub proof fn sing_clash(m: Seq<Seq<real>>, n: nat) requires singular(m, n) ensures clash(m, n)
{
    let y = choose|y: Seq<real>| y.len() == n && nonzero(y, n as int) && #[trigger] sol(m, y, n, 0real);
    assert forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(m, x, b, n) implies !distinct(x) by {
        if distinct(x) {
            assert forall|i: int| 0 <= i < x.len() implies polyval(y, #[trigger] x[i]) == 0real by { assert(vrow(m[i], x[i], b[i], n)); row_fit(m[i], y, x[i], b[i], n, 0real); assert(holds(m[i], y, n, 0real)); let c = b[i]; assert(0real * c == 0real) by(nonlinear_arith); }
            roots_zero(y, x);
            let k = choose|k: int| 0 <= k < n && #[trigger] y[k] != 0real;
        }
    }
}
pub proof fn est_swap(m: Seq<Seq<real>>, a: int, b: int, p: int, c: int, f: int) requires est(m, p, c, f), p <= a < m.len(), p <= b < m.len() ensures est(swapped(m, a, b), p, c, f)
{ let q = swapped(m, a, b); assert forall|j: int| 0 <= j < f implies #[trigger] ucol(q, j) by { assert(ucol(m, j)); assert(m[a][j] == dlt(a, j)); assert(m[b][j] == dlt(b, j)); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i])[j] == dlt(i, j) by { assert(m[i][j] == dlt(i, j)); } }
  if f < c { assert(m[a][f] == 0real); assert(m[b][f] == 0real); assert forall|i: int| f <= i < q.len() implies (#[trigger] q[i])[f] == 0real by { assert(m[i][f] == 0real); } } }
pub proof fn est_upd(m: Seq<Seq<real>>, t: int, r: Seq<real>, p: int, c: int, f: int) requires est(m, p, c, f), 0 <= t < m.len(), forall|j: int| 0 <= j < f || (j == f && f < c) ==> #[trigger] r[j] == m[t][j] ensures est(m.update(t, r), p, c, f)
{ let q = m.update(t, r); assert forall|j: int| 0 <= j < f implies #[trigger] ucol(q, j) by { assert(ucol(m, j)); assert(r[j] == m[t][j]); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i])[j] == dlt(i, j) by { assert(m[i][j] == dlt(i, j)); } }
  if f < c { assert(r[f] == m[t][f]); assert forall|i: int| f <= i < q.len() implies (#[trigger] q[i])[f] == 0real by { assert(m[i][f] == 0real); } } }
pub proof fn est_row(m: Seq<Seq<real>>, p: int, c: int, f: int, j: int) requires est(m, p, c, f), p < m.len(), 0 <= j < f || (j == f && f < c) ensures m[p][j] == 0real
{ if j < f { assert(ucol(m, j)); assert(m[p][j] == dlt(p, j)); } }
pub proof fn est_scale(m: Seq<Seq<real>>, k: real, p: int, c: int, f: int) requires est(m, p, c, f), p < m.len(), c < m[p].len() ensures est(m.update(p, rscale(m[p], k)), p, c, f)
{ let r = rscale(m[p], k); assert forall|j: int| 0 <= j < f || (j == f && f < c) implies #[trigger] r[j] == m[p][j] by { est_row(m, p, c, f, j); assert(0real * k == 0real) by(nonlinear_arith); } est_upd(m, p, r, p, c, f); }
pub proof fn est_sub(m: Seq<Seq<real>>, t: int, v: real, p: int, c: int, f: int) requires est(m, p, c, f), p < m.len(), 0 <= t < m.len(), c < m[t].len() ensures est(m.update(t, rsub(m[t], v, m[p])), p, c, f)
{ let r = rsub(m[t], v, m[p]); assert forall|j: int| 0 <= j < f || (j == f && f < c) implies #[trigger] r[j] == m[t][j] by { est_row(m, p, c, f, j); assert(v * 0real == 0real) by(nonlinear_arith); } est_upd(m, t, r, p, c, f); }
pub open spec fn nextf(c: int, f: int) -> int { if f == c { c + 1 } else { f } }
pub proof fn est_next(m: Seq<Seq<real>>, p: int, c: int, f: int) requires est(m, p, c, f), p < m.len(), m[p][c] == 1real, forall|i: int| 0 <= i < m.len() && i != p ==> (#[trigger] m[i])[c] == 0real ensures est(m, p + 1, c + 1, nextf(c, f))
{ if f == c { assert(ucol(m, c)); } }
pub proof fn inv1(n: int, d: int, v: real) requires d >= 1, v != 0real, v * (d as real) == n as real ensures n != 0, v * ((d as real) / (n as real)) == 1real, (d as real) / (n as real) != 0real
{ let x = d as real; let y = n as real; assert(y != 0real) by(nonlinear_arith) requires v * x == y, v != 0real, x >= 1real; let z = x / y; assert(z * y == x) by(nonlinear_arith) requires z == x / y, y != 0real;
  assert(z * (v * x) == x); assert(z * (v * x) == (v * z) * x) by(nonlinear_arith); let w = v * z; assert(w == 1real) by(nonlinear_arith) requires w * x == x, x >= 1real; assert(z != 0real) by(nonlinear_arith) requires v * z == 1real; }
pub proof fn fr1(n: int, d: int, v: real) requires d >= 1, v * (d as real) == n as real ensures (n as real) / (d as real) == v
{ let x = d as real; assert((v * x) / x == v) by(nonlinear_arith) requires x >= 1real; }
@end
@struct PolynomialInterpolation from interpolation/PolynomialInterpolation.h
@fn PolynomialInterpolation::PolynomialInterpolation(unsigned int) as pi_new
@requires degree < i32::MAX - 1
@ensures pwf(ret), ret.colSize == degree + 1, ret.initCounter == 0
@invariant 0
  0 <= row <= this.rowSize, 1 <= this.rowSize == this.colSize == degree + 1 < i32::MAX, this.initCounter == 0, this.matrix@.len() == this.rowSize,
  forall|i: int| 0 <= i < row ==> wfr(#[trigger] this.matrix@[i], this.colSize as int)
@loopdec 0 this.rowSize - row
@invariant 1
  0 <= row < this.rowSize, 0 <= col <= this.colSize + 1, 1 <= this.rowSize == this.colSize == degree + 1 < i32::MAX, this.initCounter == 0, this.matrix@.len() == this.rowSize,
  forall|i: int| 0 <= i < row ==> wfr(#[trigger] this.matrix@[i], this.colSize as int),
  this.matrix@[row as int]@.len() == this.colSize + 1, forall|k: int| 0 <= k < col ==> (#[trigger] this.matrix@[row as int]@[k]).c()
@loopdec 1 this.colSize + 1 - col
@fn PolynomialInterpolation::addMultRows(mpq_class &, int, int) as pi_addmul
@requires pwf(this), 0 <= fromRow < this.rowSize, 0 <= toRow < this.rowSize, fromRow != toRow
@ensures pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter, value.v() == value0.v(), value.c()
@ensures pmat(this) == pmat(this0).update(toRow as int, rsub(pmat(this0)[toRow as int], value.v(), pmat(this0)[fromRow as int]))
@invariant 0
  0 <= i <= this.colSize + 1, pwf(this), this.colSize == this0.colSize, this.rowSize == this0.rowSize, this.initCounter == this0.initCounter, value.v() == value0.v(), value.c(), 0 <= fromRow < this.rowSize, 0 <= toRow < this.rowSize, fromRow != toRow,
  forall|r: int| 0 <= r < this.rowSize && r != toRow ==> #[trigger] this.matrix@[r] == this0.matrix@[r],
  forall|k: int| 0 <= k < i ==> (#[trigger] this.matrix@[toRow as int]@[k]).v() == this0.matrix@[toRow as int]@[k].v() - value.v() * this0.matrix@[fromRow as int]@[k].v(),
  forall|k: int| i <= k <= this.colSize ==> #[trigger] this.matrix@[toRow as int]@[k] == this0.matrix@[toRow as int]@[k]
@loopdec 0 this.colSize + 1 - i
@at after 0
  let want = pmat(this0).update(toRow as int, rsub(pmat(this0)[toRow as int], value.v(), pmat(this0)[fromRow as int]));
  assert(pmat(this).len() == want.len());
  assert forall|r: int| 0 <= r < this.rowSize implies #[trigger] pmat(this)[r] == want[r] by { if r == toRow { assert(this.matrix@[r]@.len() == this.colSize + 1); assert(this0.matrix@[r]@.len() == this.colSize + 1); assert(pmat(this)[r] =~= want[r]); } else { assert(this.matrix@[r] == this0.matrix@[r]); } }
  assert(pmat(this) =~= want);
@fn PolynomialInterpolation::timesRow(int, mpq_class) as pi_times
@requires pwf(this), 0 <= row < this.rowSize
@ensures pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter
@ensures pmat(this) == pmat(this0).update(row as int, rscale(pmat(this0)[row as int], value0.v()))
@invariant 0
  0 <= i <= this.colSize + 1, pwf(this), this.colSize == this0.colSize, this.rowSize == this0.rowSize, this.initCounter == this0.initCounter, value.v() == value0.v(), value.c(), 0 <= row < this.rowSize,
  forall|r: int| 0 <= r < this.rowSize && r != row ==> #[trigger] this.matrix@[r] == this0.matrix@[r],
  forall|k: int| 0 <= k < i ==> (#[trigger] this.matrix@[row as int]@[k]).v() == this0.matrix@[row as int]@[k].v() * value.v(),
  forall|k: int| i <= k <= this.colSize ==> #[trigger] this.matrix@[row as int]@[k] == this0.matrix@[row as int]@[k]
@loopdec 0 this.colSize + 1 - i
@at after 0
  let want = pmat(this0).update(row as int, rscale(pmat(this0)[row as int], value.v()));
  assert(pmat(this).len() == want.len());
  assert forall|r: int| 0 <= r < this.rowSize implies #[trigger] pmat(this)[r] == want[r] by { if r == row { assert(this.matrix@[r]@.len() == this.colSize + 1); assert(this0.matrix@[r]@.len() == this.colSize + 1); assert(pmat(this)[r] =~= want[r]); } else { assert(this.matrix@[r] == this0.matrix@[r]); } }
  assert(pmat(this) =~= want);
@fn PolynomialInterpolation::swap(int, int) as pi_swap
@requires pwf(this), 0 <= a < this.rowSize, 0 <= b < this.rowSize
@ensures pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter
@ensures pmat(this) == swapped(pmat(this0), a as int, b as int)
@at exit
  assert(pmat(this) =~= swapped(pmat(this0), a as int, b as int));
@fn PolynomialInterpolation::isSingular() as pi_sing
@requires pwf(this)
@ensures this == this0, ret == !isid(pmat(this), this.rowSize as int)
@invariant 0
  0 <= i <= this.rowSize, pwf(this), forall|r: int, k: int| 0 <= r < i && 0 <= k < this.colSize ==> #[trigger] this.matrix@[r]@[k].v() == dlt(r, k)
@loopdec 0 this.rowSize - i
@invariant 1
  0 <= i < this.rowSize, 0 <= k <= this.colSize, pwf(this), forall|r: int, k: int| 0 <= r < i && 0 <= k < this.colSize ==> #[trigger] this.matrix@[r]@[k].v() == dlt(r, k),
  forall|q: int| 0 <= q < k ==> #[trigger] this.matrix@[i as int]@[q].v() == dlt(i as int, q)
@loopdec 1 this.colSize - k
@at begin 1
  if this.matrix@[i as int]@[k as int].v() != dlt(i as int, k as int) { assert(pmat(this)[i as int][k as int] != dlt(i as int, k as int)); assert(!ucol(pmat(this), k as int)); }
@at exit
  if !ret { assert forall|j: int| 0 <= j < this.rowSize implies #[trigger] ucol(pmat(this), j) by { assert forall|i: int| 0 <= i < pmat(this).len() implies (#[trigger] pmat(this)[i])[j] == dlt(i, j) by { assert(this.matrix@[i]@[j].v() == dlt(i, j)); } } }
@fn PolynomialInterpolation::addPoint(mpq_class, mpq_class) as pi_add
@requires pwf(this)
@aborts this0.initCounter >= this0.rowSize
@ensures pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter + 1
@ensures forall|i: int| 0 <= i < this.rowSize && i != this0.initCounter ==> #[trigger] pmat(this)[i] == pmat(this0)[i]
@ensures vrow(pmat(this)[this0.initCounter as int], x0.v(), f0.v(), this.rowSize as nat)
@invariant 0
  0 <= col <= this.colSize, pwf(this), this.colSize == this0.colSize, this.rowSize == this0.rowSize, this.initCounter == this0.initCounter, this.initCounter < this.rowSize, x.v() == x0.v(), f.v() == f0.v(), x.c(), f.c(),
  powerOfx.c(), powerOfx.v() == rpow(x.v(), col as nat), forall|r: int| 0 <= r < this.rowSize && r != this0.initCounter ==> #[trigger] this.matrix@[r] == this0.matrix@[r],
  forall|k: int| 0 <= k < col ==> (#[trigger] this.matrix@[this0.initCounter as int]@[k]).v() == rpow(x.v(), k as nat)
@loopdec 0 this.colSize - col
@at exit
  assert forall|i: int| 0 <= i < this.rowSize && i != this0.initCounter implies #[trigger] pmat(this)[i] == pmat(this0)[i] by { assert(this.matrix@[i] == this0.matrix@[i]); }
@fn PolynomialInterpolation::GE() as pi_ge
@requires pwf(this)
@ensures pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter, same_sol(pmat(this0), pmat(this), this.rowSize as nat)
@ensures isid(pmat(this), this.rowSize as int) || singular(pmat(this0), this.rowSize as nat)
@at ghost entry
  let ghost mut ff = 0int;
@at before 0
  assert(same_sol(pmat(this0), pmat(this), this.rowSize as nat));
@invariant 0
  pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter, 0 <= perfectRow <= currentColumn <= this.colSize, same_sol(pmat(this0), pmat(this), this.rowSize as nat), est(pmat(this), perfectRow as int, currentColumn as int, ff)
@loopdec 0 this.colSize - currentColumn
@invariant 1
  pwf(this), 0 <= currentColumn < this.colSize, 0 <= perfectRow <= currentRow <= this.rowSize, perfectRow < this.rowSize, forall|i: int| perfectRow <= i < currentRow ==> (#[trigger] pmat(this)[i])[currentColumn as int] == 0real
@loopdec 1 this.rowSize - currentRow
@at after 1
  if currentRow < this.rowSize {
    assert(pmat(this)[currentRow as int][currentColumn as int] != 0real);
    assert(swapped(pmat(this), currentRow as int, perfectRow as int)[perfectRow as int] == pmat(this)[currentRow as int]);
    est_swap(pmat(this), currentRow as int, perfectRow as int, perfectRow as int, currentColumn as int, ff);
    ss_swap(pmat(this), currentRow as int, perfectRow as int, this.rowSize as nat);
    ss_trans(pmat(this0), pmat(this), swapped(pmat(this), currentRow as int, perfectRow as int), this.rowSize as nat);
  }
@at after /pi_swap\(/
  assert(pmat(this)[perfectRow as int][currentColumn as int] != 0real);
@at after /pi_times\(/
  assert(pmat(this)[perfectRow as int][currentColumn as int] == 1real);
@at after /pi_addmul\(/
  assert(pmat(this)[i as int][currentColumn as int] == 0real);
@at ghost before /pi_times\(/
  let ghost m1 = pmat(this);
  proof { let v = m1[perfectRow as int][currentColumn as int]; if dn(v) >= 1 && v * (dn(v) as real) == nm(v) as real { inv1(nm(v), dn(v), v); let k = (dn(v) as real) / (nm(v) as real); est_scale(m1, k, perfectRow as int, currentColumn as int, ff); ss_scale(m1, perfectRow as int, k, this.rowSize as nat); ss_trans(pmat(this0), m1, m1.update(perfectRow as int, rscale(m1[perfectRow as int], k)), this.rowSize as nat); } }
@invariant 2
  pwf(this), this.colSize == this0.colSize, this.initCounter == this0.initCounter, 0 <= i <= this.rowSize, 0 <= perfectRow <= currentColumn < this.colSize, same_sol(pmat(this0), pmat(this), this.rowSize as nat), est(pmat(this), perfectRow as int, currentColumn as int, ff),
  pmat(this)[perfectRow as int][currentColumn as int] == 1real, forall|r: int| 0 <= r < i && r != perfectRow ==> (#[trigger] pmat(this)[r])[currentColumn as int] == 0real
@loopdec 2 this.rowSize - i
@at ghost begin 2
  let ghost m2 = pmat(this);
@at before /pi_addmul\(/
  let v = m2[i as int][currentColumn as int]; fr1(nm(v), dn(v), v); est_sub(m2, i as int, v, perfectRow as int, currentColumn as int, ff); ss_sub(m2, perfectRow as int, i as int, v, this.rowSize as nat);
  ss_trans(pmat(this0), m2, m2.update(i as int, rsub(m2[i as int], v, m2[perfectRow as int])), this.rowSize as nat);
  assert(v * 1real == v) by(nonlinear_arith);
@at after 2
  est_next(pmat(this), perfectRow as int, currentColumn as int, ff); ff = nextf(currentColumn as int, ff);
@at exit
  if ff < this.colSize { est_sing(pmat(this), perfectRow as int, ff, this.rowSize as nat); sing_same(pmat(this0), pmat(this), this.rowSize as nat); }
@extern PolynomialInterpolation::printMatrix() const as pi_print
@requires pwf(this)
@fn PolynomialInterpolation::getSolutionVector() as pi_answer
@requires pwf(this)
@aborts !isid(pmat(this0), this0.rowSize as int)
@ensures this == this0, ret@.len() == this.rowSize, forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).v() == pmat(this)[i][this.rowSize as int]
@ensures isid(pmat(this), this.rowSize as int), cano(ret@)
@invariant 0
  0 <= i <= this.rowSize, this == this0, pwf(this), answer@.len() == this.rowSize, cano(answer@), forall|k: int| 0 <= k < i ==> (#[trigger] answer@[k]).v() == pmat(this)[k][this.rowSize as int]
@loopdec 0 this.rowSize - i
@fn PolynomialInterpolation::solve() as pi_solve
@requires pwf(this)
@aborts clash(pmat(this0), this0.rowSize as nat)
@ensures ret@.len() == this.rowSize, cano(ret@), sol(pmat(this0), rv(ret@), this.rowSize as nat, 1real)
@ensures forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(pmat(this0), x, b, this.rowSize as nat) ==> fits(rv(ret@), x, b)
@at after /pi_ge\(/
  if singular(pmat(this0), this0.rowSize as nat) { sing_clash(pmat(this0), this0.rowSize as nat); }
  assert(isid(pmat(this), this.rowSize as int) || clash(pmat(this0), this0.rowSize as nat));
  if isid(pmat(this), this.rowSize as int) { let n = this.rowSize as nat;
    assert forall|r: Seq<Q>| r.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).v() == pmat(this)[i][n as int]) implies sol(pmat(this0), #[trigger] rv(r), n, 1real) && (forall|x: Seq<real>, b: Seq<real>| #[trigger] vmat(pmat(this0), x, b, n) ==> fits(rv(r), x, b)) by {
      let y = rv(r); assert forall|i: int| 0 <= i < n implies #[trigger] y[i] == pmat(this)[i][n as int] by { assert(r[i].v() == pmat(this)[i][n as int]); }
      id_sol(pmat(this), y, n); assert(sol(pmat(this0), y, n, 1real) == sol(pmat(this), y, n, 1real)); sol_fits(pmat(this0), y, n); }
  }
@fn PolynomialInterpolation::evaluatePoly(mpq_class const &, vector<mpq_class> const &) as pi_eval
@requires 1 <= poly@.len() < i32::MAX, xValue.c(), cano(poly@)
@ensures this == this0, ret.v() == polyval(rv(poly@), xValue.v())
@invariant 0
  0 <= i < poly@.len() < i32::MAX, xValue.c(), cano(poly@), sum.c(), sum.v() == hor(rv(poly@), xValue.v(), i + 1) * xValue.v()
@loopdec 0 i
@at before 0
  assert(hor(rv(poly@), xValue.v(), poly@.len() as int) == 0real); let xx = xValue.v(); assert(0real * xx == 0real) by(nonlinear_arith);
@fn PolynomialInterpolation::operator=(const PolynomialInterpolation &) as pi_assign returns_this
@requires pwf(rhs)
@ensures pwf(this), this.colSize == rhs.colSize, this.initCounter == rhs.initCounter, pmat(this) == pmat(rhs)
@invariant 0
  0 <= row <= this.rowSize, pwf(rhs), this.colSize == rhs.colSize, this.rowSize == rhs.rowSize, this.initCounter == rhs.initCounter, this.matrix@.len() == this.rowSize,
  forall|i: int| 0 <= i < row ==> wfr(#[trigger] this.matrix@[i], this.colSize as int),
  forall|i: int| 0 <= i < row ==> rv((#[trigger] this.matrix@[i])@) =~= rv(rhs.matrix@[i]@)
@loopdec 0 this.rowSize - row
@invariant 1
  0 <= row < this.rowSize, 0 <= col <= this.colSize + 1, pwf(rhs), this.colSize == rhs.colSize, this.rowSize == rhs.rowSize, this.initCounter == rhs.initCounter, this.matrix@.len() == this.rowSize,
  forall|i: int| 0 <= i < row ==> wfr(#[trigger] this.matrix@[i], this.colSize as int),
  forall|i: int| 0 <= i < row ==> rv((#[trigger] this.matrix@[i])@) =~= rv(rhs.matrix@[i]@),
  this.matrix@[row as int]@.len() == this.colSize + 1, forall|k: int| 0 <= k < col ==> (#[trigger] this.matrix@[row as int]@[k]) == rhs.matrix@[row as int]@[k]
@loopdec 1 this.colSize + 1 - col
@at begin 1
  assert(wfr(rhs.matrix@[row as int], rhs.colSize as int));
@at after 1
  assert(wfr(rhs.matrix@[row as int], rhs.colSize as int)); assert(cano(this.matrix@[row as int]@)); assert(rv(this.matrix@[row as int]@) =~= rv(rhs.matrix@[row as int]@));
@at after 0
  assert(pmat(this) =~= pmat(rhs));
