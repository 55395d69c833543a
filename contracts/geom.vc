@include linalg.vc
@rs
// ---- cones and generic points
// a real point x, seen through integer functionals
pub open spec fn fdot(f: Seq<Z>, x: Seq<real>, n: nat) -> real decreases n { if n == 0 { 0real } else { fdot(f, x, (n - 1) as nat) + (f[n - 1].v() as real) * x[n - 1] } }
pub open spec fn nonz(f: Seq<Z>, n: nat) -> bool { exists|k: int| 0 <= k < n && (#[trigger] f[k]).v() != 0 }
// x lies on no rational hyperplane
pub open spec fn generic(x: Seq<real>, n: nat) -> bool { x.len() == n && forall|f: Seq<Z>| f.len() == n && nonz(f, n) ==> #[trigger] fdot(f, x, n) != 0real }
pub open spec fn cof(R: Seq<Vc<Z>>, j: int) -> Seq<Z> { Seq::new(R.len(), |k: int| mkz(mdet(R.update(j, ev(R.len(), k))))) }
// determinant with row j replaced by x; by Cramer's rule x = sum over j of cx(R,j,x)/det(R) * R[j]
pub open spec fn cx(R: Seq<Vc<Z>>, j: int, x: Seq<real>) -> real { fdot(cof(R, j), x, R.len()) }
// x is in the open cone spanned by the rows of R (all coordinates positive)
pub open spec fn inside(R: Seq<Vc<Z>>, x: Seq<real>) -> bool { forall|j: int| 0 <= j < R.len() ==> #[trigger] cx(R, j, x) * (mdet(R) as real) > 0real }
pub open spec fn ind(R: Seq<Vc<Z>>, x: Seq<real>) -> int { if inside(R, x) { 1 } else { 0 } }
pub open spec fn sgi(a: int) -> int { if a > 0 { 1 } else if a < 0 { -1 } else { 0 } }
pub proof fn fdot_three(a: int, f: Seq<Z>, b: int, g: Seq<Z>, c: int, h: Seq<Z>, x: Seq<real>, n: nat)
    requires forall|k: int| 0 <= k < n ==> a * (#[trigger] f[k]).v() == g[k].v() * b - h[k].v() * c
    ensures (a as real) * fdot(f, x, n) == fdot(g, x, n) * (b as real) - fdot(h, x, n) * (c as real) decreases n
{
    if n > 0 {
        fdot_three(a, f, b, g, c, h, x, (n - 1) as nat);
        let p = fdot(f, x, (n - 1) as nat); let q = fdot(g, x, (n - 1) as nat); let r = fdot(h, x, (n - 1) as nat);
        let fi = f[n - 1].v(); let gi = g[n - 1].v(); let hi = h[n - 1].v(); let t = x[n - 1];
        assert(a * fi == gi * b - hi * c);
        cast3(a, fi, gi, b, hi, c);
        let ra = a as real; let rb = b as real; let rc = c as real; let rf = fi as real; let rg = gi as real; let rh = hi as real;
        rdist(ra, p, rf, t); rdist2(q, rg, t, rb); rdist2(r, rh, t, rc); rsubm(rg * rb, rh * rc, t);
    } else { let ra = a as real; let rb = b as real; let rc = c as real; assert(ra * 0real == 0real && 0real * rb == 0real && 0real * rc == 0real) by(nonlinear_arith); }
}
pub proof fn rdist(a: real, p: real, f: real, t: real) ensures a * (p + f * t) == a * p + (a * f) * t { assert(a * (p + f * t) == a * p + (a * f) * t) by(nonlinear_arith); }
pub proof fn rdist2(q: real, g: real, t: real, b: real) ensures (q + g * t) * b == q * b + (g * b) * t { assert((q + g * t) * b == q * b + (g * b) * t) by(nonlinear_arith); }
pub proof fn rsubm(a: real, b: real, t: real) ensures (a - b) * t == a * t - b * t { assert((a - b) * t == a * t - b * t) by(nonlinear_arith); }
pub proof fn castm(a: int, b: int) ensures ((a * b) as real) == (a as real) * (b as real) { assert(((a * b) as real) == (a as real) * (b as real)) by(nonlinear_arith); }
pub proof fn cast3(a: int, fi: int, gi: int, b: int, hi: int, c: int) requires a * fi == gi * b - hi * c ensures (a as real) * (fi as real) == (gi as real) * (b as real) - (hi as real) * (c as real)
{ castm(a, fi); castm(gi, b); castm(hi, c); assert(((gi * b - hi * c) as real) == ((gi * b) as real) - ((hi * c) as real)); }
// the coordinate functionals of a nonsingular matrix do not vanish
pub proof fn cof_nz(R: Seq<Vc<Z>>, j: int, x: Seq<real>) requires sqm(R), mdet(R) != 0, 0 <= j < R.len(), generic(x, R.len()) ensures cx(R, j, x) != 0real
{ let n = R.len(); let f = cof(R, j);
  assert(nonz(f, n)) by { if !nonz(f, n) {
      assert(R[j]@.len() == n); det_expand(R, j, R[j]); det_samerow(R, j, j);
      let X = adj(R); assert forall|k: int| 0 <= k < n implies (#[trigger] X[k])@[j].v() == 0 by { assert(f[k].v() == 0); }
      dot_zcol(R[j]@, X, j, n); } }
  assert(fdot(f, x, n) != 0real); }
pub proof fn dot_zcol(a: Seq<Z>, X: Seq<Vc<Z>>, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] X[i])@[j].v() == 0 ensures dotcol(a, X, j, n) == 0 decreases n
{ if n > 0 { dot_zcol(a, X, j, (n - 1) as nat); let y = a[n - 1].v(); assert(X[n - 1]@[j].v() == 0); assert(y * 0 == 0); } }
// coordinates after replacing row i by w
pub proof fn cx_child(R: Seq<Vc<Z>>, w: Vc<Z>, i: int, j: int, x: Seq<real>)
    requires sqm(R), mdet(R) != 0, w@.len() == R.len(), 0 <= i < R.len(), 0 <= j < R.len()
    ensures i == j ==> cx(R.update(i, w), j, x) == cx(R, j, x),
        i != j ==> (mdet(R) as real) * cx(R.update(i, w), j, x) == cx(R, j, x) * (mdet(R.update(i, w)) as real) - cx(R, i, x) * (mdet(R.update(j, w)) as real)
{
    let n = R.len(); let M = R.update(i, w);
    if i == j { assert(cof(M, j) =~= cof(R, j)) by { assert forall|k: int| 0 <= k < n implies cof(M, j)[k] == cof(R, j)[k] by { assert(M.update(j, ev(n, k)) =~= R.update(j, ev(n, k))); } } }
    else {
        assert forall|k: int| 0 <= k < n implies mdet(R) * (#[trigger] cof(M, j)[k]).v() == cof(R, j)[k].v() * mdet(M) - cof(R, i)[k].v() * mdet(R.update(j, w)) by { three_term(R, w, i, j, k); }
        fdot_three(mdet(R), cof(M, j), mdet(M), cof(R, j), mdet(R.update(j, w)), cof(R, i), x, n);
    }
}
// ---- abstract form of the decomposition: numbers c_j (coordinates of x), d_j (coordinates of w), both times det
pub open spec fn ks(c: Seq<real>, d: Seq<int>, D: int, i: int, j: int) -> bool { // condition of row j in child i, scaled by D
    if j == i { c[i] * (d[i] as real) > 0real } else { ((c[j] * (d[i] as real) - c[i] * (d[j] as real)) * (d[i] as real)) * (D as real) > 0real }
}
pub open spec fn kin(c: Seq<real>, d: Seq<int>, D: int, i: int) -> bool { forall|j: int| 0 <= j < c.len() ==> #[trigger] ks(c, d, D, i, j) }
pub open spec fn pin(c: Seq<real>, D: int) -> bool { forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] * (D as real) > 0real }
pub open spec fn pv(c: Seq<real>, d: Seq<int>, i: int) -> real { c[i] / (d[i] as real) }
pub open spec fn ispos(d: Seq<int>, D: int, i: int) -> bool { d[i] * D > 0 }
pub open spec fn isneg(d: Seq<int>, D: int, i: int) -> bool { d[i] * D < 0 }
pub proof fn rsq(d: real) requires d != 0real ensures d * d > 0real { assert(d * d > 0real) by(nonlinear_arith) requires d != 0real; }
pub proof fn rsign(a: real, b: real) requires b > 0real ensures (a * b > 0real) == (a > 0real), (a * b < 0real) == (a < 0real)
{ if a > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; } else if a < 0real { assert(a * b < 0real) by(nonlinear_arith) requires a < 0real, b > 0real; } else { assert(a * b == 0real) by(nonlinear_arith) requires a == 0real; } }
pub proof fn rsign_neg(a: real, b: real) requires b < 0real ensures (a * b > 0real) == (a < 0real), (a * b < 0real) == (a > 0real)
{ if a > 0real { assert(a * b < 0real) by(nonlinear_arith) requires a > 0real, b < 0real; } else if a < 0real { assert(a * b > 0real) by(nonlinear_arith) requires a < 0real, b < 0real; } else { assert(a * b == 0real) by(nonlinear_arith) requires a == 0real; } }
pub proof fn rdiv(a: real, b: real) requires b != 0real ensures (a / b) * b == a { assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real; }
pub proof fn rassoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), (a * b) * c == (a * c) * b { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
pub proof fn rcomm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn ks_self(c: Seq<real>, d: Seq<int>, D: int, i: int) requires d[i] != 0 ensures ks(c, d, D, i, i) == (pv(c, d, i) > 0real)
{ let r = d[i] as real; let p = pv(c, d, i); rdiv(c[i], r); rassoc(p, r, r); rsq(r); rsign(p, r * r); }
pub proof fn ks_iff(c: Seq<real>, d: Seq<int>, D: int, i: int, j: int) requires d[i] != 0, i != j, D != 0
    ensures ispos(d, D, j) ==> (ks(c, d, D, i, j) == (pv(c, d, j) > pv(c, d, i))), isneg(d, D, j) ==> (ks(c, d, D, i, j) == (pv(c, d, j) < pv(c, d, i))),
        d[j] == 0 ==> (ks(c, d, D, i, j) == (c[j] * (D as real) > 0real)),
        d[j] != 0 ==> (c[j] * (d[i] as real) - c[i] * (d[j] as real) == 0real) == (pv(c, d, j) == pv(c, d, i))
{
    let a = d[i] as real; let b = d[j] as real; let t = D as real; let ci = c[i]; let cj = c[j]; castm(d[j], D);
    rsq(a);
    if d[j] == 0 {
        assert(ci * b == 0real) by(nonlinear_arith) requires b == 0real;
        // ((cj a) a) t == (cj t) (a a)
        rassoc(cj, a, a); rassoc(cj, a * a, t); rsign(cj * t, a * a);
        assert(d[j] * D == 0) by(nonlinear_arith) requires d[j] == 0;
    } else {
        let p = pv(c, d, i); let q = pv(c, d, j); rdiv(ci, a); rdiv(cj, b); assert(ci == p * a && cj == q * b);
        // cj a - ci b == (q - p)(a b)
        rassoc(q, b, a); rassoc(p, a, b); rcomm(a, b); rsubm(q, p, a * b);
        let z = cj * a - ci * b; assert(z == (q - p) * (a * b));
        // (z a) t == ((q-p) (b t)) (a a)
        let y = q - p; rassoc(y, a, b); rassoc(y * a, b, a); rassoc(y, a, a); rassoc(y * (a * a), b, t); rassoc(y, a * a, b * t);
        assert((z * a) * t == (y * (b * t)) * (a * a));
        rsign(y * (b * t), a * a);
        let bt = b * t;
        if ispos(d, D, j) { assert(((d[j] * D) as real) > 0real); rsign(y, bt); }
        if isneg(d, D, j) { assert(((d[j] * D) as real) < 0real); rsign_neg(y, bt); }
        // z == 0 iff q == p
        assert(a * b != 0real) by(nonlinear_arith) requires a != 0real, b != 0real;
        let ab = a * b; if y == 0real { assert(y * ab == 0real) by(nonlinear_arith) requires y == 0real; } else { assert(y * ab != 0real) by(nonlinear_arith) requires y != 0real, ab != 0real; }
    }
}
pub proof fn pin_iff(c: Seq<real>, d: Seq<int>, D: int, j: int) requires D != 0
    ensures ispos(d, D, j) ==> ((c[j] * (D as real) > 0real) == (pv(c, d, j) > 0real)), isneg(d, D, j) ==> ((c[j] * (D as real) > 0real) == (pv(c, d, j) < 0real))
{ let b = d[j] as real; let t = D as real; castm(d[j], D); let p = pv(c, d, j);
  if d[j] != 0 { rdiv(c[j], b); rassoc(p, b, t); let bt = b * t; assert(bt == ((d[j] * D) as real)); if ispos(d, D, j) { assert(((d[j] * D) as real) > 0real); assert(bt > 0real); rsign(p, bt); } if isneg(d, D, j) { assert(((d[j] * D) as real) < 0real); assert(bt < 0real); rsign_neg(p, bt); } } else { assert(d[j] * D == 0) by(nonlinear_arith) requires d[j] == 0; } }
pub proof fn pos_split(d: Seq<int>, D: int, i: int) requires D != 0 ensures ispos(d, D, i) || isneg(d, D, i) || d[i] == 0, ispos(d, D, i) || isneg(d, D, i) ==> d[i] != 0,
    ispos(d, D, i) ==> sgi(D) * sgi(d[i]) == 1, isneg(d, D, i) ==> sgi(D) * sgi(d[i]) == -1
{ let a = d[i]; if a == 0 { assert(a * D == 0) by(nonlinear_arith) requires a == 0; }
  else if (a > 0) == (D > 0) { assert(a * D > 0) by(nonlinear_arith) requires (a > 0 && D > 0) || (a < 0 && D < 0); }
  else { assert(a * D < 0) by(nonlinear_arith) requires (a > 0 && D < 0) || (a < 0 && D > 0); } }
pub proof fn argbest(v: spec_fn(int) -> real, s: spec_fn(int) -> bool, up: bool, n: int) -> (i: int)
    requires n >= 0, exists|i: int| 0 <= i < n && #[trigger] s(i)
    ensures 0 <= i < n, s(i), forall|j: int| 0 <= j < n && #[trigger] s(j) ==> (if up { v(j) <= v(i) } else { v(j) >= v(i) }) decreases n
{
    if exists|i: int| 0 <= i < n - 1 && #[trigger] s(i) {
        let i = argbest(v, s, up, n - 1);
        if s(n - 1) && (if up { v(n - 1) > v(i) } else { v(n - 1) < v(i) }) { n - 1 } else { i }
    } else { n - 1 }
}
pub open spec fn gterm(c: Seq<real>, d: Seq<int>, D: int, i: int) -> int { if d[i] != 0 && kin(c, d, D, i) { sgi(D) * sgi(d[i]) } else { 0 } }
pub open spec fn distinct(c: Seq<real>, d: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j && d[i] != 0 && d[j] != 0 ==> #[trigger] pv(c, d, i) != #[trigger] pv(c, d, j) }
pub open spec fn zok(c: Seq<real>, d: Seq<int>, D: int) -> bool { forall|j: int| 0 <= j < c.len() && d[j] == 0 ==> #[trigger] c[j] * (D as real) > 0real }
pub open spec fn kin2(c: Seq<real>, d: Seq<int>, D: int, i: int) -> bool {
    zok(c, d, D) && pv(c, d, i) > 0real && (forall|j: int| 0 <= j < c.len() && j != i && ispos(d, D, j) ==> #[trigger] pv(c, d, j) > pv(c, d, i)) && (forall|j: int| 0 <= j < c.len() && j != i && isneg(d, D, j) ==> #[trigger] pv(c, d, j) < pv(c, d, i))
}
pub proof fn kin_iff(c: Seq<real>, d: Seq<int>, D: int, i: int) requires D != 0, d.len() == c.len(), 0 <= i < c.len(), d[i] != 0 ensures kin(c, d, D, i) == kin2(c, d, D, i)
{
    ks_self(c, d, D, i);
    if kin(c, d, D, i) {
        assert(ks(c, d, D, i, i));
        assert forall|j: int| 0 <= j < c.len() && d[j] == 0 implies #[trigger] c[j] * (D as real) > 0real by { ks_iff(c, d, D, i, j); assert(ks(c, d, D, i, j)); }
        assert forall|j: int| 0 <= j < c.len() && j != i && ispos(d, D, j) implies #[trigger] pv(c, d, j) > pv(c, d, i) by { ks_iff(c, d, D, i, j); assert(ks(c, d, D, i, j)); }
        assert forall|j: int| 0 <= j < c.len() && j != i && isneg(d, D, j) implies #[trigger] pv(c, d, j) < pv(c, d, i) by { ks_iff(c, d, D, i, j); assert(ks(c, d, D, i, j)); }
    }
    if kin2(c, d, D, i) { assert forall|j: int| 0 <= j < c.len() implies #[trigger] ks(c, d, D, i, j) by { pos_split(d, D, j); if j != i { ks_iff(c, d, D, i, j); if d[j] == 0 { assert(c[j] * (D as real) > 0real); } else { assert(pv(c, d, j) > pv(c, d, i) || pv(c, d, j) < pv(c, d, i)); } } } }
}
pub open spec fn pin2(c: Seq<real>, d: Seq<int>, D: int) -> bool {
    zok(c, d, D) && (forall|j: int| 0 <= j < c.len() && ispos(d, D, j) ==> #[trigger] pv(c, d, j) > 0real) && (forall|j: int| 0 <= j < c.len() && isneg(d, D, j) ==> #[trigger] pv(c, d, j) < 0real)
}
pub proof fn pin_eq(c: Seq<real>, d: Seq<int>, D: int) requires D != 0, d.len() == c.len() ensures pin(c, D) == pin2(c, d, D)
{
    if pin(c, D) {
        assert forall|j: int| 0 <= j < c.len() && ispos(d, D, j) implies #[trigger] pv(c, d, j) > 0real by { pin_iff(c, d, D, j); assert(c[j] * (D as real) > 0real); }
        assert forall|j: int| 0 <= j < c.len() && isneg(d, D, j) implies #[trigger] pv(c, d, j) < 0real by { pin_iff(c, d, D, j); assert(c[j] * (D as real) > 0real); }
    }
    if pin2(c, d, D) { assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] * (D as real) > 0real by { pos_split(d, D, j); pin_iff(c, d, D, j); if d[j] != 0 { assert(pv(c, d, j) > 0real || pv(c, d, j) < 0real); } } }
}
// the signed sum of the children equals the parent
pub proof fn kin_sum(c: Seq<real>, d: Seq<int>, D: int)
    requires D != 0, d.len() == c.len(), distinct(c, d), exists|i: int| 0 <= i < c.len() && #[trigger] ispos(d, D, i), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != 0real
    ensures sumf(|i: int| gterm(c, d, D, i), c.len()) == (if pin(c, D) { 1int } else { 0 })
{
    let n = c.len(); let f = |i: int| gterm(c, d, D, i);
    pin_eq(c, d, D);
    let v = |i: int| pv(c, d, i); let sp = |i: int| ispos(d, D, i); let sn = |i: int| isneg(d, D, i);
    let w = choose|i: int| 0 <= i < c.len() && #[trigger] ispos(d, D, i); assert(sp(w));
    let a = argbest(v, sp, false, n as int); assert(ispos(d, D, a)); pos_split(d, D, a);
    assert forall|j: int| 0 <= j < n && #[trigger] ispos(d, D, j) implies pv(c, d, j) >= pv(c, d, a) by { assert(sp(j)); assert(v(j) >= v(a)); }
    kin_iff(c, d, D, a);
    let hn = exists|i: int| 0 <= i < n && #[trigger] sn(i);
    let b = if hn { argbest(v, sn, true, n as int) } else { -1 };
    if hn { assert(isneg(d, D, b)); pos_split(d, D, b); kin_iff(c, d, D, b); assert(v(b) == pv(c, d, b)); }
    assert forall|j: int| 0 <= j < n && #[trigger] isneg(d, D, j) implies hn && pv(c, d, j) <= pv(c, d, b) by { assert(sn(j)); assert(v(j) <= v(b)); }
    let xa = f(a); let xb = if hn { f(b) } else { 0 };
    let g1 = |i: int| if i == a { xa } else { 0 }; let g2 = |i: int| if i == b { xb } else { 0 };
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g1(i) + g2(i) by {
        pos_split(d, D, i);
        if d[i] != 0 { kin_iff(c, d, D, i);
            if i != a && i != b && kin2(c, d, D, i) {
                if ispos(d, D, i) { assert(pv(c, d, a) > pv(c, d, i)); assert(pv(c, d, i) >= pv(c, d, a)); }
                else { assert(isneg(d, D, i)); assert(pv(c, d, b) < pv(c, d, i)); assert(pv(c, d, i) <= pv(c, d, b)); }
            } }
        if i == a && i == b { }
    }
    sum_add(g1, g2, f, n); sum_one(a, xa, g1, n); if hn { sum_one(b, xb, g2, n); } else { sum_zero(g2, n); }
    // p_a minimal among the positive, p_b maximal among the negative
    let pa = pv(c, d, a);
    assert forall|j: int| 0 <= j < n && j != a && ispos(d, D, j) implies #[trigger] pv(c, d, j) > pa by { pos_split(d, D, j); assert(pv(c, d, j) != pv(c, d, a)); }
    nz_pv(c, d, a);
    if hn {
        let pb = pv(c, d, b); nz_pv(c, d, b);
        assert forall|j: int| 0 <= j < n && j != b && isneg(d, D, j) implies #[trigger] pv(c, d, j) < pb by { pos_split(d, D, j); assert(pv(c, d, j) != pv(c, d, b)); }
        assert(pa != pb);
        assert(kin2(c, d, D, a) == (zok(c, d, D) && pa > 0real && pb < pa)) by { if zok(c, d, D) && pa > 0real && pb < pa { assert forall|j: int| 0 <= j < n && j != a && isneg(d, D, j) implies #[trigger] pv(c, d, j) < pa by { assert(pv(c, d, j) <= pb); } } else if kin2(c, d, D, a) { assert(pv(c, d, b) < pa); } }
        assert(kin2(c, d, D, b) == (zok(c, d, D) && pb > 0real && pb < pa)) by { if zok(c, d, D) && pb > 0real && pb < pa { assert forall|j: int| 0 <= j < n && j != b && ispos(d, D, j) implies #[trigger] pv(c, d, j) > pb by { assert(pv(c, d, j) >= pa); } } else if kin2(c, d, D, b) { assert(pv(c, d, a) > pb); } }
        assert(pin2(c, d, D) == (zok(c, d, D) && pa > 0real && pb < 0real)) by {
            if zok(c, d, D) && pa > 0real && pb < 0real {
                assert forall|j: int| 0 <= j < n && ispos(d, D, j) implies #[trigger] pv(c, d, j) > 0real by { assert(pv(c, d, j) >= pa); }
                assert forall|j: int| 0 <= j < n && isneg(d, D, j) implies #[trigger] pv(c, d, j) < 0real by { assert(pv(c, d, j) <= pb); }
            } else if pin2(c, d, D) { assert(pv(c, d, a) > 0real); assert(pv(c, d, b) < 0real); } }
    } else {
        assert(kin2(c, d, D, a) == (zok(c, d, D) && pa > 0real));
        assert(pin2(c, d, D) == (zok(c, d, D) && pa > 0real)) by {
            if zok(c, d, D) && pa > 0real { assert forall|j: int| 0 <= j < n && ispos(d, D, j) implies #[trigger] pv(c, d, j) > 0real by { assert(pv(c, d, j) >= pa); } } else if pin2(c, d, D) { assert(pv(c, d, a) > 0real); } }
    }
}
pub proof fn nz_pv(c: Seq<real>, d: Seq<int>, i: int) requires d[i] != 0, c[i] != 0real ensures pv(c, d, i) != 0real
{ let r = d[i] as real; rdiv(c[i], r); let p = pv(c, d, i); if p == 0real { assert(p * r == 0real) by(nonlinear_arith) requires p == 0real; } }
// ---- one step of the signed decomposition, on generic points
pub open spec fn child(R: Seq<Vc<Z>>, w: Vc<Z>, i: int) -> Seq<Vc<Z>> { R.update(i, w) }
pub open spec fn cterm(R: Seq<Vc<Z>>, w: Vc<Z>, x: Seq<real>, i: int) -> int { sgi(mdet(R)) * sgi(mdet(child(R, w, i))) * ind(child(R, w, i), x) }
pub proof fn step_ind(R: Seq<Vc<Z>>, w: Vc<Z>, x: Seq<real>)
    requires sqm(R), mdet(R) != 0, w@.len() == R.len(), generic(x, R.len()), exists|i: int| 0 <= i < R.len() && #[trigger] mdet(R.update(i, w)) * mdet(R) > 0
    ensures sumf(|i: int| cterm(R, w, x, i), R.len()) == ind(R, x)
{
    let n = R.len(); let D = mdet(R); let t = D as real;
    let c = Seq::new(n, |j: int| cx(R, j, x)); let d = Seq::new(n, |j: int| mdet(R.update(j, w)));
    assert forall|i: int| 0 <= i < n implies #[trigger] c[i] != 0real by { cof_nz(R, i, x); }
    let k = choose|i: int| 0 <= i < R.len() && #[trigger] mdet(R.update(i, w)) * mdet(R) > 0; assert(ispos(d, D, k));
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j && d[i] != 0 && d[j] != 0 implies #[trigger] pv(c, d, i) != #[trigger] pv(c, d, j) by {
        upd_sq(R, i, w); cx_child(R, w, i, j, x); cof_nz(R.update(i, w), j, x); ks_iff(c, d, D, i, j);
        let e = cx(R.update(i, w), j, x); assert(t * e != 0real) by(nonlinear_arith) requires t != 0real, e != 0real;
    }
    assert(pin(c, D) == inside(R, x)) by {
        if pin(c, D) { assert forall|j: int| 0 <= j < n implies #[trigger] cx(R, j, x) * t > 0real by { assert(c[j] * t > 0real); } }
        if inside(R, x) { assert forall|j: int| 0 <= j < n implies #[trigger] c[j] * t > 0real by { assert(cx(R, j, x) * t > 0real); } } }
    let f = |i: int| cterm(R, w, x, i); let g = |i: int| gterm(c, d, D, i);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by {
        let M = child(R, w, i); let a = d[i] as real; upd_sq(R, i, w);
        if d[i] != 0 {
            assert forall|j: int| 0 <= j < n implies (#[trigger] ks(c, d, D, i, j)) == (cx(M, j, x) * (mdet(M) as real) > 0real) by {
                cx_child(R, w, i, j, x);
                if j != i { let e = cx(M, j, x); let z = c[j] * a - c[i] * (d[j] as real); assert(t * e == z); rcomm(t, e); rassoc(e, t, a); rassoc(e * a, t, t); rsq(t); rsign(e * a, t * t); }
            }
            if kin(c, d, D, i) { assert forall|j: int| 0 <= j < M.len() implies #[trigger] cx(M, j, x) * (mdet(M) as real) > 0real by { assert(ks(c, d, D, i, j)); } }
            if inside(M, x) { assert forall|j: int| 0 <= j < c.len() implies #[trigger] ks(c, d, D, i, j) by { assert(cx(M, j, x) * (mdet(M) as real) > 0real); } }
            let s = sgi(D) * sgi(d[i]); assert(s * 1 == s && s * 0 == 0);
        } else { let s = sgi(D); assert(s * 0 == 0); let q = ind(M, x); assert(0 * q == 0); }
    }
    sum_ext(f, g, n); kin_sum(c, d, D);
}
