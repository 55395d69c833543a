@include det.vc
@rs
// ---- products of square matrices, permutations, adjugate (proved, nothing assumed)
pub open spec fn ev(n: nat, k: int) -> Vc<Z> { Vc { g: Ghost(Seq::new(n, |j: int| mkz(if j == k { 1 } else { 0 }))) } }
pub open spec fn idm(n: nat) -> Seq<Vc<Z>> { Seq::new(n, |i: int| ev(n, i)) }
pub open spec fn sel(B: Seq<Vc<Z>>, s: Seq<int>) -> Seq<Vc<Z>> { Seq::new(s.len(), |i: int| B[s[i]]) }
pub open spec fn mulm(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>) -> Seq<Vc<Z>> { Seq::new(A.len(), |i: int| combv(A[i]@, B, B.len(), B.len())) }
pub open spec fn zrow(n: nat) -> Vc<Z> { Vc { g: Ghost(Seq::new(n, |j: int| mkz(0))) } }
pub proof fn dot_sum(a: Seq<Z>, X: Seq<Vc<Z>>, j: int, n: nat) ensures dotcol(a, X, j, n) == sumf(|k: int| a[k].v() * X[k]@[j].v(), n) decreases n
{ let f = |k: int| a[k].v() * X[k]@[j].v(); if n > 0 { dot_sum(a, X, j, (n - 1) as nat); assert(f(n - 1) == a[n - 1].v() * X[n - 1]@[j].v()); } }
pub proof fn dot_unit(X: Seq<Vc<Z>>, m: nat, k: int, j: int, n: nat) requires 0 <= k < m, n <= m ensures dotcol(ev(m, k)@, X, j, n) == (if k < n { X[k]@[j].v() } else { 0 }) decreases n
{ if n > 0 { dot_unit(X, m, k, j, (n - 1) as nat); let y = X[n - 1]@[j].v(); assert(0 * y == 0 && 1 * y == y); } }
pub proof fn comb_unit(X: Seq<Vc<Z>>, k: int) requires sqm(X), 0 <= k < X.len() ensures combv(ev(X.len(), k)@, X, X.len(), X.len()) == X[k]
{ let n = X.len(); let c = combv(ev(n, k)@, X, n, n); assert(X[k]@.len() == n);
  assert(c@ =~= X[k]@) by { assert forall|j: int| 0 <= j < n implies c@[j] == X[k]@[j] by { dot_unit(X, n, k, j, n); } } assert(c =~= X[k]); }
pub proof fn dot_idm(v: Seq<Z>, m: nat, j: int, n: nat) requires 0 <= j < m, n <= m ensures dotcol(v, idm(m), j, n) == (if j < n { v[j].v() } else { 0 }) decreases n
{ if n > 0 { dot_idm(v, m, j, (n - 1) as nat); let y = v[n - 1].v(); assert(idm(m)[n - 1]@[j].v() == (if j == n - 1 { 1int } else { 0 })); assert(y * 1 == y && y * 0 == 0); } }
pub proof fn comb_idm(v: Vc<Z>, n: nat) requires v@.len() == n ensures combv(v@, idm(n), n, n) == v
{ let c = combv(v@, idm(n), n, n); assert(c@ =~= v@) by { assert forall|j: int| 0 <= j < n implies c@[j] == v@[j] by { dot_idm(v@, n, j, n); } } assert(c =~= v); }
pub proof fn idm_sq(n: nat) ensures sqm(idm(n)), idm(n).len() == n {}
pub proof fn det_id(n: nat) ensures mdet(idm(n)) == 1 decreases n
{ if n > 0 {
    let m = idm(n); idm_sq(n); det_id((n - 1) as nat); lapl_sum(m, n);
    let f = |t: int| laplt(m, t); let g = |t: int| if t == 0 { 1int } else { 0 };
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by {
        if t == 0 { let a = minor(m, 0); let b = idm((n - 1) as nat); minor_sq(m, 0);
            assert(a =~= b) by { assert forall|i: int| 0 <= i < n - 1 implies a[i] == b[i] by { assert(a[i]@ =~= b[i]@); } }
        } else { let x = mdet(minor(m, t)); assert(0 * x == 0); assert(sg(t) * 0 == 0); } }
    sum_ext(f, g, n); sum_one(0, 1, g, n);
} }
pub open spec fn inrange(s: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n }
pub proof fn surj(s: Seq<int>, p: int) requires s.no_duplicates(), inrange(s, s.len() as int), 0 <= p < s.len() ensures exists|q: int| 0 <= q < s.len() && s[q] == p
{
    let n = s.len(); let S = s.to_set(); s.unique_seq_to_set(); vstd::set_lib::lemma_int_range(0, n as int);
    let R = vstd::set_lib::set_int_range(0, n as int);
    assert(S.subset_of(R)) by { assert forall|x: int| S.contains(x) implies R.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(0 <= s[i] < n); } }
    vstd::set_lib::lemma_subset_equality(S, R);
    assert(S.contains(p)); assert(s.contains(p));
}
pub proof fn perm(B: Seq<Vc<Z>>, s: Seq<int>, p: int)
    requires sqm(B), s.len() == B.len(), inrange(s, s.len() as int), 0 <= p <= s.len(), forall|i: int| 0 <= i < p ==> #[trigger] s[i] == i
    ensures mdet(sel(B, s)) == mdet(sel(idm(B.len()), s)) * mdet(B) decreases s.len() - p
{
    let n = B.len(); let I = idm(n); idm_sq(n); let b = sel(B, s); let a = sel(I, s);
    assert(sqm(b)) by { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i])@.len() == n by { assert(0 <= s[i] < n); } }
    assert(sqm(a)) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i])@.len() == n by { assert(0 <= s[i] < n); } }
    if p == n { assert(b =~= B) by { assert forall|i: int| 0 <= i < n implies b[i] == B[i] by { assert(s[i] == i); } } assert(a =~= I) by { assert forall|i: int| 0 <= i < n implies a[i] == I[i] by { assert(s[i] == i); } } det_id(n); assert(1 * mdet(B) == mdet(B)); }
    else if !s.no_duplicates() {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
        let x = if i < j { i } else { j }; let y = if i < j { j } else { i };
        det_eqrows(b, x, y); det_eqrows(a, x, y); assert(0 * mdet(B) == 0);
    } else {
        surj(s, p); let q = choose|q: int| 0 <= q < s.len() && s[q] == p;
        assert(q >= p) by { if q < p { assert(s[q] == q); } }
        if q == p { perm(B, s, p + 1); }
        else {
            let t = s.update(p, s[q]).update(q, s[p]);
            assert(inrange(t, n as int)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < n by { assert(0 <= s[i] < n && 0 <= s[p] < n && 0 <= s[q] < n); } }
            perm(B, t, p + 1);
            det_swap(b, p, q); det_swap(a, p, q);
            assert(sel(B, t) =~= b.update(p, b[q]).update(q, b[p])); assert(sel(I, t) =~= a.update(p, a[q]).update(q, a[p]));
            let x = mdet(a); let y = mdet(B); assert((-x) * y == -(x * y)) by(nonlinear_arith);
        }
    }
}
pub proof fn mul_sq(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>) requires A.len() == B.len() ensures sqm(mulm(A, B)), mulm(A, B).len() == A.len() {}
pub proof fn prod_from(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, s: Seq<int>)
    requires sqm(A), sqm(B), A.len() == B.len(), s.len() <= A.len(), inrange(s, A.len() as int), forall|i: int| 0 <= i < s.len() ==> #[trigger] A[i] == ev(A.len(), s[i])
    ensures mdet(mulm(A, B)) == mdet(A) * mdet(B) decreases A.len() - s.len()
{
    let n = A.len(); let M = mulm(A, B); let I = idm(n); idm_sq(n); mul_sq(A, B);
    if s.len() == n {
        assert(M =~= sel(B, s)) by { assert forall|i: int| 0 <= i < n implies M[i] == sel(B, s)[i] by { assert(A[i] == ev(n, s[i])); assert(0 <= s[i] < n); comb_unit(B, s[i]); } }
        assert(A =~= sel(I, s)) by { assert forall|i: int| 0 <= i < n implies A[i] == sel(I, s)[i] by { assert(A[i] == ev(n, s[i])); assert(0 <= s[i] < n); } }
        perm(B, s, 0);
    } else {
        let i = s.len() as int; let r = A[i]@; assert(A[i]@.len() == n);
        let f = |k: int| r[k].v() * mdet(A.update(i, I[k])); let h = |k: int| r[k].v() * mdet(M.update(i, B[k])); let D = mdet(B);
        comb_idm(A[i], n); det_comb(A, I, i, r, n); assert(A.update(i, A[i]) =~= A);
        det_comb(M, B, i, r, n); assert(M.update(i, M[i]) =~= M);
        assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == D * f(k) by {
            let A2 = A.update(i, ev(n, k)); let s2 = s.push(k);
            assert(sqm(A2)) by { upd_sq(A, i, ev(n, k)); }
            assert(inrange(s2, n as int)) by { assert forall|t: int| 0 <= t < s2.len() implies 0 <= #[trigger] s2[t] < n by { if t < s.len() { assert(0 <= s[t] < n); } } }
            assert forall|t: int| 0 <= t < s2.len() implies #[trigger] A2[t] == ev(n, s2[t]) by { if t < s.len() { assert(A[t] == ev(n, s[t])); } }
            prod_from(A2, B, s2);
            assert(mulm(A2, B) =~= M.update(i, B[k])) by { assert forall|t: int| 0 <= t < n implies mulm(A2, B)[t] == M.update(i, B[k])[t] by { if t == i { comb_unit(B, k); } } }
            assert(I[k] == ev(n, k));
            let x = r[k].v(); let y = mdet(A2); assert(x * (y * D) == D * (x * y)) by(nonlinear_arith);
        }
        sum_mul(D, f, h, n); let y = mdet(A); assert(D * y == y * D) by(nonlinear_arith);
    }
}
pub proof fn det_prod(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>) requires sqm(A), sqm(B), A.len() == B.len() ensures mdet(mulm(A, B)) == mdet(A) * mdet(B) { prod_from(A, B, Seq::empty()); }
// diagonal matrices
pub open spec fn diagm(d: Seq<int>, q: int) -> Seq<Vc<Z>> { Seq::new(d.len(), |i: int| if i < q { scalev(d[i], ev(d.len(), i)) } else { ev(d.len(), i) }) }
pub proof fn det_diag(d: Seq<int>, q: int) requires 0 <= q <= d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != 0 ensures mdet(diagm(d, q)) != 0, sqm(diagm(d, q)) decreases q
{ let n = d.len(); let m = diagm(d, q); if q == 0 { det_id(n); assert(m =~= idm(n)); } else {
    det_diag(d, q - 1); let p = diagm(d, q - 1); det_scalev(p, q - 1, d[q - 1], ev(n, q - 1)); assert(p.update(q - 1, ev(n, q - 1)) =~= p); assert(p.update(q - 1, scalev(d[q - 1], ev(n, q - 1))) =~= m);
    let x = d[q - 1]; let y = mdet(p); assert(x * y != 0) by(nonlinear_arith) requires x != 0, y != 0; } }
// if the products of the rows of A with the columns of B form a nonsingular diagonal matrix, both are nonsingular
pub open spec fn diagp(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, d: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() ==> #[trigger] dotcol(A[i]@, B, j, d.len()) == (if i == j { d[i] } else { 0 }) }
pub proof fn diag_nz(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, d: Seq<int>)
    requires sqm(A), sqm(B), A.len() == d.len(), B.len() == d.len(), diagp(A, B, d), forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != 0
    ensures mdet(A) != 0, mdet(B) != 0
{ let n = d.len(); let M = mulm(A, B); let m = diagm(d, n as int); det_prod(A, B); det_diag(d, n as int);
  assert(M =~= m) by { assert forall|i: int| 0 <= i < n implies M[i] == m[i] by { assert(M[i]@ =~= m[i]@) by { assert forall|j: int| 0 <= j < n implies M[i]@[j] == m[i]@[j] by { assert(dotcol(A[i]@, B, j, n) == (if i == j { d[i] } else { 0 })); let x = d[i]; assert(x * 0 == 0 && x * 1 == x); } } assert(M[i] =~= m[i]); } }
  let x = mdet(A); let y = mdet(B); assert(x != 0 && y != 0) by(nonlinear_arith) requires x * y != 0; }
// the adjugate: entry (k, j) is the determinant with row j replaced by the k-th unit vector
pub open spec fn adj(R: Seq<Vc<Z>>) -> Seq<Vc<Z>> { Seq::new(R.len(), |k: int| Vc { g: Ghost(Seq::new(R.len(), |j: int| mkz(mdet(R.update(j, ev(R.len(), k)))))) }) }
pub proof fn det_expand(R: Seq<Vc<Z>>, j: int, v: Vc<Z>) requires sqm(R), 0 <= j < R.len(), v@.len() == R.len() ensures mdet(R.update(j, v)) == dotcol(v@, adj(R), j, R.len())
{ let n = R.len(); let I = idm(n); let X = adj(R); idm_sq(n); comb_idm(v, n); det_comb(R, I, j, v@, n); dot_sum(v@, X, j, n);
  sum_ext(|k: int| v@[k].v() * mdet(R.update(j, I[k])), |k: int| v@[k].v() * X[k]@[j].v(), n); }
pub proof fn det_samerow(R: Seq<Vc<Z>>, i: int, j: int) requires sqm(R), 0 <= j < R.len(), 0 <= i < R.len() ensures mdet(R.update(j, R[i])) == (if i == j { mdet(R) } else { 0 })
{ let M = R.update(j, R[i]); assert(R[i]@.len() == R.len()); upd_sq(R, j, R[i]); if i == j { assert(M =~= R); } else if i < j { det_eqrows(M, i, j); } else { det_eqrows(M, j, i); } }
pub proof fn adj_right(R: Seq<Vc<Z>>) requires sqm(R) ensures unitm(R, adj(R), R.len(), mdet(R)), sqm(adj(R))
{ let n = R.len(); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(R[i]@, adj(R), j, n) == (if i == j { mdet(R) } else { 0 }) by { assert(R[i]@.len() == n); det_expand(R, j, R[i]); det_samerow(R, i, j); } }
// (a*A)*B == a*(A*B)
pub proof fn dot_assoc_row(a: Seq<Z>, A: Seq<Vc<Z>>, l: int, b: int, g: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == (a[i].v() * A[i]@[l].v()) * b ensures sumf(g, n) == dotcol(a, A, l, n) * b
{ let f = |i: int| a[i].v() * A[i]@[l].v(); dot_sum(a, A, l, n);
  assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == b * f(i) by { let x = f(i); assert(x * b == b * x) by(nonlinear_arith); }
  sum_mul(b, f, g, n); let s = dotcol(a, A, l, n); assert(b * s == s * b) by(nonlinear_arith); }
pub proof fn dot_assoc_col(a: int, r: Seq<Z>, B: Seq<Vc<Z>>, j: int, g: spec_fn(int) -> int, n: nat)
    requires forall|l: int| 0 <= l < n ==> #[trigger] g(l) == (a * r[l].v()) * B[l]@[j].v() ensures sumf(g, n) == a * dotcol(r, B, j, n)
{ let f = |l: int| r[l].v() * B[l]@[j].v(); dot_sum(r, B, j, n);
  assert forall|l: int| 0 <= l < n implies #[trigger] g(l) == a * f(l) by { let x = r[l].v(); let y = B[l]@[j].v(); assert((a * x) * y == a * (x * y)) by(nonlinear_arith); }
  sum_mul(a, f, g, n); }
pub proof fn dot_assoc(a: Seq<Z>, A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, j: int, n: nat)
    requires A.len() == n, B.len() == n, 0 <= j < n ensures dotcol(combv(a, A, n, n)@, B, j, n) == dotcol(a, mulm(A, B), j, n)
{
    let c = combv(a, A, n, n)@; let F = |l: int, i: int| (a[i].v() * A[i]@[l].v()) * B[l]@[j].v(); let C = mulm(A, B);
    dot_sum(c, B, j, n); dot_sum(a, C, j, n); sum_swap(F, n, n);
    let f1 = |l: int| c[l].v() * B[l]@[j].v(); let f2 = rowf(F, n); let g1 = |i: int| a[i].v() * C[i]@[j].v(); let g2 = rowf(trf(F), n);
    assert forall|l: int| 0 <= l < n implies #[trigger] f1(l) == f2(l) by { let g = |i: int| F(l, i); dot_assoc_row(a, A, l, B[l]@[j].v(), g, n); assert(f2(l) == sumf(g, n)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] g1(i) == g2(i) by { let g = |l: int| trf(F)(i, l); dot_assoc_col(a[i].v(), A[i]@, B, j, g, n); assert(g2(i) == sumf(g, n)); }
    sum_ext(f1, f2, n); sum_ext(g1, g2, n);
}
// a combination of the rows of a nonsingular matrix vanishes only trivially
pub proof fn row_kernel(X: Seq<Vc<Z>>, a: Seq<Z>, i: int) requires sqm(X), mdet(X) != 0, 0 <= i < X.len(), forall|j: int| 0 <= j < X.len() ==> #[trigger] dotcol(a, X, j, X.len()) == 0 ensures a[i].v() == 0
{ let n = X.len(); let z = scalev(0, ev(n, 0)); assert forall|j: int| 0 <= j < n implies 1 * (#[trigger] z@[j]).v() == dotcol(a, X, j, n) by { assert(dotcol(a, X, j, n) == 0); let y = ev(n, 0)@[j].v(); assert(0 * y == 0); }
  cramer(X, z, a, 1, i); det_scalev(X, i, 0, ev(n, 0)); let y = a[i].v(); let D = mdet(X); let w = mdet(X.update(i, ev(n, 0))); assert(0 * w == 0);
  assert(y == 0) by(nonlinear_arith) requires y * D == 0, D != 0; }
pub proof fn dot_sub(a: Seq<Z>, b: Seq<Z>, c: Seq<Z>, X: Seq<Vc<Z>>, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).v() == a[i].v() - b[i].v() ensures dotcol(c, X, j, n) == dotcol(a, X, j, n) - dotcol(b, X, j, n) decreases n
{ if n > 0 { dot_sub(a, b, c, X, j, (n - 1) as nat); let x = a[n - 1].v(); let y = b[n - 1].v(); let z = X[n - 1]@[j].v(); assert(c[n - 1].v() == x - y); assert((x - y) * z == x * z - y * z) by(nonlinear_arith); } }
pub proof fn dot_scal(c: int, a: Seq<Z>, b: Seq<Z>, X: Seq<Vc<Z>>, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).v() == c * a[i].v() ensures dotcol(b, X, j, n) == c * dotcol(a, X, j, n) decreases n
{ if n > 0 { dot_scal(c, a, b, X, j, (n - 1) as nat); let x = a[n - 1].v(); let z = X[n - 1]@[j].v(); let s = dotcol(a, X, j, (n - 1) as nat); assert(b[n - 1].v() == c * x); assert((c * x) * z == c * (x * z)) by(nonlinear_arith); assert(c * (s + x * z) == c * s + c * (x * z)) by(nonlinear_arith); } else { assert(c * 0 == 0); } }
pub proof fn dot_ext(a: Seq<Z>, X: Seq<Vc<Z>>, Y: Seq<Vc<Z>>, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] X[i])@[j].v() == Y[i]@[j].v() ensures dotcol(a, X, j, n) == dotcol(a, Y, j, n) decreases n
{ if n > 0 { dot_ext(a, X, Y, j, (n - 1) as nat); assert(X[n - 1]@[j].v() == Y[n - 1]@[j].v()); } }
// a right inverse up to a nonzero factor is a left inverse
pub proof fn inv_left(R: Seq<Vc<Z>>, X: Seq<Vc<Z>>, d: int) requires sqm(R), sqm(X), X.len() == R.len(), unitm(R, X, R.len(), d), d != 0 ensures unitm(X, R, R.len(), d), mdet(X) != 0, mdet(R) != 0
{
    let n = R.len(); let ds = Seq::new(n, |i: int| d);
    assert(diagp(R, X, ds)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(R[i]@, X, j, n) == (if i == j { ds[i] } else { 0 }) by { assert(dotcol(R[i]@, X, j, n) == (if i == j { d } else { 0 })); } }
    diag_nz(R, X, ds);
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n implies #[trigger] dotcol(X[k]@, R, l, n) == (if k == l { d } else { 0 }) by {
        let c = combv(X[k]@, R, n, n)@; let u = scalev(d, ev(n, k))@; let e = Seq::new(n, |i: int| mkz(c[i].v() - u[i].v())); let P = mulm(R, X);
        assert forall|j: int| 0 <= j < n implies #[trigger] dotcol(e, X, j, n) == 0 by {
            dot_sub(c, u, e, X, j, n); dot_assoc(X[k]@, R, X, j, n); dot_scal(d, ev(n, k)@, u, X, j, n); dot_unit(X, n, k, j, n);
            // P = d I
            let x = X[k]@; let t = Seq::new(n, |i: int| mkz(d * x[i].v())); let I = idm(n);
            assert forall|i: int| 0 <= i < n implies (#[trigger] P[i])@[j].v() == (if i == j { d } else { 0 }) by { assert(dotcol(R[i]@, X, j, n) == (if i == j { d } else { 0 })); }
            assert(X[k]@.len() == n); dot_diag(x, P, d, j, n);
        }
        row_kernel(X, e, l); assert(e[l].v() == c[l].v() - u[l].v()); let y = ev(n, k)@[l].v(); assert(d * 0 == 0 && d * 1 == d);
    }
}
pub proof fn dot_diag(x: Seq<Z>, P: Seq<Vc<Z>>, d: int, j: int, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] P[i])@[j].v() == (if i == j { d } else { 0 }) ensures dotcol(x, P, j, n) == (if 0 <= j < n { d * x[j].v() } else { 0 }) decreases n
{ if n > 0 { dot_diag(x, P, d, j, (n - 1) as nat); let y = x[n - 1].v(); assert(P[n - 1]@[j].v() == (if n - 1 == j { d } else { 0 })); assert(y * 0 == 0 && y * d == d * y) by(nonlinear_arith); } }
pub proof fn adj_two(R: Seq<Vc<Z>>) requires sqm(R), mdet(R) != 0 ensures unitm(R, adj(R), R.len(), mdet(R)), unitm(adj(R), R, R.len(), mdet(R)), sqm(adj(R)), mdet(adj(R)) != 0 { adj_right(R); inv_left(R, adj(R), mdet(R)); }
// three-term relation: replacing row i by w and then row j by e
pub proof fn three_term(R: Seq<Vc<Z>>, w: Vc<Z>, i: int, j: int, k: int)
    requires sqm(R), mdet(R) != 0, w@.len() == R.len(), 0 <= i < R.len(), 0 <= j < R.len(), i != j, 0 <= k < R.len()
    ensures mdet(R) * mdet(R.update(i, w).update(j, ev(R.len(), k))) == mdet(R.update(j, ev(R.len(), k))) * mdet(R.update(i, w)) - mdet(R.update(i, ev(R.len(), k))) * mdet(R.update(j, w))
{
    let n = R.len(); let D = mdet(R); let X = adj(R); let M = R.update(i, w); upd_sq(R, i, w); adj_two(R);
    // D e_k is the combination X[k] of the rows of R
    let e = ev(n, k); let c = combv(X[k]@, R, n, n);
    assert(scalev(D, e) =~= c) by { assert(scalev(D, e)@ =~= c@) by { assert forall|l: int| 0 <= l < n implies scalev(D, e)@[l] == c@[l] by { assert(dotcol(X[k]@, R, l, n) == (if k == l { D } else { 0 })); assert(D * 0 == 0 && D * 1 == D); } } }
    det_scalev(M, j, D, e); det_comb(M, R, j, X[k]@, n);
    let f = |l: int| X[k]@[l].v() * mdet(M.update(j, R[l])); let Di = mdet(M); let Dj = mdet(R.update(j, w));
    let g1 = |l: int| if l == j { X[k]@[j].v() * Di } else { 0 }; let g2 = |l: int| if l == i { -(X[k]@[i].v() * Dj) } else { 0 };
    assert forall|l: int| 0 <= l < n implies #[trigger] f(l) == g1(l) + g2(l) by {
        assert(R[l]@.len() == n); upd_sq(M, j, R[l]); let x = X[k]@[l].v();
        if l == j { assert(M.update(j, R[j]) =~= M); }
        else if l == i {
            let N = R.update(j, w); upd_sq(R, j, w); let S = M.update(j, R[i]);
            if i < j { det_swap(N, i, j); assert(N.update(i, N[j]).update(j, N[i]) =~= S); } else { det_swap(N, j, i); assert(N.update(j, N[i]).update(i, N[j]) =~= S); }
            assert(x * (-Dj) == -(x * Dj)) by(nonlinear_arith);
        } else { let S = M.update(j, R[l]); assert(S[l] == R[l]); if l < j { det_eqrows(S, l, j); } else { det_eqrows(S, j, l); } assert(x * 0 == 0); }
    }
    sum_add(g1, g2, f, n); sum_one(j, X[k]@[j].v() * Di, g1, n); sum_one(i, -(X[k]@[i].v() * Dj), g2, n);
}
