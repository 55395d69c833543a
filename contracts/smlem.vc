// lemmas for the Smith normal form: elementary row and column steps keep A == L * input * R with unimodular L, R
@include pmath.vc proved
@rs
pub proof fn dot_lin(v: Seq<Z>, x: Seq<Z>, y: Seq<Z>, p: int, q: int, X: Seq<Vc<Z>>, j: int, n: nat) requires forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).v() == p * x[k].v() + q * y[k].v() ensures dotcol(v, X, j, n) == p * dotcol(x, X, j, n) + q * dotcol(y, X, j, n) decreases n
{ if n > 0 { dot_lin(v, x, y, p, q, X, j, (n - 1) as nat); let a = x[n - 1].v(); let b = y[n - 1].v(); let z = X[n - 1]@[j].v(); let s = dotcol(x, X, j, (n - 1) as nat); let t = dotcol(y, X, j, (n - 1) as nat); assert(v[n - 1].v() == p * a + q * b);
  assert((p * a + q * b) * z == p * (a * z) + q * (b * z)) by(nonlinear_arith); assert(p * (s + a * z) == p * s + p * (a * z)) by(nonlinear_arith); assert(q * (t + b * z) == q * t + q * (b * z)) by(nonlinear_arith); } else { assert(p * 0 == 0 && q * 0 == 0); } }
pub proof fn dot_colin(v: Seq<Z>, X: Seq<Vc<Z>>, Y: Seq<Vc<Z>>, a: int, b: int, c: int, p: int, q: int, n: nat) requires forall|k: int| 0 <= k < n ==> (#[trigger] Y[k])@[c].v() == p * X[k]@[a].v() + q * X[k]@[b].v() ensures dotcol(v, Y, c, n) == p * dotcol(v, X, a, n) + q * dotcol(v, X, b, n) decreases n
{ if n > 0 { dot_colin(v, X, Y, a, b, c, p, q, (n - 1) as nat); let x = X[n - 1]@[a].v(); let y = X[n - 1]@[b].v(); let z = v[n - 1].v(); let s = dotcol(v, X, a, (n - 1) as nat); let t = dotcol(v, X, b, (n - 1) as nat); assert(Y[n - 1]@[c].v() == p * x + q * y);
  assert(z * (p * x + q * y) == p * (z * x) + q * (z * y)) by(nonlinear_arith); assert(p * (s + z * x) == p * s + p * (z * x)) by(nonlinear_arith); assert(q * (t + z * y) == q * t + q * (z * y)) by(nonlinear_arith); } else { assert(p * 0 == 0 && q * 0 == 0); } }
// two rows (columns) replaced by combinations of each other
pub open spec fn rm(y: Seq<Z>, x: Seq<Z>, a: int, b: int, p: int, q: int, r: int, s: int) -> bool {
    &&& y.len() == x.len() && y[a].v() == p * x[a].v() + q * x[b].v() && y[b].v() == r * x[a].v() + s * x[b].v()
    &&& forall|j: int| 0 <= j < x.len() && j != a && j != b ==> #[trigger] y[j] == x[j]
}
pub open spec fn cmix(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) -> bool { Y.len() == X.len() && forall|i: int| 0 <= i < X.len() ==> rm(#[trigger] Y[i]@, X[i]@, a, b, p, q, r, s) }
pub open spec fn lin(v: Seq<Z>, x: Seq<Z>, y: Seq<Z>, p: int, q: int) -> bool { v.len() == x.len() && v.len() == y.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).v() == p * x[k].v() + q * y[k].v() }
pub open spec fn rmix(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) -> bool {
    Y.len() == X.len() && lin(Y[a]@, X[a]@, X[b]@, p, q) && lin(Y[b]@, X[a]@, X[b]@, r, s) && forall|i: int| 0 <= i < X.len() && i != a && i != b ==> #[trigger] Y[i] == X[i]
}
pub proof fn rmix_sq(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), rmix(Y, X, a, b, p, q, r, s) ensures sqm(Y)
{ assert forall|i: int| 0 <= i < Y.len() implies (#[trigger] Y[i])@.len() == Y.len() by { assert(X[a]@.len() == X.len()); if i != a && i != b { assert(Y[i] == X[i]); assert(X[i]@.len() == X.len()); } } }
pub proof fn det_lin(m: Seq<Vc<Z>>, i: int, v: Vc<Z>, x: Vc<Z>, y: Vc<Z>, p: int, q: int) requires sqm(m), 0 <= i < m.len(), v@.len() == m.len(), lin(v@, x@, y@, p, q) ensures mdet(m.update(i, v)) == p * mdet(m.update(i, x)) + q * mdet(m.update(i, y))
{ det_expand(m, i, v); det_expand(m, i, x); det_expand(m, i, y); dot_lin(v@, x@, y@, p, q, adj(m), i, m.len()); }
pub proof fn det_rmix(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), a != b, rmix(Y, X, a, b, p, q, r, s) ensures mdet(Y) == (p * s - q * r) * mdet(X)
{ let n = X.len(); let D = mdet(X); rmix_sq(Y, X, a, b, p, q, r, s); assert(X[a]@.len() == n && X[b]@.len() == n && Y[a]@.len() == n && Y[b]@.len() == n);
  let M = X.update(a, Y[a]); upd_sq(X, a, Y[a]); assert(Y =~= M.update(b, Y[b])); det_lin(M, b, Y[b], X[a], X[b], r, s);
  let W = X.update(b, X[a]); upd_sq(X, b, X[a]); assert(M.update(b, X[b]) =~= M); assert(M.update(b, X[a]) =~= W.update(a, Y[a]));
  det_lin(X, a, Y[a], X[a], X[b], p, q); assert(X.update(a, X[a]) =~= X); det_samerow(X, b, a);
  det_lin(W, a, Y[a], X[a], X[b], p, q); assert(W.update(a, X[a]) =~= W); det_samerow(X, a, b);
  let V = W.update(a, X[b]); assert(mdet(V) == -D) by { if a < b { det_swap(X, a, b); assert(V =~= X.update(a, X[b]).update(b, X[a])); } else { det_swap(X, b, a); assert(V =~= X.update(b, X[a]).update(a, X[b])); } }
  assert(mdet(M) == p * D + q * 0); assert(mdet(W.update(a, Y[a])) == p * 0 + q * (-D)); assert(q * 0 == 0 && p * 0 == 0);
  assert(r * (q * (-D)) + s * (p * D) == (p * s - q * r) * D) by(nonlinear_arith); }
pub proof fn cm_trn(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), a != b, cmix(Y, X, a, b, p, q, r, s) ensures sqm(Y), rmix(trn(Y), trn(X), a, b, p, q, r, s)
{ let n = X.len(); assert forall|i: int| 0 <= i < n implies (#[trigger] Y[i])@.len() == n by { assert(rm(Y[i]@, X[i]@, a, b, p, q, r, s)); assert(X[i]@.len() == n); }
  let T = trn(Y); let U = trn(X); assert forall|k: int| 0 <= k < n implies (#[trigger] T[a]@[k]).v() == p * U[a]@[k].v() + q * U[b]@[k].v() by { assert(rm(Y[k]@, X[k]@, a, b, p, q, r, s)); }
  assert forall|k: int| 0 <= k < n implies (#[trigger] T[b]@[k]).v() == r * U[a]@[k].v() + s * U[b]@[k].v() by { assert(rm(Y[k]@, X[k]@, a, b, p, q, r, s)); }
  assert forall|j: int| 0 <= j < n && j != a && j != b implies #[trigger] T[j] == U[j] by { assert(T[j]@ =~= U[j]@) by { assert forall|k: int| 0 <= k < n implies T[j]@[k] == U[j]@[k] by { assert(rm(Y[k]@, X[k]@, a, b, p, q, r, s)); assert(X[k]@.len() == n); assert(Y[k]@[j] == X[k]@[j]); } } } }
pub proof fn det_cmix(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int) requires sqm(X), 0 <= a < X.len(), 0 <= b < X.len(), a != b, cmix(Y, X, a, b, p, q, r, s) ensures sqm(Y), mdet(Y) == (p * s - q * r) * mdet(X)
{ cm_trn(Y, X, a, b, p, q, r, s); trn_sq(X); det_rmix(trn(Y), trn(X), a, b, p, q, r, s); det_trn(X); det_trn(Y); }
// A == L * X * R
pub open spec fn st(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>) -> bool {
    let n = X.len();
    &&& n > 0 && L.len() == n && A.len() == n && R.len() == n && sqm(X) && sqm(A) && unimod(L) && unimod(R)
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ment(A, i, j) == dotcol(mulm(L, X)[i]@, R, j, n)
}
pub open spec fn pm1(e: int) -> bool { e == 1 || e == -1 }
pub proof fn pm_mul(e: int, d: int) requires pm1(e) ensures e * d == d || e * d == -d, pm1(d) ==> pm1(e * d) { assert(e * d == d || e * d == -d) by(nonlinear_arith) requires e == 1 || e == -1; }
pub proof fn st_r(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, L2: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int)
    requires st(X, L, A, R), 0 <= a < X.len(), 0 <= b < X.len(), a != b, rmix(L2, L, a, b, p, q, r, s), rmix(A2, A, a, b, p, q, r, s), pm1(p * s - q * r) ensures st(X, L2, A2, R)
{ let n = X.len(); rmix_sq(L2, L, a, b, p, q, r, s); rmix_sq(A2, A, a, b, p, q, r, s); det_rmix(L2, L, a, b, p, q, r, s); pm_mul(p * s - q * r, mdet(L));
  let P = mulm(L, X); let Q = mulm(L2, X);
  assert forall|k: int| 0 <= k < n implies (#[trigger] Q[a]@[k]).v() == p * P[a]@[k].v() + q * P[b]@[k].v() by { dot_lin(L2[a]@, L[a]@, L[b]@, p, q, X, k, n); }
  assert forall|k: int| 0 <= k < n implies (#[trigger] Q[b]@[k]).v() == r * P[a]@[k].v() + s * P[b]@[k].v() by { dot_lin(L2[b]@, L[a]@, L[b]@, r, s, X, k, n); }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ment(A2, i, j) == dotcol(Q[i]@, R, j, n) by {
    assert(A2[a]@.len() == n && A2[b]@.len() == n); assert(ment(A, a, j) == dotcol(P[a]@, R, j, n)); assert(ment(A, b, j) == dotcol(P[b]@, R, j, n));
    if i == a { assert(A2[a]@[j].v() == p * A[a]@[j].v() + q * A[b]@[j].v()); dot_lin(Q[a]@, P[a]@, P[b]@, p, q, R, j, n); }
    else if i == b { assert(A2[b]@[j].v() == r * A[a]@[j].v() + s * A[b]@[j].v()); dot_lin(Q[b]@, P[a]@, P[b]@, r, s, R, j, n); }
    else { assert(A2[i] == A[i]); assert(L2[i] == L[i]); assert(ment(A, i, j) == dotcol(P[i]@, R, j, n)); assert(Q[i] == P[i]); } } }
pub proof fn st_c(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, R2: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int)
    requires st(X, L, A, R), 0 <= a < X.len(), 0 <= b < X.len(), a != b, cmix(R2, R, a, b, p, q, r, s), cmix(A2, A, a, b, p, q, r, s), pm1(p * s - q * r) ensures st(X, L, A2, R2)
{ let n = X.len(); det_cmix(R2, R, a, b, p, q, r, s); det_cmix(A2, A, a, b, p, q, r, s); pm_mul(p * s - q * r, mdet(R)); let P = mulm(L, X);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ment(A2, i, j) == dotcol(P[i]@, R2, j, n) by {
    assert(rm(A2[i]@, A[i]@, a, b, p, q, r, s)); assert(A[i]@.len() == n); assert(ment(A, i, a) == dotcol(P[i]@, R, a, n)); assert(ment(A, i, b) == dotcol(P[i]@, R, b, n)); assert(ment(A, i, j) == dotcol(P[i]@, R, j, n));
    if j == a { assert forall|k: int| 0 <= k < n implies (#[trigger] R2[k])@[a].v() == p * R[k]@[a].v() + q * R[k]@[b].v() by { assert(rm(R2[k]@, R[k]@, a, b, p, q, r, s)); } dot_colin(P[i]@, R, R2, a, b, a, p, q, n); }
    else if j == b { assert forall|k: int| 0 <= k < n implies (#[trigger] R2[k])@[b].v() == r * R[k]@[a].v() + s * R[k]@[b].v() by { assert(rm(R2[k]@, R[k]@, a, b, p, q, r, s)); } dot_colin(P[i]@, R, R2, a, b, b, r, s, n); }
    else { assert(A2[i]@[j] == A[i]@[j]); assert forall|k: int| 0 <= k < n implies (#[trigger] R2[k])@[j].v() == 1 * R[k]@[j].v() + 0 * R[k]@[j].v() by { assert(rm(R2[k]@, R[k]@, a, b, p, q, r, s)); assert(R[k]@.len() == n); assert(R2[k]@[j] == R[k]@[j]); let y = R[k]@[j].v(); assert(1 * y == y && 0 * y == 0); }
      dot_colin(P[i]@, R, R2, j, j, j, 1, 0, n); let y = dotcol(P[i]@, R, j, n); assert(1 * y == y && 0 * y == 0); } } }
pub open spec fn rneg(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int) -> bool { Y.len() == X.len() && Y[a]@.len() == X[a]@.len() && (forall|k: int| 0 <= k < X[a]@.len() ==> (#[trigger] Y[a]@[k]).v() == -1 * X[a]@[k].v()) && forall|i: int| 0 <= i < X.len() && i != a ==> #[trigger] Y[i] == X[i] }
pub proof fn det_neg(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int) requires sqm(X), 0 <= a < X.len(), rneg(Y, X, a) ensures sqm(Y), mdet(Y) == -mdet(X)
{ assert(X[a]@.len() == X.len()); assert forall|r: int| 0 <= r < Y.len() implies (#[trigger] Y[r])@.len() == Y.len() && X[r]@.len() == Y.len() by { assert(X[r]@.len() == X.len()); if r != a { assert(Y[r] == X[r]); } }
  assert(rowscaled(Y, X, a, -1)); det_scale(Y, X, a, -1); }
pub proof fn st_n(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, L2: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, a: int) requires st(X, L, A, R), 0 <= a < X.len(), rneg(L2, L, a), rneg(A2, A, a) ensures st(X, L2, A2, R)
{ let n = X.len(); det_neg(L2, L, a); det_neg(A2, A, a); let P = mulm(L, X); let Q = mulm(L2, X); assert(L[a]@.len() == n && A[a]@.len() == n);
  assert forall|k: int| 0 <= k < n implies (#[trigger] Q[a]@[k]).v() == -1 * P[a]@[k].v() by { dot_scal(-1, L[a]@, L2[a]@, X, k, n); }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ment(A2, i, j) == dotcol(Q[i]@, R, j, n) by { assert(ment(A, i, j) == dotcol(P[i]@, R, j, n));
    if i == a { assert(A2[a]@[j].v() == -1 * A[a]@[j].v()); dot_scal(-1, P[a]@, Q[a]@, R, j, n); } else { assert(A2[i] == A[i]); assert(L2[i] == L[i]); assert(Q[i] == P[i]); } } }
pub proof fn st_id(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, R: Seq<Vc<Z>>) requires sqm(X), X.len() > 0, L =~= idm(X.len()), R =~= idm(X.len()) ensures st(X, L, X, R)
{ let n = X.len(); det_id(n); idm_sq(n); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ment(X, i, j) == dotcol(mulm(L, X)[i]@, R, j, n) by { comb_unit(X, i); assert(mulm(L, X)[i] == X[i]); dot_idm(X[i]@, n, j, n); } }
pub proof fn st_det(X: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>) requires st(X, L, A, R) ensures mdet(A) == mdet(X) || mdet(A) == -mdet(X)
{ let n = X.len(); let P = mulm(L, X); det_prod(L, X); mul_sq(L, X); det_prod(P, R); let Q = mulm(P, R);
  assert(Q =~= A) by { assert forall|i: int| 0 <= i < n implies Q[i] == A[i] by { assert(A[i]@.len() == n); assert(Q[i]@ =~= A[i]@) by { assert forall|j: int| 0 <= j < n implies Q[i]@[j] == A[i]@[j] by { assert(ment(A, i, j) == dotcol(P[i]@, R, j, n)); } } } }
  let d = mdet(X); let e = mdet(L); let f = mdet(R); assert((e * d) * f == d || (e * d) * f == -d) by(nonlinear_arith) requires e == 1 || e == -1, f == 1 || f == -1; }
// the first k rows and columns are already diagonal with positive entries
pub open spec fn zp(A: Seq<Vc<Z>>, k: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < A.len() && 0 <= j < A.len() && i != j && (i < k || j < k) ==> #[trigger] ment(A, i, j) == 0
    &&& forall|i: int| 0 <= i < k && i < A.len() ==> #[trigger] ment(A, i, i) >= 1
}
pub proof fn zp_c(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, k: int) requires sqm(X), zp(X, k), 0 <= k <= a < X.len(), k <= b < X.len(), cmix(Y, X, a, b, p, q, r, s) ensures zp(Y, k)
{ let n = X.len(); assert(p * 0 == 0 && q * 0 == 0 && r * 0 == 0 && s * 0 == 0);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (i < k || j < k) && i != j implies #[trigger] ment(Y, i, j) == 0 by { assert(rm(Y[i]@, X[i]@, a, b, p, q, r, s)); assert(X[i]@.len() == n);
    if i < k { assert(ment(X, i, a) == 0); assert(ment(X, i, b) == 0); } if j != a && j != b { assert(Y[i]@[j] == X[i]@[j]); assert(ment(X, i, j) == 0); } }
  assert forall|i: int| 0 <= i < k && i < n implies #[trigger] ment(Y, i, i) >= 1 by { assert(rm(Y[i]@, X[i]@, a, b, p, q, r, s)); assert(X[i]@.len() == n); assert(Y[i]@[i] == X[i]@[i]); assert(ment(X, i, i) >= 1); } }
pub proof fn zp_r(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, k: int) requires sqm(X), zp(X, k), 0 <= k <= a < X.len(), k <= b < X.len(), rmix(Y, X, a, b, p, q, r, s) ensures zp(Y, k)
{ let n = X.len(); assert(p * 0 == 0 && q * 0 == 0 && r * 0 == 0 && s * 0 == 0); assert(X[a]@.len() == n);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (i < k || j < k) && i != j implies #[trigger] ment(Y, i, j) == 0 by {
    if i == a || i == b { assert(ment(X, a, j) == 0); assert(ment(X, b, j) == 0); if i == a { assert(Y[a]@[j].v() == p * X[a]@[j].v() + q * X[b]@[j].v()); } else { assert(Y[b]@[j].v() == r * X[a]@[j].v() + s * X[b]@[j].v()); } } else { assert(Y[i] == X[i]); assert(ment(X, i, j) == 0); } }
  assert forall|i: int| 0 <= i < k && i < n implies #[trigger] ment(Y, i, i) >= 1 by { assert(Y[i] == X[i]); assert(ment(X, i, i) >= 1); } }
pub proof fn zp_n(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, a: int, k: int) requires sqm(X), zp(X, k), 0 <= k <= a < X.len(), rneg(Y, X, a) ensures zp(Y, k)
{ let n = X.len(); assert(X[a]@.len() == n);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (i < k || j < k) && i != j implies #[trigger] ment(Y, i, j) == 0 by { assert(ment(X, i, j) == 0); if i == a { assert(Y[a]@[j].v() == -1 * X[a]@[j].v()); } else { assert(Y[i] == X[i]); } }
  assert forall|i: int| 0 <= i < k && i < n implies #[trigger] ment(Y, i, i) >= 1 by { assert(Y[i] == X[i]); assert(ment(X, i, i) >= 1); } }
// what a series of column (row) steps preserves
pub open spec fn crel(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, R2: Seq<Vc<Z>>, k: int) -> bool {
    &&& sqm(A2) && sqm(R2) && A2.len() == A.len() && R2.len() == R.len() && (mdet(A2) == mdet(A) || mdet(A2) == -mdet(A)) && (zp(A, k) ==> zp(A2, k))
    &&& forall|X: Seq<Vc<Z>>, L: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) ==> st(X, L, A2, R2)
}
pub open spec fn rrel(A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, L2: Seq<Vc<Z>>, k: int) -> bool {
    &&& sqm(A2) && sqm(L2) && A2.len() == A.len() && L2.len() == L.len() && (mdet(A2) == mdet(A) || mdet(A2) == -mdet(A)) && (zp(A, k) ==> zp(A2, k))
    &&& forall|X: Seq<Vc<Z>>, R: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) ==> st(X, L2, A2, R)
}
pub open spec fn drel(X: Seq<Vc<Z>>, L0: Seq<Vc<Z>>, A0: Seq<Vc<Z>>, R0: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A: Seq<Vc<Z>>, R: Seq<Vc<Z>>) -> bool { st(X, L0, A0, R0) ==> st(X, L, A, R) }
pub proof fn crel_refl(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, k: int) requires sqm(A), sqm(R) ensures crel(A, R, A, R, k), rrel(A, R, A, R, k) {}
pub proof fn crel_trans(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, A1: Seq<Vc<Z>>, R1: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, R2: Seq<Vc<Z>>, k: int) requires crel(A, R, A1, R1, k), crel(A1, R1, A2, R2, k) ensures crel(A, R, A2, R2, k)
{ assert forall|X: Seq<Vc<Z>>, L: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) implies st(X, L, A2, R2) by { assert(st(X, L, A1, R1)); } }
pub proof fn rrel_trans(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, A1: Seq<Vc<Z>>, R1: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, R2: Seq<Vc<Z>>, k: int) requires rrel(A, R, A1, R1, k), rrel(A1, R1, A2, R2, k) ensures rrel(A, R, A2, R2, k)
{ assert forall|X: Seq<Vc<Z>>, L: Seq<Vc<Z>>| #[trigger] st(X, R, A, L) implies st(X, R2, A2, L) by { assert(st(X, R1, A1, L)); } }
pub proof fn crel_mix(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, R2: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, k: int)
    requires sqm(A), sqm(R), R.len() == A.len(), 0 <= k <= a < A.len(), k <= b < A.len(), a != b, cmix(A2, A, a, b, p, q, r, s), cmix(R2, R, a, b, p, q, r, s), pm1(p * s - q * r) ensures crel(A, R, A2, R2, k)
{ det_cmix(A2, A, a, b, p, q, r, s); det_cmix(R2, R, a, b, p, q, r, s); pm_mul(p * s - q * r, mdet(A)); if zp(A, k) { zp_c(A2, A, a, b, p, q, r, s, k); }
  assert forall|X: Seq<Vc<Z>>, L: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) implies st(X, L, A2, R2) by { st_c(X, L, A, R, R2, A2, a, b, p, q, r, s); } }
pub proof fn rrel_mix(A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, L2: Seq<Vc<Z>>, a: int, b: int, p: int, q: int, r: int, s: int, k: int)
    requires sqm(A), sqm(L), L.len() == A.len(), 0 <= k <= a < A.len(), k <= b < A.len(), a != b, rmix(A2, A, a, b, p, q, r, s), rmix(L2, L, a, b, p, q, r, s), pm1(p * s - q * r) ensures rrel(A, L, A2, L2, k)
{ rmix_sq(A2, A, a, b, p, q, r, s); rmix_sq(L2, L, a, b, p, q, r, s); det_rmix(A2, A, a, b, p, q, r, s); pm_mul(p * s - q * r, mdet(A)); if zp(A, k) { zp_r(A2, A, a, b, p, q, r, s, k); }
  assert forall|X: Seq<Vc<Z>>, R: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) implies st(X, L2, A2, R) by { st_r(X, L, A, R, L2, A2, a, b, p, q, r, s); } }
pub proof fn rrel_neg(A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, L2: Seq<Vc<Z>>, a: int, k: int) requires sqm(A), sqm(L), L.len() == A.len(), 0 <= k <= a < A.len(), rneg(A2, A, a), rneg(L2, L, a) ensures rrel(A, L, A2, L2, k)
{ det_neg(A2, A, a); det_neg(L2, L, a); if zp(A, k) { zp_n(A2, A, a, k); }
  assert forall|X: Seq<Vc<Z>>, R: Seq<Vc<Z>>| #[trigger] st(X, L, A, R) implies st(X, L2, A2, R) by { st_n(X, L, A, R, L2, A2, a); } }
// sums of multiples
pub open spec fn tsum(t: Seq<Z>, w: Seq<Z>, off: int, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { tsum(t, w, off, lo, hi - 1) + t[hi - 1].v() * w[off + hi - 1].v() } }
pub proof fn tsum_scale(t2: Seq<Z>, t: Seq<Z>, w: Seq<Z>, off: int, lo: int, hi: int, s: int) requires forall|j: int| lo <= j < hi ==> (#[trigger] t2[j]).v() == t[j].v() * s ensures tsum(t2, w, off, lo, hi) == s * tsum(t, w, off, lo, hi) decreases hi - lo
{ if hi > lo { tsum_scale(t2, t, w, off, lo, hi - 1, s); let x = t[hi - 1].v(); let y = w[off + hi - 1].v(); let z = tsum(t, w, off, lo, hi - 1); assert(t2[hi - 1].v() == x * s); assert((x * s) * y == s * (x * y)) by(nonlinear_arith); assert(s * (z + x * y) == s * z + s * (x * y)) by(nonlinear_arith); } else { assert(s * 0 == 0); } }
pub proof fn tsum_first(t: Seq<Z>, w: Seq<Z>, off: int, lo: int, hi: int) requires lo < hi ensures tsum(t, w, off, lo, hi) == t[lo].v() * w[off + lo].v() + tsum(t, w, off, lo + 1, hi) decreases hi - lo
{ if hi > lo + 1 { tsum_first(t, w, off, lo, hi - 1); } else { assert(tsum(t, w, off, lo, lo) == 0); assert(tsum(t, w, off, lo + 1, hi) == 0); } }
pub open spec fn gst(t: Seq<Z>, w: Seq<Z>, off: int, m: int, lo: int, g: int) -> bool { t.len() == m && g == tsum(t, w, off, lo, m) && forall|j: int| lo <= j < m ==> dvd(g, (#[trigger] w[off + j]).v()) }
pub proof fn dvd_refl(a: int) ensures dvd(a, a), dvd(a, 0), dvd(1, a), dvd(-1, a), dvd(a, -a) { assert(a * 1 == a); assert(a * 0 == 0); assert(1 * a == a); assert((-1) * (-a) == a) by(nonlinear_arith); assert(a * (-1) == -a) by(nonlinear_arith); }
pub proof fn dvd_comb(d: int, x: int, y: int, p: int, q: int) requires dvd(d, x), dvd(d, y) ensures dvd(d, p * x + q * y), dvd(d, x * p), dvd(d, p * x) { let k = choose|k: int| #[trigger] (d * k) == x; let l = choose|k: int| #[trigger] (d * k) == y; assert(d * (p * k + q * l) == p * x + q * y) by(nonlinear_arith) requires d * k == x, d * l == y; assert(d * (k * p) == x * p) by(nonlinear_arith) requires d * k == x; assert(p * x == x * p) by(nonlinear_arith); }
pub proof fn dvd_zero(a: int) requires dvd(0, a) ensures a == 0 { let k = choose|k: int| #[trigger] (0 * k) == a; assert(0 * k == 0); }
pub proof fn dvd_neg(d: int, a: int) requires dvd(d, a) ensures dvd(-d, a), dvd(d, -a) { let k = choose|k: int| #[trigger] (d * k) == a; assert((-d) * (-k) == a) by(nonlinear_arith) requires d * k == a; assert(d * (-k) == -a) by(nonlinear_arith) requires d * k == a; }
pub proof fn dvd_le(d: int, a: int) requires dvd(d, a), a != 0 ensures zabs(d) <= zabs(a), d != 0 { let k = choose|k: int| #[trigger] (d * k) == a; assert(d != 0 && k != 0) by(nonlinear_arith) requires d * k == a, a != 0; assert(zabs(d) <= zabs(a)) by(nonlinear_arith) requires d * k == a, k != 0, zabs(d) == (if d >= 0 { d } else { -d }), zabs(a) == (if a >= 0 { a } else { -a }); }
pub proof fn dvd_eq(d: int, a: int) requires dvd(d, a), a != 0, zabs(d) == zabs(a) ensures d == a || d == -a {}
pub proof fn exd(a: int, b: int) requires b != 0, dvd(b, a) ensures fdiv(a, b) * b == a, b * fdiv(a, b) == a, frem(a, b) == 0 { if b > 0 { exact_div(a, b); } else { dvd_neg(b, a); dvd_neg(-b, a); exact_div(-a, -b); let f = (-a) / (-b); assert(fdiv(a, b) == f); assert(f * b == -(f * (-b))) by(nonlinear_arith); assert(b * f == f * b) by(nonlinear_arith); } }
pub proof fn frem_dvd(a: int, b: int) requires b != 0 ensures (frem(a, b) == 0) == dvd(b, a) { if frem(a, b) == 0 { assert(b * fdiv(a, b) == a); } else if dvd(b, a) { exd(a, b); } }
pub proof fn gst_start(t: Seq<Z>, w: Seq<Z>, off: int, m: int) requires t.len() == m, m >= 1, t[m - 1].v() == 1 ensures gst(t, w, off, m, m - 1, w[off + m - 1].v())
{ let g = w[off + m - 1].v(); assert(tsum(t, w, off, m - 1, m - 1) == 0); assert(1 * g == g); dvd_refl(g); }
pub proof fn gst_step(t: Seq<Z>, t2: Seq<Z>, w: Seq<Z>, off: int, m: int, lo: int, g: int, g2: int, r: int, s: int)
    requires gst(t, w, off, m, lo, g), 1 <= lo < m, is_gcd(g2, w[off + lo - 1].v(), g), r * w[off + lo - 1].v() + s * g == g2, t2.len() == m, t2[lo - 1].v() == r, forall|j: int| lo <= j < m ==> (#[trigger] t2[j]).v() == t[j].v() * s ensures gst(t2, w, off, m, lo - 1, g2)
{ tsum_first(t2, w, off, lo - 1, m); tsum_scale(t2, t, w, off, lo, m, s);
  assert forall|j: int| lo - 1 <= j < m implies dvd(g2, (#[trigger] w[off + j]).v()) by { if j >= lo { dvd_trans(g2, g, w[off + j].v()); } } }
// column off gets multiples of the later columns added
pub open spec fn addr(y: Seq<Z>, x: Seq<Z>, off: int, t: Seq<Z>, k: int) -> bool { y.len() == x.len() && y[off].v() == x[off].v() + tsum(t, x, off, 1, k) && forall|j: int| 0 <= j < x.len() && j != off ==> #[trigger] y[j] == x[j] }
pub open spec fn cadd(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) -> bool { Y.len() == X.len() && forall|i: int| 0 <= i < X.len() ==> addr(#[trigger] Y[i]@, X[i]@, off, t, k) }
pub open spec fn caddm(X: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) -> Seq<Vc<Z>> { Seq::new(X.len(), |i: int| Vc { g: Ghost(X[i]@.update(off, mkz(X[i]@[off].v() + tsum(t, X[i]@, off, 1, k)))) }) }
pub proof fn caddm_ok(X: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) requires sqm(X), 0 <= off < X.len() ensures cadd(caddm(X, off, t, k), X, off, t, k), sqm(caddm(X, off, t, k))
{ assert forall|i: int| 0 <= i < X.len() implies addr(#[trigger] caddm(X, off, t, k)[i]@, X[i]@, off, t, k) by { assert(X[i]@.len() == X.len()); } }
pub proof fn cadd_eq(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) requires sqm(X), 0 <= off < X.len(), cadd(Y, X, off, t, k) ensures Y =~= caddm(X, off, t, k)
{ let C = caddm(X, off, t, k); caddm_ok(X, off, t, k); assert forall|i: int| 0 <= i < X.len() implies Y[i] == C[i] by { assert(addr(Y[i]@, X[i]@, off, t, k)); assert(addr(C[i]@, X[i]@, off, t, k)); assert(Y[i]@ =~= C[i]@) by { assert forall|j: int| 0 <= j < X[i]@.len() implies Y[i]@[j] == C[i]@[j] by { if j != off { assert(Y[i]@[j] == X[i]@[j]); assert(C[i]@[j] == X[i]@[j]); } } } } }
pub proof fn cadd_mix(X: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) requires sqm(X), 0 <= off, 1 <= k, off + k < X.len() ensures cmix(caddm(X, off, t, k + 1), caddm(X, off, t, k), off, off + k, 1, t[k].v(), 0, 1)
{ let Y = caddm(X, off, t, k + 1); let W = caddm(X, off, t, k); assert forall|i: int| 0 <= i < X.len() implies rm(#[trigger] Y[i]@, W[i]@, off, off + k, 1, t[k].v(), 0, 1) by { assert(X[i]@.len() == X.len()); let a = W[i]@[off].v(); let b = W[i]@[off + k].v(); assert(1 * a == a && 0 * a == 0 && 1 * b == b); } }
pub proof fn crel_add(A: Seq<Vc<Z>>, R: Seq<Vc<Z>>, off: int, t: Seq<Z>, k: int) requires sqm(A), sqm(R), R.len() == A.len(), 0 <= off, 1 <= k, off + k <= A.len() ensures crel(A, R, caddm(A, off, t, k), caddm(R, off, t, k), off) decreases k
{ caddm_ok(A, off, t, k); caddm_ok(R, off, t, k);
  if k == 1 { assert(caddm(A, off, t, 1) =~= A) by { add0(A, off, t); } assert(caddm(R, off, t, 1) =~= R) by { add0(R, off, t); } crel_refl(A, R, off); }
  else { let l = k - 1; crel_add(A, R, off, t, l); caddm_ok(A, off, t, l); caddm_ok(R, off, t, l); cadd_mix(A, off, t, l); cadd_mix(R, off, t, l);
    let x = t[l].v(); assert(x * 0 == 0); crel_mix(caddm(A, off, t, l), caddm(R, off, t, l), caddm(A, off, t, k), caddm(R, off, t, k), off, off + l, 1, x, 0, 1, off); crel_trans(A, R, caddm(A, off, t, l), caddm(R, off, t, l), caddm(A, off, t, k), caddm(R, off, t, k), off); } }
pub proof fn add0(X: Seq<Vc<Z>>, off: int, t: Seq<Z>) requires sqm(X), 0 <= off < X.len() ensures forall|i: int| 0 <= i < X.len() ==> #[trigger] caddm(X, off, t, 1)[i] == X[i]
{ assert forall|i: int| 0 <= i < X.len() implies #[trigger] caddm(X, off, t, 1)[i] == X[i] by { assert(X[i]@.len() == X.len()); assert(tsum(t, X[i]@, off, 1, 1) == 0); assert(caddm(X, off, t, 1)[i]@ =~= X[i]@); } }
// partial updates, row by row
pub open spec fn partc(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, a: int, b: int, p: int, q: int, r: int, s: int) -> bool { Y.len() == X.len() && (forall|k: int| 0 <= k < i ==> rm(#[trigger] Y[k]@, X[k]@, a, b, p, q, r, s)) && forall|k: int| i <= k < X.len() ==> #[trigger] Y[k] == X[k] }
pub proof fn partc_step(Y: Seq<Vc<Z>>, Y2: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, a: int, b: int, p: int, q: int, r: int, s: int) requires partc(Y, X, i, a, b, p, q, r, s), 0 <= i < X.len(), Y2.len() == Y.len(), rm(Y2[i]@, X[i]@, a, b, p, q, r, s), forall|k: int| 0 <= k < Y.len() && k != i ==> #[trigger] Y2[k] == Y[k] ensures partc(Y2, X, i + 1, a, b, p, q, r, s)
{ assert forall|k: int| 0 <= k < i + 1 implies rm(#[trigger] Y2[k]@, X[k]@, a, b, p, q, r, s) by { if k < i { assert(Y2[k] == Y[k]); assert(rm(Y[k]@, X[k]@, a, b, p, q, r, s)); } } assert forall|k: int| i + 1 <= k < X.len() implies #[trigger] Y2[k] == X[k] by { assert(Y2[k] == Y[k]); } }
pub open spec fn parta(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, off: int, t: Seq<Z>, m: int) -> bool { Y.len() == X.len() && (forall|k: int| 0 <= k < i ==> addr(#[trigger] Y[k]@, X[k]@, off, t, m)) && forall|k: int| i <= k < X.len() ==> #[trigger] Y[k] == X[k] }
pub proof fn parta_step(Y: Seq<Vc<Z>>, Y2: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, off: int, t: Seq<Z>, m: int) requires parta(Y, X, i, off, t, m), 0 <= i < X.len(), Y2.len() == Y.len(), addr(Y2[i]@, X[i]@, off, t, m), forall|k: int| 0 <= k < Y.len() && k != i ==> #[trigger] Y2[k] == Y[k] ensures parta(Y2, X, i + 1, off, t, m)
{ assert forall|k: int| 0 <= k < i + 1 implies addr(#[trigger] Y2[k]@, X[k]@, off, t, m) by { if k < i { assert(Y2[k] == Y[k]); assert(addr(Y[k]@, X[k]@, off, t, m)); } } assert forall|k: int| i + 1 <= k < X.len() implies #[trigger] Y2[k] == X[k] by { assert(Y2[k] == Y[k]); } }
// common divisors
pub open spec fn alld(d: int, x: Seq<Z>, lo: int) -> bool { forall|j: int| lo <= j < x.len() ==> dvd(d, (#[trigger] x[j]).v()) }
pub open spec fn cdiv(y: Seq<Z>, x: Seq<Z>, off: int) -> bool { forall|d: int| #[trigger] alld(d, y, off + 1) ==> alld(d, x, off) }
pub open spec fn colv(A: Seq<Vc<Z>>, c: int) -> Seq<Z> { Seq::new(A.len(), |j: int| A[j]@[c]) }
pub proof fn cdiv_zero(x: Seq<Z>, off: int) requires 0 <= off < x.len(), x[off].v() == 0 ensures cdiv(x, x, off)
{ assert forall|d: int| #[trigger] alld(d, x, off + 1) implies alld(d, x, off) by { dvd_refl(d); } }
pub proof fn cdiv_swap(y: Seq<Z>, x: Seq<Z>, off: int) requires 0 <= off, off + 1 < x.len(), rm(y, x, off, off + 1, 0, 1, 1, 0), x[off + 1].v() == 0 ensures cdiv(y, x, off), y[off].v() == 0
{ let u = x[off].v(); let v = x[off + 1].v(); assert(0 * u == 0 && 1 * u == u && 1 * v == v && 0 * v == 0);
  assert forall|d: int| #[trigger] alld(d, y, off + 1) implies alld(d, x, off) by { dvd_refl(d); assert(dvd(d, y[off + 1].v())); assert forall|j: int| off <= j < x.len() implies dvd(d, (#[trigger] x[j]).v()) by { if j > off + 1 { assert(y[j] == x[j]); assert(dvd(d, y[j].v())); } } } }
pub proof fn cdiv_gcd(y: Seq<Z>, x: Seq<Z>, off: int, g: int, p: int, q: int, r: int, s: int) requires 0 <= off, off + 1 < x.len(), rm(y, x, off, off + 1, p, q, r, s), x[off].v() != 0, is_gcd(g, x[off].v(), x[off + 1].v()), r * x[off].v() + s * x[off + 1].v() == g, p == fdiv(x[off + 1].v(), g), q == fdiv(-1 * x[off].v(), g)
    ensures cdiv(y, x, off), y[off].v() == 0, p * s - q * r == 1
{ let u = x[off].v(); let v = x[off + 1].v(); dvd_le(g, u); exd(v, g); dvd_neg(g, u); assert(-1 * u == -u); exd(-u, g); let e = p * s - q * r;
  assert(e * g == g) by(nonlinear_arith) requires p * g == v, q * g == -u, r * u + s * v == g, e == p * s - q * r; assert(e == 1) by(nonlinear_arith) requires e * g == g, g != 0;
  let w = p * u + q * v; assert(w * g == 0) by(nonlinear_arith) requires p * g == v, q * g == -u, w == p * u + q * v; assert(w == 0) by(nonlinear_arith) requires w * g == 0, g != 0;
  assert forall|d: int| #[trigger] alld(d, y, off + 1) implies alld(d, x, off) by { assert(dvd(d, y[off + 1].v())); dvd_trans(d, g, u); dvd_trans(d, g, v); assert forall|j: int| off <= j < x.len() implies dvd(d, (#[trigger] x[j]).v()) by { if j > off + 1 { assert(y[j] == x[j]); assert(dvd(d, y[j].v())); } } } }
// a nonsingular matrix has no zero row or column
pub proof fn row_nz(A: Seq<Vc<Z>>, i: int) requires sqm(A), 0 <= i < A.len(), mdet(A) != 0, forall|j: int| 0 <= j < A.len() && j != i ==> #[trigger] ment(A, i, j) == 0 ensures ment(A, i, i) != 0
{ if ment(A, i, i) == 0 { let n = A.len(); assert(A[i]@.len() == n); assert forall|k: int| 0 <= k < n implies (#[trigger] A[i]@[k]).v() == 0 * A[i]@[k].v() by { assert(ment(A, i, k) == 0); let y = A[i]@[k].v(); assert(0 * y == 0); }
  assert forall|r: int| 0 <= r < n implies (#[trigger] A[r])@.len() == n by {} assert(rowscaled(A, A, i, 0)); det_scale(A, A, i, 0); let d = mdet(A); assert(0 * d == 0); } }
pub proof fn col_nz(A: Seq<Vc<Z>>, i: int) requires sqm(A), 0 <= i < A.len(), mdet(A) != 0, forall|j: int| 0 <= j < A.len() && j != i ==> #[trigger] ment(A, j, i) == 0 ensures ment(A, i, i) != 0
{ det_trn(A); trn_sq(A); let T = trn(A); assert forall|j: int| 0 <= j < A.len() && j != i implies #[trigger] ment(T, i, j) == 0 by { assert(ment(A, j, i) == 0); } row_nz(T, i); }
@end
