@include kcone.vc
@include dett.vc
@include comb.vc proved
@rs
// ---- lattice points of a half-open parallelepiped: linear algebra over matrices acting on columns
pub open spec fn mv(A: Seq<Vc<Z>>, y: Seq<Z>) -> Seq<Z> { Seq::new(A.len(), |l: int| mkz(dot(A[l]@, y, A.len()))) }
pub open spec fn colm(v: Seq<Z>) -> Seq<Vc<Z>> { Seq::new(v.len(), |k: int| Vc { g: Ghost(Seq::new(v.len(), |j: int| v[k])) }) }
pub open spec fn had(d: Seq<Z>, y: Seq<Z>) -> Seq<Z> { Seq::new(d.len(), |i: int| mkz(d[i].v() * y[i].v())) }
pub open spec fn vad(a: Seq<Z>, b: Seq<Z>) -> Seq<Z> { Seq::new(a.len(), |i: int| mkz(a[i].v() + b[i].v())) }
pub open spec fn vsu(a: Seq<Z>, b: Seq<Z>) -> Seq<Z> { Seq::new(a.len(), |i: int| mkz(a[i].v() - b[i].v())) }
pub proof fn dot_colm(a: Seq<Z>, v: Seq<Z>, n: nat) requires n <= v.len(), v.len() > 0 ensures dotcol(a, colm(v), 0, n) == dot(a, v, n) decreases n
{ if n > 0 { dot_colm(a, v, (n - 1) as nat); } }
// (a A) . y == a . (A y)
pub proof fn assoc_mv(a: Seq<Z>, A: Seq<Vc<Z>>, y: Seq<Z>) requires sqm(A), y.len() == A.len(), A.len() > 0 ensures dot(combv(a, A, A.len(), A.len())@, y, A.len()) == dot(a, mv(A, y), A.len())
{ let n = A.len(); let P = mulm(A, colm(y)); dot_assoc(a, A, colm(y), 0, n); dot_colm(combv(a, A, n, n)@, y, n); dot_colm(a, mv(A, y), n);
  assert forall|i: int| 0 <= i < n implies (#[trigger] P[i])@[0].v() == colm(mv(A, y))[i]@[0].v() by { dot_colm(A[i]@, y, n); }
  dot_ext(a, P, colm(mv(A, y)), 0, n); }
// (A B) y == A (B y)
pub proof fn mv_mul(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, y: Seq<Z>) requires sqm(A), sqm(B), A.len() == B.len(), y.len() == A.len(), A.len() > 0 ensures mv(mulm(A, B), y) =~= mv(A, mv(B, y))
{ assert forall|l: int| 0 <= l < A.len() implies mv(mulm(A, B), y)[l] == mv(A, mv(B, y))[l] by { assoc_mv(A[l]@, B, y); } }
pub proof fn dot_add(a: Seq<Z>, x: Seq<Z>, y: Seq<Z>, z: Seq<Z>, n: nat) requires forall|i: int| 0 <= i < n ==> (#[trigger] z[i]).v() == x[i].v() + y[i].v() ensures dot(a, z, n) == dot(a, x, n) + dot(a, y, n) decreases n
{ if n > 0 { dot_add(a, x, y, z, (n - 1) as nat); let p = a[n - 1].v(); let q = x[n - 1].v(); let r = y[n - 1].v(); assert(z[n - 1].v() == q + r); assert(p * (q + r) == p * q + p * r) by(nonlinear_arith); } }
pub proof fn mv_add(A: Seq<Vc<Z>>, x: Seq<Z>, y: Seq<Z>) requires x.len() == A.len(), y.len() == A.len() ensures mv(A, vad(x, y)) =~= vad(mv(A, x), mv(A, y))
{ assert forall|l: int| 0 <= l < A.len() implies mv(A, vad(x, y))[l] == vad(mv(A, x), mv(A, y))[l] by { dot_add(A[l]@, x, y, vad(x, y), A.len()); } }
pub proof fn mv_sub(A: Seq<Vc<Z>>, x: Seq<Z>, y: Seq<Z>) requires x.len() == A.len(), y.len() == A.len() ensures mv(A, vsu(x, y)) =~= vsu(mv(A, x), mv(A, y))
{ assert forall|l: int| 0 <= l < A.len() implies mv(A, vsu(x, y))[l] == vsu(mv(A, x), mv(A, y))[l] by { dot_add(A[l]@, vsu(x, y), y, x, A.len()); } }
// a matrix whose product with another is d times the identity
pub proof fn mv_unit(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, d: int, y: Seq<Z>) requires sqm(A), sqm(B), A.len() == B.len(), A.len() > 0, unitm(A, B, A.len(), d), y.len() == A.len()
    ensures forall|l: int| 0 <= l < A.len() ==> (#[trigger] mv(A, mv(B, y))[l]).v() == d * y[l].v()
{ let n = A.len(); mv_mul(A, B, y); let P = mulm(A, B);
  assert forall|l: int| 0 <= l < n implies (#[trigger] mv(A, mv(B, y))[l]).v() == d * y[l].v() by {
    assert(mv(P, y)[l] == mv(A, mv(B, y))[l]);
    assert forall|j: int| 0 <= j < n implies (#[trigger] P[l]@[j]).v() == (if j == l { d } else { 0 }) by { assert(dotcol(A[l]@, B, j, n) == (if l == j { d } else { 0 })); }
    dot_one(P[l]@, y, l, d, n); } }
pub proof fn dot_one(a: Seq<Z>, y: Seq<Z>, l: int, d: int, n: nat) requires forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).v() == (if j == l { d } else { 0 }) ensures dot(a, y, n) == (if 0 <= l < n { d * y[l].v() } else { 0 }) decreases n
{ if n > 0 { dot_one(a, y, l, d, (n - 1) as nat); assert(a[n - 1].v() == (if n - 1 == l { d } else { 0 })); let x = y[n - 1].v(); assert(0 * x == 0); } }
// dot product of a facet with a combination of the rays
pub proof fn fac_rays(R: Seq<Vc<Z>>, F: Vc<Z>, i: int, fd: int, c: Seq<Z>) requires square(R), R.len() > 0, facets_ok(R, F, i, fd), 0 <= i < R.len(), c.len() == R.len() ensures dot(F@, mv(trn(R), c), R.len()) == -(fd * c[i].v())
{ let n = R.len(); let U = trn(R); assoc_mv(F@, U, c); let w = combv(F@, U, n, n)@;
  assert forall|k: int| 0 <= k < n implies (#[trigger] w[k]).v() == (if k == i { -fd } else { 0 }) by { assert(w[k].v() == dotcol(F@, U, k, n)); dot_trn(F@, R, k, n); assert(dot(R[k]@, F@, R.len()) == (if k == i { -fd } else { 0 })); }
  dot_one(w, c, i, -fd, n); let x = c[i].v(); assert((-fd) * x == -(fd * x)) by(nonlinear_arith); }
pub proof fn dot_trn(a: Seq<Z>, R: Seq<Vc<Z>>, j: int, q: nat) requires q <= R.len(), 0 <= j < R.len() ensures dotcol(a, trn(R), j, q) == dot(R[j]@, a, q) decreases q
{ if q > 0 { dot_trn(a, R, j, (q - 1) as nat); let x = a[q - 1].v(); let y = R[j]@[q - 1].v(); assert(x * y == y * x) by(nonlinear_arith); } }
pub open spec fn fvals(F: Seq<Vc<Z>>, x: Seq<Z>) -> Seq<Z> { Seq::new(F.len(), |i: int| mkz(dot(F[i]@, x, F.len()))) }
// fs[i] * fd[i] == D
pub open spec fn fscale(fs: Seq<Z>, fd: Seq<Z>, D: int) -> bool { fs.len() == fd.len() && forall|i: int| 0 <= i < fd.len() ==> (#[trigger] fs[i]).v() * fd[i].v() == D }
pub open spec fn vng(a: Seq<Z>) -> Seq<Z> { Seq::new(a.len(), |i: int| mkz(-a[i].v())) }
pub open spec fn rowsY(F: Seq<Vc<Z>>, fs: Seq<Z>) -> Seq<Vc<Z>> { Seq::new(F.len(), |i: int| Vc { g: Ghost(Seq::new(F.len(), |l: int| mkz(-(fs[i].v() * F[i]@[l].v())))) }) }
// rows -fs_i F_i: their product with the matrix of rays is D times the identity
pub proof fn ray_inv(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int) requires square(R), square(F), R.len() > 0, paired(R, F, fd), fscale(fs, fd, D) ensures unitm(rowsY(F, fs), trn(R), R.len(), D), sqm(rowsY(F, fs)), sqm(trn(R))
{ let n = R.len(); let U = trn(R); let Y = rowsY(F, fs);
  assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] dotcol(Y[i]@, U, k, n) == (if i == k { D } else { 0 }) by {
    assert forall|l: int| 0 <= l < n implies (#[trigger] Y[i]@[l]).v() == (-fs[i].v()) * F[i]@[l].v() by { let x = fs[i].v(); let y = F[i]@[l].v(); assert((-x) * y == -(x * y)) by(nonlinear_arith); }
    dot_scal(-fs[i].v(), F[i]@, Y[i]@, U, k, n); dot_trn(F[i]@, R, k, n); assert(facets_ok(R, F[i], i, fd[i].v())); assert(dot(R[k]@, F[i]@, R.len()) == (if k == i { -fd[i].v() } else { 0 }));
    assert(fs[i].v() * fd[i].v() == D); let x = fs[i].v(); let y = fd[i].v(); assert((-x) * (-y) == x * y) by(nonlinear_arith); assert((-x) * 0 == 0); }
}
// a vector is recovered from its products with the facets: D p == - sum_i <F_i, p> fs_i R_i
pub proof fn recover(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, p: Seq<Z>) requires square(R), square(F), R.len() > 0, paired(R, F, fd), fscale(fs, fd, D), D != 0, p.len() == R.len()
    ensures forall|l: int| 0 <= l < R.len() ==> (#[trigger] mv(trn(R), had(fs, vng(fvals(F, p))))[l]).v() == D * p[l].v()
{ let n = R.len(); let U = trn(R);
  let Y = rowsY(F, fs); ray_inv(R, F, fd, fs, D);
  inv_left(Y, U, D);
  assert forall|l: int| 0 <= l < n implies (#[trigger] mv(U, had(fs, vng(fvals(F, p))))[l]).v() == D * p[l].v() by {
    mv_unit(U, Y, D, p);
    assert(mv(Y, p) =~= had(fs, vng(fvals(F, p)))) by { assert forall|i: int| 0 <= i < n implies mv(Y, p)[i] == had(fs, vng(fvals(F, p)))[i] by {
      let q = fvals(F, p)[i].v(); let x = fs[i].v(); dot_comm(Y[i]@, p, n); dot_comm(F[i]@, p, n);
      assert forall|l: int| 0 <= l < n implies (#[trigger] Y[i]@[l]).v() == (-x) * F[i]@[l].v() by { let y = F[i]@[l].v(); assert((-x) * y == -(x * y)) by(nonlinear_arith); }
      dot_scaled(p, Y[i]@, F[i]@, -x, n); assert((-x) * q == x * (-q)) by(nonlinear_arith); } }
    assert(mv(U, mv(Y, p))[l].v() == D * p[l].v()); } }
pub proof fn same_vals(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, p: Seq<Z>, q: Seq<Z>) requires square(R), square(F), R.len() > 0, paired(R, F, fd), fscale(fs, fd, D), D != 0, p.len() == R.len(), q.len() == R.len(), fvals(F, p) == fvals(F, q) ensures p =~= q
{ recover(R, F, fd, fs, D, p); recover(R, F, fd, fs, D, q);
  assert forall|l: int| 0 <= l < p.len() implies p[l] == q[l] by { assert(mv(trn(R), had(fs, vng(fvals(F, p))))[l].v() == D * p[l].v()); assert(mv(trn(R), had(fs, vng(fvals(F, q))))[l].v() == D * q[l].v()); ring_cancel(D, p[l].v(), q[l].v()); } }
// W is unimodular (inverse B) and the lattice spanned by the rays is W diag(S): R^T C == W diag(S), C unimodular (inverse K)
pub open spec fn wit(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>, B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>) -> bool {
    let n = R.len();
    &&& W.len() == n && B.len() == n && C.len() == n && K.len() == n && S.len() == n && sqm(W) && sqm(B) && sqm(C) && sqm(K)
    &&& unitm(W, B, n, 1) && unitm(B, W, n, 1) && unitm(C, K, n, 1) && unitm(K, C, n, 1)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] S[i]).v() >= 1
    &&& forall|l: int, j: int| 0 <= l < n && 0 <= j < n ==> #[trigger] dotcol(trn(R)[l]@, C, j, n) == W[l]@[j].v() * S[j].v()
}
pub open spec fn smithy(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>) -> bool { exists|B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>| #[trigger] wit(R, W, S, B, C, K) }
pub proof fn inv_mv(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, y: Seq<Z>) requires sqm(A), sqm(B), A.len() == B.len(), A.len() > 0, unitm(A, B, A.len(), 1), y.len() == A.len() ensures mv(A, mv(B, y)) =~= y
{ mv_unit(A, B, 1, y); assert forall|l: int| 0 <= l < A.len() implies mv(A, mv(B, y))[l] == y[l] by { let x = y[l].v(); assert(mv(A, mv(B, y))[l].v() == 1 * y[l].v()); assert(1 * x == x); } }
pub proof fn dot_had(a: Seq<Z>, s: Seq<Z>, w: Seq<Z>, e: Seq<Z>, n: nat) requires n <= s.len(), forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).v() == w[j].v() * s[j].v() ensures dot(a, e, n) == dot(w, had(s, e), n) decreases n
{ if n > 0 { dot_had(a, s, w, e, (n - 1) as nat); let x = w[n - 1].v(); let y = s[n - 1].v(); let z = e[n - 1].v(); assert(a[n - 1].v() == x * y); assert((x * y) * z == x * (y * z)) by(nonlinear_arith); } }
// R^T (C e) == W (S e)
pub proof fn lat_eq(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>, B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>, e: Seq<Z>) requires wit(R, W, S, B, C, K), R.len() > 0, e.len() == R.len() ensures mv(trn(R), mv(C, e)) =~= mv(W, had(S, e))
{ let n = R.len(); let U = trn(R); mv_mul(U, C, e); let P = mulm(U, C);
  assert forall|l: int| 0 <= l < n implies mv(P, e)[l] == mv(W, had(S, e))[l] by {
    assert forall|j: int| 0 <= j < n implies (#[trigger] P[l]@[j]).v() == W[l]@[j].v() * S[j].v() by { assert(P[l]@[j].v() == dotcol(U[l]@, C, j, n)); }
    dot_had(P[l]@, S, W[l]@, e, n); } }
pub open spec fn mbox(m: Seq<Z>, S: Seq<Z>) -> bool { m.len() == S.len() && forall|j: int| 0 <= j < S.len() ==> 0 <= (#[trigger] m[j]).v() && m[j].v() < S[j].v() }
// x == W m modulo the lattice spanned by the rays
pub open spec fn cong(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, m: Seq<Z>, x: Seq<Z>) -> bool { exists|c: Seq<Z>| c.len() == R.len() && x == #[trigger] vad(mv(W, m), mv(trn(R), c)) }
// beta_i - fd_i < <F_i, x> <= beta_i
pub open spec fn inbox(F: Seq<Vc<Z>>, fd: Seq<Z>, beta: Seq<Z>, x: Seq<Z>) -> bool { x.len() == F.len() && forall|i: int| 0 <= i < F.len() ==> beta[i].v() - fd[i].v() < #[trigger] dot(F[i]@, x, F.len()) && dot(F[i]@, x, F.len()) <= beta[i].v() }
pub proof fn em(y: int, s: int) requires s > 0 ensures 0 <= frem(y, s) < s, y == frem(y, s) + s * fdiv(y, s) { assert(0 <= y - s * (y / s) < s) by(nonlinear_arith) requires s > 0; }
// every integer point is congruent to one with multipliers in the box
pub proof fn has_mult(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>, x: Seq<Z>) -> (m: Seq<Z>) requires smithy(R, W, S), R.len() > 0, x.len() == R.len() ensures mbox(m, S), cong(R, W, m, x)
{ let n = R.len(); let (B, C, K) = choose|B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>| #[trigger] wit(R, W, S, B, C, K);
  let y = mv(B, x); inv_mv(W, B, x);
  let m = Seq::new(n, |j: int| mkz(frem(y[j].v(), S[j].v()))); let e = Seq::new(n, |j: int| mkz(fdiv(y[j].v(), S[j].v())));
  assert forall|j: int| 0 <= j < n implies 0 <= (#[trigger] m[j]).v() && m[j].v() < S[j].v() by { assert(S[j].v() >= 1); em(y[j].v(), S[j].v()); }
  assert(y =~= vad(m, had(S, e))) by { assert forall|j: int| 0 <= j < n implies y[j] == vad(m, had(S, e))[j] by { assert(S[j].v() >= 1); em(y[j].v(), S[j].v()); } }
  mv_add(W, m, had(S, e)); lat_eq(R, W, S, B, C, K, e);
  assert(x =~= vad(mv(W, m), mv(trn(R), mv(C, e)))); m }
pub proof fn vsu_vad(a: Seq<Z>, b: Seq<Z>, c: Seq<Z>, d: Seq<Z>, x: Seq<Z>, y: Seq<Z>) requires a.len() == b.len(), c.len() == b.len(), d.len() == b.len(), x == vad(a, b), y == vad(c, d), x == y ensures vsu(a, c) =~= vsu(d, b)
{ assert forall|i: int| 0 <= i < a.len() implies vsu(a, c)[i] == vsu(d, b)[i] by { assert(x[i].v() == a[i].v() + b[i].v()); assert(y[i].v() == c[i].v() + d[i].v()); } }
pub proof fn modeq(a: int, b: int, k: int, s: int) requires 0 <= a < s, 0 <= b < s, a - b == s * k ensures a == b { assert(k == 0) by(nonlinear_arith) requires 0 <= a < s, 0 <= b < s, a - b == s * k; assert(s * 0 == 0); }
// and to one only
pub proof fn one_mult(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>, x: Seq<Z>, m: Seq<Z>, p: Seq<Z>) requires smithy(R, W, S), R.len() > 0, mbox(m, S), mbox(p, S), cong(R, W, m, x), cong(R, W, p, x) ensures m =~= p
{ let n = R.len(); let U = trn(R); let (B, C, K) = choose|B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>| #[trigger] wit(R, W, S, B, C, K);
  let c = choose|c: Seq<Z>| c.len() == R.len() && x == #[trigger] vad(mv(W, m), mv(U, c)); let d = choose|c: Seq<Z>| c.len() == R.len() && x == #[trigger] vad(mv(W, p), mv(U, c));
  vsu_vad(mv(W, m), mv(U, c), mv(W, p), mv(U, d), x, x); mv_sub(W, m, p); mv_sub(U, d, c);
  let g = vsu(d, c); let e = mv(K, g); inv_mv(C, K, g); lat_eq(R, W, S, B, C, K, e);
  assert(mv(W, vsu(m, p)) == mv(W, had(S, e))); inv_mv(B, W, vsu(m, p)); inv_mv(B, W, had(S, e));
  assert(vsu(m, p) == had(S, e));
  assert forall|j: int| 0 <= j < n implies m[j] == p[j] by { assert(vsu(m, p)[j].v() == m[j].v() - p[j].v()); assert(had(S, e)[j].v() == S[j].v() * e[j].v()); assert(0 <= m[j].v()); assert(0 <= p[j].v()); modeq(m[j].v(), p[j].v(), e[j].v(), S[j].v()); } }
pub proof fn modeq2(a: int, b: int, u: int, k: int, l: int, s: int) requires u - s < a <= u, u - s < b <= u, a + s * k == b + s * l ensures a == b
{ assert(s * (l - k) == s * l - s * k) by(nonlinear_arith); modeq(a - u + s - 1, b - u + s - 1, l - k, s); }
pub proof fn cong_val(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, m: Seq<Z>, c: Seq<Z>, x: Seq<Z>, i: int) requires square(R), R.len() > 0, W.len() == R.len(), paired(R, F, fd), c.len() == R.len(), x == vad(mv(W, m), mv(trn(R), c)), 0 <= i < R.len()
    ensures dot(F[i]@, x, R.len()) == dot(F[i]@, mv(W, m), R.len()) - fd[i].v() * c[i].v()
{ dot_add(F[i]@, mv(W, m), mv(trn(R), c), x, R.len()); assert(facets_ok(R, F[i], i, fd[i].v())); fac_rays(R, F[i], i, fd[i].v(), c); }
// congruent points of the half-open box are equal
pub proof fn one_point(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, beta: Seq<Z>, W: Seq<Vc<Z>>, m: Seq<Z>, x: Seq<Z>, y: Seq<Z>)
    requires square(R), square(F), R.len() > 0, W.len() == R.len(), paired(R, F, fd), fscale(fs, fd, D), D != 0, inbox(F, fd, beta, x), inbox(F, fd, beta, y), cong(R, W, m, x), cong(R, W, m, y)
    ensures x =~= y
{ let n = R.len(); let U = trn(R);
  let c = choose|c: Seq<Z>| c.len() == R.len() && x == #[trigger] vad(mv(W, m), mv(U, c)); let d = choose|c: Seq<Z>| c.len() == R.len() && y == #[trigger] vad(mv(W, m), mv(U, c));
  assert(fvals(F, x) =~= fvals(F, y)) by { assert forall|i: int| 0 <= i < n implies fvals(F, x)[i] == fvals(F, y)[i] by {
    cong_val(R, F, fd, W, m, c, x, i); cong_val(R, F, fd, W, m, d, y, i);
    modeq2(dot(F[i]@, x, n), dot(F[i]@, y, n), beta[i].v(), c[i].v(), d[i].v(), fd[i].v()); } }
  same_vals(R, F, fd, fs, D, x, y); }
// Smith normal form contract: L A M == diag
pub open spec fn unimod(M: Seq<Vc<Z>>) -> bool { sqm(M) && (mdet(M) == 1 || mdet(M) == -1) }
pub open spec fn smith_of(A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, M: Seq<Vc<Z>>, S: Seq<Vc<Z>>) -> bool {
    let n = A.len();
    &&& L.len() == n && M.len() == n && S.len() == n && sqm(S) && unimod(L) && unimod(M)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] S[i])@[i].v() >= 1
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ment(S, i, j) == dotcol(mulm(L, A)[i]@, M, j, n)
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] ment(S, i, j) == 0
}
pub open spec fn smul(c: int, M: Seq<Vc<Z>>) -> Seq<Vc<Z>> { Seq::new(M.len(), |i: int| scalev(c, M[i])) }
pub proof fn inv_of(M: Seq<Vc<Z>>) -> (X: Seq<Vc<Z>>) requires unimod(M) ensures sqm(X), X.len() == M.len(), unitm(M, X, M.len(), 1), unitm(X, M, M.len(), 1)
{ let n = M.len(); let d = mdet(M); let A = adj(M); adj_two(M); let X = smul(d, A);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(M[i]@, X, j, n) == (if i == j { 1int } else { 0 }) by {
    dot_smul(d, M[i]@, A, j, n); assert(dotcol(M[i]@, A, j, n) == (if i == j { d } else { 0 })); assert(d * d == 1 && d * 0 == 0) by(nonlinear_arith) requires d == 1 || d == -1; }
  inv_left(M, X, 1); X }
pub proof fn dot_smul(c: int, a: Seq<Z>, M: Seq<Vc<Z>>, j: int, n: nat) requires n <= M.len(), sqm(M), 0 <= j < M.len() ensures dotcol(a, smul(c, M), j, n) == c * dotcol(a, M, j, n) decreases n
{ if n > 0 { dot_smul(c, a, M, j, (n - 1) as nat); let x = a[n - 1].v(); let y = M[n - 1]@[j].v(); let s = dotcol(a, M, j, (n - 1) as nat); assert(smul(c, M)[n - 1]@[j].v() == c * y); assert(c * s + x * (c * y) == c * (s + x * y)) by(nonlinear_arith); } else { assert(c * 0 == 0); } }
// the columns of A M are multiples of the diagonal; the quotients form the inverse of L
pub proof fn smith_div(A: Seq<Vc<Z>>, L: Seq<Vc<Z>>, M: Seq<Vc<Z>>, S: Seq<Vc<Z>>) -> (Y: Seq<Vc<Z>>) requires sqm(A), A.len() > 0, smith_of(A, L, M, S)
    ensures sqm(Y), Y.len() == A.len(), unitm(Y, L, A.len(), 1), unitm(L, Y, A.len(), 1), forall|l: int, j: int| 0 <= l < A.len() && 0 <= j < A.len() ==> #[trigger] dotcol(A[l]@, M, j, A.len()) == Y[l]@[j].v() * S[j]@[j].v()
{ let n = A.len(); let Y = inv_of(L); let P = mulm(A, M); let Q = mulm(L, P);
  assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies #[trigger] dotcol(A[l]@, M, j, n) == Y[l]@[j].v() * S[j]@[j].v() by {
    assert forall|i: int| 0 <= i < n implies (#[trigger] Q[i])@[j].v() == (if i == j { S[j]@[j].v() } else { 0 }) by {
      dot_assoc(L[i]@, A, M, j, n); assert(ment(S, i, j) == dotcol(mulm(L, A)[i]@, M, j, n)); assert(mulm(L, A)[i] == combv(L[i]@, A, n, n)); }
    dot_diag(Y[l]@, Q, S[j]@[j].v(), j, n);
    dot_assoc(Y[l]@, L, P, j, n); let c = combv(Y[l]@, L, n, n)@;
    assert forall|k: int| 0 <= k < n implies (#[trigger] c[k]).v() == ev(n, l)@[k].v() by { assert(c[k].v() == dotcol(Y[l]@, L, k, n)); }
    dot_same(c, ev(n, l)@, P, j, n); dot_unit(P, n, l, j, n); let y = Y[l]@[j].v(); let s = S[j]@[j].v(); assert(s * y == y * s) by(nonlinear_arith); }
  Y }
pub proof fn dot_same(a: Seq<Z>, b: Seq<Z>, X: Seq<Vc<Z>>, j: int, n: nat) requires forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v() == b[k].v() ensures dotcol(a, X, j, n) == dotcol(b, X, j, n) decreases n { if n > 0 { dot_same(a, b, X, j, (n - 1) as nat); assert(a[n - 1].v() == b[n - 1].v()); } }
// the quotients computed entry by entry are that inverse
pub proof fn smith_wit(R: Seq<Vc<Z>>, L: Seq<Vc<Z>>, M: Seq<Vc<Z>>, S: Seq<Vc<Z>>, W: Seq<Vc<Z>>, d: Seq<Z>) requires square(R), R.len() > 0, smith_of(trn(R), L, M, S), sqm(W), W.len() == R.len(), d.len() == R.len(), forall|i: int| 0 <= i < R.len() ==> (#[trigger] d[i]).v() == S[i]@[i].v(),
      forall|l: int, j: int| 0 <= l < R.len() && 0 <= j < R.len() ==> #[trigger] ment(W, l, j) == fdiv(dotcol(trn(R)[l]@, M, j, R.len()), S[j]@[j].v())
    ensures smithy(R, W, d)
{ let n = R.len(); let U = trn(R); let Y = smith_div(U, L, M, S); let K = inv_of(M);
  assert(W =~= Y) by { assert forall|l: int| 0 <= l < n implies W[l] == Y[l] by { assert(W[l]@ =~= Y[l]@) by { assert forall|j: int| 0 <= j < n implies W[l]@[j] == Y[l]@[j] by {
    assert(ment(W, l, j) == fdiv(dotcol(U[l]@, M, j, n), S[j]@[j].v())); let y = Y[l]@[j].v(); let s = S[j]@[j].v(); assert(dotcol(U[l]@, M, j, n) == y * s); assert(s >= 1); assert((y * s) / s == y) by(nonlinear_arith) requires s >= 1; } } } }
  assert forall|i: int| 0 <= i < n implies (#[trigger] d[i]).v() >= 1 by { assert(S[i]@[i].v() >= 1); }
  assert(wit(R, W, d, L, M, K)) by { assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies #[trigger] dotcol(U[l]@, M, j, n) == W[l]@[j].v() * d[j].v() by { assert(d[j].v() == S[j]@[j].v()); } } }
pub proof fn smith_rem(R: Seq<Vc<Z>>, L: Seq<Vc<Z>>, M: Seq<Vc<Z>>, S: Seq<Vc<Z>>) requires square(R), R.len() > 0, smith_of(trn(R), L, M, S) ensures forall|l: int, j: int| 0 <= l < R.len() && 0 <= j < R.len() ==> frem(#[trigger] dotcol(trn(R)[l]@, M, j, R.len()), S[j]@[j].v()) == 0
{ let n = R.len(); let U = trn(R); let Y = smith_div(U, L, M, S);
  assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies frem(#[trigger] dotcol(U[l]@, M, j, n), S[j]@[j].v()) == 0 by { let y = Y[l]@[j].v(); let s = S[j]@[j].v(); assert(dotcol(U[l]@, M, j, n) == y * s); assert(s >= 1); assert((y * s) / s == y) by(nonlinear_arith) requires s >= 1; assert(y * s == s * y) by(nonlinear_arith); } }
pub proof fn unimod_wit(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, d: Seq<Z>) requires unimod(R), R.len() > 0, sqm(W), W.len() == R.len(), d.len() == R.len(), forall|i: int| 0 <= i < R.len() ==> (#[trigger] d[i]).v() == 1, forall|l: int, j: int| 0 <= l < R.len() && 0 <= j < R.len() ==> #[trigger] ment(W, l, j) == mdet(R) * R[j]@[l].v()
    ensures smithy(R, W, d)
{ let n = R.len(); let q = mdet(R); let X = inv_of(R); let U = trn(R); let XT = trn(X); let B = smul(q, XT); let C = smul(q, idm(n));
  assert(W =~= smul(q, U)) by { assert forall|l: int| 0 <= l < n implies W[l] == smul(q, U)[l] by { assert(W[l]@ =~= smul(q, U)[l]@) by { assert forall|j: int| 0 <= j < n implies W[l]@[j] == smul(q, U)[l]@[j] by { assert(ment(W, l, j) == q * R[j]@[l].v()); } } } }
  assert(q * q == 1 && q * 0 == 0 && q * 1 == q) by(nonlinear_arith) requires q == 1 || q == -1;
  assert(unitm(W, B, n, 1)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(W[i]@, B, j, n) == (if i == j { 1int } else { 0 }) by {
    dot_smul(q, W[i]@, XT, j, n); dot_scal(q, U[i]@, W[i]@, XT, j, n); trn_dot(R, X, i, j, n); assert(dotcol(X[j]@, R, i, n) == (if j == i { 1int } else { 0 })); } }
  inv_left(W, B, 1);
  assert forall|a: Seq<Z>, j: int| 0 <= j < n && a.len() == n implies #[trigger] dotcol(a, C, j, n) == q * a[j].v() by { dot_smul(q, a, idm(n), j, n); dot_idm(a, n, j, n); }
  assert(unitm(C, C, n, 1)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(C[i]@, C, j, n) == (if i == j { 1int } else { 0 }) by { assert(dotcol(C[i]@, C, j, n) == q * C[i]@[j].v()); assert(C[i]@[j].v() == q * (if i == j { 1int } else { 0 })); } }
  assert(wit(R, W, d, B, C, C)) by { assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies #[trigger] dotcol(U[l]@, C, j, n) == W[l]@[j].v() * d[j].v() by { assert(dotcol(U[l]@, C, j, n) == q * U[l]@[j].v()); assert(d[j].v() == 1); let w = W[l]@[j].v(); assert(w * 1 == w); } } }
pub proof fn trn_dot(R: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, j: int, n: nat) requires n <= R.len(), X.len() == R.len(), 0 <= i < R.len(), 0 <= j < R.len() ensures dotcol(trn(R)[i]@, trn(X), j, n) == dotcol(X[j]@, R, i, n) decreases n
{ if n > 0 { trn_dot(R, X, i, j, (n - 1) as nat); let x = R[n - 1]@[i].v(); let y = X[j]@[n - 1].v(); assert(x * y == y * x) by(nonlinear_arith); } }
// ---- what one call of the generator computes
pub open spec fn taus(F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>) -> bool { T.len() == F.len() && sqm(T) && forall|i: int, j: int| 0 <= i < F.len() && 0 <= j < F.len() ==> #[trigger] ment(T, i, j) == frem(dotcol(F[i]@, W, j, F.len()), fd[i].v()) }
pub open spec fn mulof(b: int, bm: int, fd: int, T: Seq<Z>, m: Seq<Z>, n: nat) -> int { frem(bm - dot(T, m, n), fd) - b }
pub open spec fn muls(s: Seq<Z>, beta: Seq<Z>, bm: Seq<Z>, fd: Seq<Z>, T: Seq<Vc<Z>>, m: Seq<Z>) -> bool { s.len() == beta.len() && forall|i: int| 0 <= i < beta.len() ==> (#[trigger] s[i]).v() == mulof(beta[i].v(), bm[i].v(), fd[i].v(), T[i]@, m, beta.len()) }
pub proof fn dot_cong(T: Seq<Z>, w: Seq<Z>, m: Seq<Z>, f: int, n: nat) -> (k: int) requires f > 0, forall|j: int| 0 <= j < n ==> (#[trigger] T[j]).v() == frem(w[j].v(), f) ensures dot(w, m, n) == dot(T, m, n) + f * k decreases n
{ if n == 0 { assert(f * 0 == 0); 0 } else { let k = dot_cong(T, w, m, f, (n - 1) as nat); let q = fdiv(w[n - 1].v(), f); let t = T[n - 1].v(); let x = m[n - 1].v(); em(w[n - 1].v(), f); assert(t == frem(w[n - 1].v(), f));
  assert((t + f * q) * x == t * x + f * (q * x)) by(nonlinear_arith); assert(f * (k + q * x) == f * k + f * (q * x)) by(nonlinear_arith); k + q * x } }
pub open spec fn genok(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, beta: Seq<Z>, bm: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>) -> bool {
    &&& square(R) && square(F) && R.len() > 0 && paired(R, F, fd) && fscale(fs, fd, D) && D > 0 && W.len() == R.len() && sqm(W)
    &&& beta.len() == R.len() && bm.len() == R.len() && taus(F, fd, W, T) && forall|i: int| 0 <= i < R.len() ==> (#[trigger] bm[i]).v() == frem(beta[i].v(), fd[i].v())
}
// the multiplier of ray i is minus the product of facet i with W m, up to a multiple of its divisor
pub proof fn mul_cong(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, beta: Seq<Z>, bm: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>, m: Seq<Z>, s: int, i: int) -> (c: int)
    requires genok(R, F, fd, fs, D, beta, bm, W, T), m.len() == R.len(), 0 <= i < R.len(), s == mulof(beta[i].v(), bm[i].v(), fd[i].v(), T[i]@, m, R.len())
    ensures s == -dot(F[i]@, mv(W, m), R.len()) + fd[i].v() * c, beta[i].v() - fd[i].v() < -s <= beta[i].v()
{ let n = R.len(); let f = fd[i].v(); assert(facets_ok(R, F[i], i, f) && f > 0); assoc_mv(F[i]@, W, m); let w = combv(F[i]@, W, n, n)@;
  assert forall|j: int| 0 <= j < n implies (#[trigger] T[i]@[j]).v() == frem(w[j].v(), f) by { assert(ment(T, i, j) == frem(dotcol(F[i]@, W, j, F.len()), f)); }
  let k = dot_cong(T[i]@, w, m, f, n); let x = bm[i].v() - dot(T[i]@, m, n); em(x, f); em(beta[i].v(), f); assert(bm[i].v() == frem(beta[i].v(), f));
  let c = k - fdiv(x, f) - fdiv(beta[i].v(), f); let p = fdiv(x, f); let q = fdiv(beta[i].v(), f); assert(f * (k - p - q) == f * k - f * p - f * q) by(nonlinear_arith); c }
// hence the combination of the rays is D times an integer point of the box congruent to W m
pub proof fn gen_point(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, beta: Seq<Z>, bm: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>, m: Seq<Z>, s: Seq<Z>) -> (x: Seq<Z>)
    requires genok(R, F, fd, fs, D, beta, bm, W, T), m.len() == R.len(), muls(s, beta, bm, fd, T, m)
    ensures x.len() == R.len(), inbox(F, fd, beta, x), cong(R, W, m, x), fvals(F, x) =~= vng(s), forall|l: int| 0 <= l < R.len() ==> (#[trigger] mv(trn(R), had(fs, s))[l]).v() == D * x[l].v()
{ let n = R.len(); let U = trn(R); let p0 = mv(W, m);
  let c = Seq::new(n, |i: int| mkz(mul_cong_c(R, F, fd, fs, D, beta, bm, W, T, m, s[i].v(), i)));
  assert forall|i: int| 0 <= i < n implies s[i].v() == -dot(F[i]@, p0, n) + fd[i].v() * (#[trigger] c[i]).v() && beta[i].v() - fd[i].v() < -s[i].v() <= beta[i].v() by { assert(s[i].v() == mulof(beta[i].v(), bm[i].v(), fd[i].v(), T[i]@, m, n)); let cc = mul_cong(R, F, fd, fs, D, beta, bm, W, T, m, s[i].v(), i); assert(mc_ok(F, fd, W, m, s[i].v(), i, R.len(), cc)); }
  let x = vad(p0, mv(U, c)); assert(cong(R, W, m, x));
  assert forall|i: int| 0 <= i < n implies #[trigger] dot(F[i]@, x, n) == -s[i].v() by { cong_val(R, F, fd, W, m, c, x, i); assert(c[i].v() == c[i].v()); }
  assert(fvals(F, x) =~= vng(s)); assert(vng(vng(s)) =~= s); recover(R, F, fd, fs, D, x);
  assert forall|i: int| 0 <= i < n implies beta[i].v() - fd[i].v() < #[trigger] dot(F[i]@, x, F.len()) && dot(F[i]@, x, F.len()) <= beta[i].v() by { let ci = c[i].v(); assert(s[i].v() == -dot(F[i]@, p0, n) + fd[i].v() * ci); assert(F.len() == n); assert(dot(F[i]@, x, n) == -s[i].v()); }
  x }
pub open spec fn mc_ok(F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, m: Seq<Z>, s: int, i: int, n: nat, c: int) -> bool { s == -dot(F[i]@, mv(W, m), n) + fd[i].v() * c }
pub open spec fn mul_cong_c(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, fs: Seq<Z>, D: int, beta: Seq<Z>, bm: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>, m: Seq<Z>, s: int, i: int) -> int { choose|c: int| mc_ok(F, fd, W, m, s, i, R.len(), c) }

// ---- the number of multipliers is the index of the cone
pub proof fn inv_det(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>) requires sqm(A), sqm(B), A.len() == B.len(), unitm(A, B, A.len(), 1) ensures mdet(A) == 1 || mdet(A) == -1
{ let n = A.len(); det_prod(A, B); assert(mulm(A, B) =~= idm(n)) by { assert forall|i: int| 0 <= i < n implies mulm(A, B)[i] == idm(n)[i] by { assert(mulm(A, B)[i]@ =~= idm(n)[i]@) by { assert forall|j: int| 0 <= j < n implies mulm(A, B)[i]@[j] == idm(n)[i]@[j] by { assert(dotcol(A[i]@, B, j, n) == (if i == j { 1int } else { 0 })); assert(mulm(A, B)[i]@[j].v() == dotcol(A[i]@, B, j, n)); } } } } det_id(n);
  let x = mdet(A); let y = mdet(B); assert(x == 1 || x == -1) by(nonlinear_arith) requires x * y == 1; }
pub proof fn index_mult(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>) requires smithy(R, W, S), square(R) ensures prodz(S, R.len()) == zabs(mdet(R))
{ let n = R.len(); let U = trn(R); trn_sq(R); det_trn(R); let (B, C, K) = choose|B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>| #[trigger] wit(R, W, S, B, C, K);
  inv_det(W, B); inv_det(C, K); det_prod(U, C); det_dgz(S, n); let G = dgz(S); det_prod(W, G);
  assert(mulm(U, C) =~= mulm(W, G)) by { assert forall|l: int| 0 <= l < n implies mulm(U, C)[l] == mulm(W, G)[l] by { assert(mulm(U, C)[l]@ =~= mulm(W, G)[l]@) by { assert forall|j: int| 0 <= j < n implies mulm(U, C)[l]@[j] == mulm(W, G)[l]@[j] by {
    assert(mulm(U, C)[l]@[j].v() == dotcol(U[l]@, C, j, n)); assert(mulm(W, G)[l]@[j].v() == dotcol(W[l]@, G, j, n)); assert(dotcol(U[l]@, C, j, n) == W[l]@[j].v() * S[j].v());
    assert forall|i: int| 0 <= i < n implies (#[trigger] G[i])@[j].v() == (if i == j { S[j].v() } else { 0 }) by { let s = S[i].v(); assert(s * 0 == 0 && s * 1 == s); } dot_diag(W[l]@, G, S[j].v(), j, n); let w = W[l]@[j].v(); let s = S[j].v(); assert(s * w == w * s) by(nonlinear_arith); } } } }
  prod_pos(S, n); let d = mdet(R); let c = mdet(C); let w = mdet(W); let p = prodz(S, n); assert(d * c == w * p); assert(p == zabs(d)) by { assert(d == p || d == -p) by(nonlinear_arith) requires d * c == w * p, c == 1 || c == -1, w == 1 || w == -1; } }
pub proof fn prod_pos(S: Seq<Z>, n: nat) requires n <= S.len(), forall|i: int| 0 <= i < n ==> (#[trigger] S[i]).v() >= 1 ensures prodz(S, n) >= 1 decreases n
{ if n > 0 { prod_pos(S, (n - 1) as nat); let x = prodz(S, (n - 1) as nat); let y = S[n - 1].v(); assert(y >= 1); assert(x * y >= 1) by(nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn vol_prod(u: Seq<i32>, S: Seq<Z>, n: nat) requires forall|i: int| 0 <= i < n ==> #[trigger] u[i] + 1 == S[i].v() ensures vol(u, n) == prodz(S, n) decreases n { if n > 0 { vol_prod(u, S, (n - 1) as nat); assert(u[n - 1] + 1 == S[n - 1].v()); } }
