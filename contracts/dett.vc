@rs
// ---- the determinant of the transposed matrix
pub open spec fn trn(R: Seq<Vc<Z>>) -> Seq<Vc<Z>> { Seq::new(R.len(), |k: int| Vc { g: Ghost(Seq::new(R.len(), |j: int| R[j]@[k])) }) }
// row j and column 0 removed
pub open spec fn del0(M: Seq<Vc<Z>>, j: int) -> Seq<Vc<Z>> { Seq::new((M.len() - 1) as nat, |i: int| Vc { g: Ghost(M[if i < j { i } else { i + 1 }]@.remove(0)) }) }
pub open spec fn lterm(M: Seq<Vc<Z>>, c: int) -> int { sg(c) * (M[0]@[c].v() * mdet(minor(M, c))) }
pub proof fn zero_row(M: Seq<Vc<Z>>, j: int) requires sqm(M), 0 <= j < M.len(), forall|k: int| 0 <= k < M.len() ==> (#[trigger] M[j]@[k]).v() == 0 ensures mdet(M) == 0
{ let z = scalev(0, M[j]); assert(z@ =~= M[j]@) by { assert forall|k: int| 0 <= k < M.len() implies z@[k] == M[j]@[k] by { assert(M[j]@[k].v() == 0); let x = M[j]@[k].v(); assert(0 * x == 0); } } assert(z == M[j]); det_scalev(M, j, 0, M[j]); assert(M.update(j, z) =~= M); let w = mdet(M.update(j, M[j])); assert(0 * w == 0); }
pub proof fn lapl_first(M: Seq<Vc<Z>>, q: nat) requires M.len() > 0, 1 <= q <= M.len(), forall|c: int| 1 <= c < M.len() ==> #[trigger] lterm(M, c) == 0 ensures lapl(M, q) == M[0]@[0].v() * mdet(minor(M, 0)) decreases q
{ if q == 1 { let x = M[0]@[0].v() * mdet(minor(M, 0)); assert(lapl(M, 0) == 0); assert(sg(0) * x == x) by { assert(sg(0) == 1); } } else { lapl_first(M, (q - 1) as nat); assert(lterm(M, q - 1) == 0); } }
pub proof fn lapl_shift(M: Seq<Vc<Z>>, N: Seq<Vc<Z>>, s: int, q: nat) requires N.len() > 0, M.len() == N.len() + 1, q <= N.len(), lterm(M, 0) == 0, forall|c: int| 1 <= c < M.len() ==> #[trigger] lterm(M, c) == s * lterm(N, c - 1) ensures lapl(M, (q + 1) as nat) == s * lapl(N, q) decreases q
{ if q == 0 { assert(lapl(M, 0) == 0); assert(lapl(M, 1) == lterm(M, 0)); assert(s * 0 == 0); } else { lapl_shift(M, N, s, (q - 1) as nat); assert(lterm(M, q as int) == s * lterm(N, q - 1)); let x = lapl(N, (q - 1) as nat); let y = lterm(N, q - 1); assert(s * (x + y) == s * x + s * y) by(nonlinear_arith); assert(lapl(N, q) == x + y); assert(lapl(M, (q + 1) as nat) == lapl(M, q) + lterm(M, q as int)); } }
pub open spec fn unit0(M: Seq<Vc<Z>>, j: int) -> bool { forall|k: int| 0 <= k < M.len() ==> (#[trigger] M[j]@[k]).v() == (if k == 0 { 1int } else { 0 }) }
// a row equal to the first unit vector
pub proof fn det_e0(M: Seq<Vc<Z>>, j: int) requires sqm(M), 0 <= j < M.len(), unit0(M, j) ensures mdet(M) == sg(j) * mdet(del0(M, j)) decreases M.len()
{ let n = M.len();
  if j == 0 {
    assert forall|c: int| 1 <= c < n implies #[trigger] lterm(M, c) == 0 by { assert(M[0]@[c].v() == 0); let y = mdet(minor(M, c)); let s = sg(c); assert(0 * y == 0); assert(s * 0 == 0); }
    lapl_first(M, n); assert(M[0]@[0].v() == 1); let y = mdet(minor(M, 0)); assert(1 * y == y); assert(minor(M, 0) =~= del0(M, 0)); assert(sg(0) == 1);
  } else {
    let N = del0(M, j); let s = sg(j);
    assert(lterm(M, 0) == 0) by { let X = minor(M, 0); assert(sqm(X)); assert forall|k: int| 0 <= k < X.len() implies (#[trigger] X[j - 1]@[k]).v() == 0 by { assert(X[j - 1]@[k] == M[j]@[k + 1]); assert(M[j]@[k + 1].v() == 0); } zero_row(X, j - 1); let y = M[0]@[0].v(); assert(y * 0 == 0); let t = sg(0); assert(t * 0 == 0); }
    assert forall|c: int| 1 <= c < n implies #[trigger] lterm(M, c) == s * lterm(N, c - 1) by {
      let X = minor(M, c); assert(sqm(X)); assert(unit0(X, j - 1)) by { assert forall|k: int| 0 <= k < X.len() implies (#[trigger] X[j - 1]@[k]).v() == (if k == 0 { 1int } else { 0 }) by { assert(X[j - 1]@[k] == M[j]@[if k < c { k } else { k + 1 }]); assert(M[j]@[if k < c { k } else { k + 1 }].v() == (if k == 0 { 1int } else { 0 })); } }
      det_e0(X, j - 1);
      assert(del0(X, j - 1) =~= minor(N, c - 1)) by { assert forall|i: int| 0 <= i < n - 2 implies #[trigger] del0(X, j - 1)[i] == minor(N, c - 1)[i] by { let r = if i < j - 1 { i } else { i + 1 }; assert(del0(X, j - 1)[i]@ =~= M[r + 1]@.remove(c).remove(0)); assert(minor(N, c - 1)[i]@ =~= N[i + 1]@.remove(c - 1)); assert(N[i + 1]@ =~= M[r + 1]@.remove(0)); assert(M[r + 1]@.len() == n); assert(M[r + 1]@.remove(c).remove(0) =~= M[r + 1]@.remove(0).remove(c - 1)); } }
      assert(N[0]@[c - 1] == M[0]@[c]); let a = M[0]@[c].v(); let d = mdet(minor(N, c - 1)); let s1 = sg(j - 1); let sc = sg(c); let sc1 = sg(c - 1);
      assert(s1 == -s && sc1 == -sc); assert(sc * (a * (s1 * d)) == s * (sc1 * (a * d))) by(nonlinear_arith) requires s1 == -s, sc1 == -sc; }
    lapl_shift(M, N, s, (n - 1) as nat); assert(mdet(N) == lapl(N, (n - 1) as nat)) by { assert(N.len() == n - 1 && n - 1 > 0); }
  } }
pub proof fn trn_sq(R: Seq<Vc<Z>>) ensures sqm(trn(R)), trn(R).len() == R.len() {}
// expansion along the first column
pub proof fn trn_col(R: Seq<Vc<Z>>, a: Seq<Z>, q: nat) requires sqm(R), R.len() > 0, q <= R.len(), a == trn(R)[0]@, forall|j: int| 0 <= j < R.len() ==> adj(R)[0]@[j].v() == sg(j) * #[trigger] mdet(minor(trn(R), j)) ensures lapl(trn(R), q) == dotcol(adj(R)[0]@, R, 0, q) decreases q
{ if q > 0 { trn_col(R, a, (q - 1) as nat); let x = R[q - 1]@[0].v(); let y = sg(q - 1); let z = mdet(minor(trn(R), q - 1)); assert(adj(R)[0]@[q - 1].v() == y * z); assert(y * (x * z) == (y * z) * x) by(nonlinear_arith); } }
pub proof fn det_trn(R: Seq<Vc<Z>>) requires sqm(R) ensures mdet(trn(R)) == mdet(R) decreases R.len()
{ let n = R.len(); let T = trn(R); trn_sq(R);
  if n == 0 { } else if mdet(R) == 0 { if mdet(T) != 0 { adj_two(T); let X = trn(adj(T)); trn_sq(adj(T)); let d = mdet(T);
      // trn(X) T == d I transposed: X' R^... gives R a left inverse up to d
      let ds = Seq::new(n, |i: int| d);
      assert(diagp(X, R, ds)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] dotcol(X[i]@, R, j, n) == (if i == j { ds[i] } else { 0 }) by { trn_dot2(adj(T), T, i, j, n, R); assert(dotcol(T[j]@, adj(T), i, n) == (if j == i { d } else { 0 })); } }
      diag_nz(X, R, ds); } }
  else { adj_two(R);
    assert forall|j: int| 0 <= j < n implies adj(R)[0]@[j].v() == sg(j) * #[trigger] mdet(minor(T, j)) by {
      let M = R.update(j, ev(n, 0)); assert(unit0(M, j)); det_e0(M, j); let Q = del0(M, j); assert(sqm(Q)); det_trn(Q);
      assert(trn(Q) =~= minor(T, j)) by { assert forall|i: int| 0 <= i < n - 1 implies #[trigger] trn(Q)[i] == minor(T, j)[i] by { assert(trn(Q)[i]@ =~= minor(T, j)[i]@) by { assert forall|k: int| 0 <= k < n - 1 implies #[trigger] trn(Q)[i]@[k] == minor(T, j)[i]@[k] by { let r = if k < j { k } else { k + 1 }; assert(trn(Q)[i]@[k] == R[r]@.remove(0)[i]); assert(minor(T, j)[i]@ =~= T[i + 1]@.remove(j)); assert(T[i + 1]@[r] == R[r]@[i + 1]); } } } } }
    trn_col(R, T[0]@, n); assert(dotcol(adj(R)[0]@, R, 0, n) == mdet(R)); } }
pub proof fn trn_dot2(A: Seq<Vc<Z>>, T: Seq<Vc<Z>>, i: int, j: int, n: nat, R: Seq<Vc<Z>>) requires T == trn(R), A.len() == R.len(), n <= R.len(), 0 <= i < R.len(), 0 <= j < R.len() ensures dotcol(trn(A)[i]@, R, j, n) == dotcol(T[j]@, A, i, n) decreases n
{ if n > 0 { trn_dot2(A, T, i, j, (n - 1) as nat, R); let x = A[n - 1]@[i].v(); let y = R[n - 1]@[j].v(); assert(x * y == y * x) by(nonlinear_arith); } }
// determinant of a diagonal matrix
pub open spec fn prodz(S: Seq<Z>, n: nat) -> int decreases n { if n == 0 { 1 } else { prodz(S, (n - 1) as nat) * S[n - 1].v() } }
pub open spec fn dgz(S: Seq<Z>) -> Seq<Vc<Z>> { dgq(S, S.len() as int) }
pub open spec fn dgq(S: Seq<Z>, q: int) -> Seq<Vc<Z>> { Seq::new(S.len(), |i: int| if i < q { scalev(S[i].v(), ev(S.len(), i)) } else { ev(S.len(), i) }) }
pub proof fn det_dgz(S: Seq<Z>, q: nat) requires q <= S.len() ensures mdet(dgq(S, q as int)) == prodz(S, q), sqm(dgq(S, q as int)) decreases q
{ let n = S.len(); if q == 0 { assert(dgq(S, 0) =~= idm(n)); det_id(n); } else { det_dgz(S, (q - 1) as nat); let A = dgq(S, q - 1); assert(dgq(S, q as int) =~= A.update(q - 1, scalev(S[q - 1].v(), ev(n, q - 1)))); det_scalev(A, q - 1, S[q - 1].v(), ev(n, q - 1)); assert(A.update(q - 1, ev(n, q - 1)) =~= A); let x = S[q - 1].v(); let y = prodz(S, (q - 1) as nat); assert(x * y == y * x) by(nonlinear_arith); } }
