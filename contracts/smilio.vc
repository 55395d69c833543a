// Smith normal form (Iliopoulos): divisibility chain and entry points: genFunction/matrix_ops.cpp
@include smdia.vc proved
@source genFunction/matrix_ops.cpp
@hidden sst dch dci idm
@rs
pub open spec fn sst(X: Mt, A: Mt, L: Mt, R: Mt, n: int) -> bool { mdim(X, n, n) && mdim(A, n, n) && mdim(L, n, n) && mdim(R, n, n) && st(X@, L@, A@, R@) && zp(A@, n) }
pub proof fn sst_in(X: Mt, A: Mt, L: Mt, R: Mt, n: int) requires sst(X, A, L, R, n) ensures mdim(A, n, n), mdim(L, n, n), mdim(R, n, n), forall|k: int| 0 <= k < n ==> #[trigger] ment(A@, k, k) >= 1 {}
pub proof fn idm_is(L: Mt, n: int) requires mdim(L, n, n), n >= 0, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ment(L@, i, j) == (if i == j { 1int } else { 0 }) ensures L@ =~= idm(n as nat)
{ assert forall|i: int| 0 <= i < n implies L@[i] == idm(n as nat)[i] by { assert(L@[i]@ =~= ev(n as nat, i)@) by { assert(L@[i]@.len() == n); assert forall|j: int| 0 <= j < n implies L@[i]@[j] == ev(n as nat, i)@[j] by { assert(ment(L@, i, j) == (if i == j { 1int } else { 0 })); } } } }
pub proof fn sst_start(X: Mt, A: Mt, L: Mt, R: Mt, L0: Mt, R0: Mt, n: int) requires mdim(X, n, n), n >= 1, dst(A, L, R, X, L0, R0, n, n), mdim(L0, n, n), mdim(R0, n, n), L0@ =~= idm(n as nat), R0@ =~= idm(n as nat) ensures sst(X, A, L, R, n)
{ mk_sqm(X, n); st_id(X@, L0@, R0@); dst_in(A, L, R, X, L0, R0, n, n); }
pub open spec fn dch(A: Seq<Vc<Z>>, i: int) -> bool { forall|k: int, l: int| 0 <= k < i && k < l < A.len() ==> dvd(#[trigger] ment(A, k, k), #[trigger] ment(A, l, l)) }
pub open spec fn dci(A: Seq<Vc<Z>>, i: int, j: int) -> bool { forall|l: int| i < l < j ==> dvd(ment(A, i, i), #[trigger] ment(A, l, l)) }
pub proof fn dch_0(A: Mt) ensures dch(A@, 0) {}
pub proof fn dci_0(A: Mt, i: int) ensures dci(A@, i, i + 1) {}
pub proof fn dch_next(A: Mt, i: int, j: int) requires dch(A@, i), dci(A@, i, j), j >= A@.len() ensures dch(A@, i + 1) { assert forall|k: int, l: int| 0 <= k < i + 1 && k < l < A@.len() implies dvd(#[trigger] ment(A@, k, k), #[trigger] ment(A@, l, l)) by { if k == i { assert(dvd(ment(A@, i, i), ment(A@, l, l))); } } }
pub proof fn dci_one(A: Mt, i: int) requires ment(A@, i, i) == 1 ensures dci(A@, i, A@.len() as int) { assert forall|l: int| i < l < A@.len() implies dvd(ment(A@, i, i), #[trigger] ment(A@, l, l)) by { dvd_refl(ment(A@, l, l)); } }
// the replacement of two diagonal entries by their gcd and lcm
pub open spec fn gdat(g: int, a: int, b: int, x: int, y: int, ac: int, c: int) -> bool { g >= 1 && ac * g == a && c * g == b && y * b + x * a == g }
pub proof fn gdat_of(g: int, a: int, b: int, x: int, y: int) requires a >= 1, b >= 1, is_gcd(g, b, a), y * b + x * a == g ensures gdat(g, a, b, x, y, fdiv(a, g), fdiv(b, g)), fdiv(b, g) * a >= 1, g != 0
{ dvd_le(g, a); exd(a, g); exd(b, g); let c = fdiv(b, g); assert(c >= 1) by(nonlinear_arith) requires c * g == b, b >= 1, g >= 1; assert(c * a >= 1) by(nonlinear_arith) requires c >= 1, a >= 1; }
pub proof fn gstep_row(A: Seq<Vc<Z>>, A2: Seq<Vc<Z>>, v: Vc<Z>, w: Vc<Z>, n: int, i: int, j: int, g: int, x: int, y: int, ac: int, c: int, k: int)
    requires sqm(A), sqm(A2), A.len() == n, A2.len() == n, zp(A, n), 0 <= i < n, 0 <= j < n, i != j, 0 <= k < n, gdat(g, ment(A, i, i), ment(A, j, j), x, y, ac, c), lin(v@, A[i]@, A[j]@, 1, y), lin(w@, A[i]@, A[j]@, c, c * y - 1),
      forall|p: int, q: int| 0 <= p < n && 0 <= q < n ==> #[trigger] ment(A2, p, q) == (if p == i && q == i { g } else if p == j && q == j { c * ment(A, i, i) } else { ment(A, p, q) })
    ensures rm(A2[k]@, A.update(i, v).update(j, w)[k]@, i, j, x, 1, 1 - ac * x, -ac)
{ let A1 = A.update(i, v).update(j, w); let Y = A2[k]@; let W = A1[k]@; assert(A[i]@.len() == n && A[j]@.len() == n && A[k]@.len() == n && A2[k]@.len() == n); let a = ment(A, i, i); let b = ment(A, j, j); let e = 1 - ac * x; let d = -ac;
  assert(v@[i].v() == 1 * A[i]@[i].v() + y * A[j]@[i].v()); assert(v@[j].v() == 1 * A[i]@[j].v() + y * A[j]@[j].v()); assert(w@[i].v() == c * A[i]@[i].v() + (c * y - 1) * A[j]@[i].v()); assert(w@[j].v() == c * A[i]@[j].v() + (c * y - 1) * A[j]@[j].v());
  assert(ment(A, i, j) == 0 && ment(A, j, i) == 0); assert(y * 0 == 0 && c * 0 == 0 && (c * y - 1) * 0 == 0 && x * 0 == 0 && e * 0 == 0 && d * 0 == 0 && 1 * 0 == 0);
  if k == i { assert(ment(A2, i, i) == g && ment(A2, i, j) == 0); assert(W[i].v() == a && W[j].v() == y * b); assert(x * a + 1 * (y * b) == g) by(nonlinear_arith) requires y * b + x * a == g;
    assert(e * a + d * (y * b) == 0) by(nonlinear_arith) requires e == 1 - ac * x, d == -ac, y * b + x * a == g, ac * g == a; }
  else if k == j { assert(ment(A2, j, i) == 0 && ment(A2, j, j) == c * a); assert(W[i].v() == c * a && W[j].v() == (c * y - 1) * b); assert(x * (c * a) + 1 * ((c * y - 1) * b) == 0) by(nonlinear_arith) requires y * b + x * a == g, c * g == b;
    assert(e * (c * a) + d * ((c * y - 1) * b) == c * a) by(nonlinear_arith) requires e == 1 - ac * x, d == -ac, y * b + x * a == g, ac * g == a, c * g == b; }
  else { assert(W == A[k]@); assert(ment(A, k, i) == 0 && ment(A, k, j) == 0); assert(ment(A2, k, i) == 0 && ment(A2, k, j) == 0); }
  assert forall|l: int| 0 <= l < n && l != i && l != j implies #[trigger] Y[l] == W[l] by { assert(ment(A2, k, l) == ment(A, k, l)); if k == i { assert(ment(A, i, l) == 0 && ment(A, j, l) == 0); assert(v@[l].v() == 1 * A[i]@[l].v() + y * A[j]@[l].v()); } else if k == j { assert(ment(A, i, l) == 0 && ment(A, j, l) == 0); assert(w@[l].v() == c * A[i]@[l].v() + (c * y - 1) * A[j]@[l].v()); } } }
pub open spec fn lcv(x: Seq<Z>, y: Seq<Z>, p: int, q: int) -> Vc<Z> { Vc { g: Ghost(Seq::new(x.len(), |k: int| mkz(p * x[k].v() + q * y[k].v()))) } }
pub proof fn lcv_ok(x: Seq<Z>, y: Seq<Z>, p: int, q: int) requires x.len() == y.len() ensures lin(lcv(x, y, p, q)@, x, y, p, q) {}
pub open spec fn gupd(A2: Mt, A: Mt, n: int, i: int, j: int, g: int, h: int) -> bool { mdim(A2, n, n) && forall|p: int, q: int| 0 <= p < n && 0 <= q < n ==> #[trigger] ment(A2@, p, q) == (if p == i && q == i { g } else if p == j && q == j { h } else { ment(A@, p, q) }) }
pub proof fn gstep(X: Mt, A: Mt, L: Mt, R: Mt, A2: Mt, L2: Mt, R2: Mt, n: int, i: int, j: int, g: int, x: int, y: int, ac: int, c: int)
    requires sst(X, A, L, R, n), 0 <= i < j, j < n, gdat(g, ment(A@, i, i), ment(A@, j, j), x, y, ac, c), c * ment(A@, i, i) >= 1, gupd(A2, A, n, i, j, g, c * ment(A@, i, i)), mdim(L2, n, n), mdim(R2, n, n), rmix(L2@, L@, i, j, 1, y, c, c * y - 1), partc(R2@, R@, n, i, j, x, 1, 1 - ac * x, -ac)
    ensures sst(X, A2, L2, R2, n)
{ mk_sqm(A, n); mk_sqm(A2, n); mk_sqm(L, n); mk_sqm(R, n); let v = lcv(A@[i]@, A@[j]@, 1, y); let w = lcv(A@[i]@, A@[j]@, c, c * y - 1); assert(A@[i]@.len() == n && A@[j]@.len() == n); lcv_ok(A@[i]@, A@[j]@, 1, y); lcv_ok(A@[i]@, A@[j]@, c, c * y - 1);
  let A1 = A@.update(i, v).update(j, w); mk_rmix2(A1, A@, i, j, 1, y, c, c * y - 1, v, w); assert(1 * (c * y - 1) - y * c == -1) by(nonlinear_arith); st_r(X@, L@, A@, R@, L2@, A1, i, j, 1, y, c, c * y - 1);
  part_cmix(R2@, R@, i, j, x, 1, 1 - ac * x, -ac);
  assert(cmix(A2@, A1, i, j, x, 1, 1 - ac * x, -ac)) by { assert forall|k: int| 0 <= k < n implies rm(#[trigger] A2@[k]@, A1[k]@, i, j, x, 1, 1 - ac * x, -ac) by { gstep_row(A@, A2@, v, w, n, i, j, g, x, y, ac, c, k); } }
  assert(x * (-ac) - 1 * (1 - ac * x) == -1) by(nonlinear_arith); st_c(X@, L2@, A1, R@, R2@, A2@, i, j, x, 1, 1 - ac * x, -ac);
  assert(zp(A2@, n)) by { assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && p != q && (p < n || q < n) implies #[trigger] ment(A2@, p, q) == 0 by { assert(ment(A@, p, q) == 0); } assert forall|p: int| 0 <= p < n && p < n implies #[trigger] ment(A2@, p, p) >= 1 by { assert(ment(A@, p, p) >= 1); } } }
pub proof fn gchain(A: Mt, A2: Mt, n: int, i: int, j: int, g: int, x: int, y: int, ac: int, c: int) requires mdim(A, n, n), 0 <= i < j, j < n, gdat(g, ment(A@, i, i), ment(A@, j, j), x, y, ac, c), gupd(A2, A, n, i, j, g, c * ment(A@, i, i)), dch(A@, i), dci(A@, i, j) ensures dch(A2@, i), dci(A2@, i, j + 1)
{ let a = ment(A@, i, i); let b = ment(A@, j, j); assert(g * ac == ac * g) by(nonlinear_arith); assert(dvd(g, a));
  assert forall|k: int, l: int| 0 <= k < i && k < l < A2@.len() implies dvd(#[trigger] ment(A2@, k, k), #[trigger] ment(A2@, l, l)) by { let d = ment(A@, k, k); assert(ment(A2@, k, k) == d); assert(dvd(d, ment(A@, l, l))); assert(dvd(d, ment(A@, i, i))); assert(dvd(d, ment(A@, j, j))); dvd_comb(d, b, a, y, x); dvd_comb(d, a, a, c, 0); }
  assert forall|l: int| i < l < j + 1 implies dvd(ment(A2@, i, i), #[trigger] ment(A2@, l, l)) by { assert(ment(A2@, i, i) == g); if l < j { assert(dvd(a, ment(A@, l, l))); dvd_trans(g, a, ment(A@, l, l)); } else { dvd_comb(g, a, a, c, 0); } } }
pub proof fn rm_gcd(y: Seq<Z>, r: Seq<Z>, i: int, j: int, x: int, ac: int) requires y.len() == r.len(), y[i].v() == r[j].v() + x * r[i].v(), y[j].v() == r[i].v() - ac * (r[j].v() + x * r[i].v()), forall|l: int| 0 <= l < r.len() && l != i && l != j ==> #[trigger] y[l] == r[l] ensures rm(y, r, i, j, x, 1, 1 - ac * x, -ac)
{ let u = r[i].v(); let v = r[j].v(); assert(x * u + 1 * v == v + x * u); assert((1 - ac * x) * u + (-ac) * v == u - ac * (v + x * u)) by(nonlinear_arith); }
pub proof fn rmix_gcd(Y: Seq<Vc<Z>>, X: Seq<Vc<Z>>, i: int, j: int, y: int, c: int) requires sqm(X), 0 <= i < X.len(), 0 <= j < X.len(), i != j, Y.len() == X.len(), Y[i]@.len() == X.len(), Y[j]@.len() == X.len(), forall|l: int| 0 <= l < X.len() && l != i && l != j ==> #[trigger] Y[l] == X[l],
    forall|k: int| 0 <= k < X.len() ==> (#[trigger] Y[i]@[k]).v() == X[i]@[k].v() + y * X[j]@[k].v(), forall|k: int| 0 <= k < X.len() ==> (#[trigger] Y[j]@[k]).v() == -1 * X[j]@[k].v() + c * (X[i]@[k].v() + y * X[j]@[k].v()) ensures rmix(Y, X, i, j, 1, y, c, c * y - 1)
{ assert(X[i]@.len() == X.len() && X[j]@.len() == X.len()); let e = c * y - 1;
  assert forall|k: int| 0 <= k < X.len() implies (#[trigger] Y[i]@[k]).v() == 1 * X[i]@[k].v() + y * X[j]@[k].v() by { }
  assert forall|k: int| 0 <= k < X.len() implies (#[trigger] Y[j]@[k]).v() == c * X[i]@[k].v() + e * X[j]@[k].v() by { let u = X[i]@[k].v(); let v = X[j]@[k].v(); assert(-1 * v + c * (u + y * v) == c * u + e * v) by(nonlinear_arith) requires e == c * y - 1; } }
pub proof fn sst_smith(X: Mt, A: Mt, L: Mt, R: Mt, n: int) requires sst(X, A, L, R, n) ensures smith_of(X@, L@, R@, A@)
{ let S = A@; assert forall|i: int| 0 <= i < n implies (#[trigger] S[i])@[i].v() >= 1 by { assert(ment(S, i, i) >= 1); } }
@fn SmithNormalFormIlio(const mat_ZZ &, mat_ZZ &, mat_ZZ &) as sn_ilio
@requires mdim(copy, copy@.len() as int, copy@.len() as int), 1 <= copy@.len() <= i32::MAX, mdet(copy@) != 0
@ensures smith_of(copy@, L@, R@, ret@), mdim(ret, copy@.len() as int, copy@.len() as int), mdim(L, copy@.len() as int, copy@.len() as int), mdim(R, copy@.len() as int, copy@.len() as int), dch(ret@, copy@.len() as int)
@at ghost entry
  let ghost n = copy@.len() as int; let ghost mut Ls = L; let ghost mut Rs = R;
@at after /\*L = mt_ident/
  idm_is(L, n); Ls = L;
@at after /\*R = mt_ident/
  idm_is(R, n); Rs = R;
@at after /sn_diag\(/
  sst_start(copy, A, L, R, Ls, Rs, n); dch_0(A); sst_in(copy, A, L, R, n);
@invariant 0
  n == copy@.len(), n <= i32::MAX, min == n, 0 <= i <= n, sst(copy, A, L, R, n), mdim(A, n, n), dch(A@, i as int)
@loopdec 0 n - i
@at before 1
  dci_0(A, i as int);
@invariant 1
  n == copy@.len(), n <= i32::MAX, min == n, 0 <= i < n, i < j <= n, sst(copy, A, L, R, n), mdim(A, n, n), dch(A@, i as int), dci(A@, i as int, j as int)
@loopens 1 n == copy@.len(), n <= i32::MAX, min == n, 0 <= i < n, sst(copy, A, L, R, n), mdim(A, n, n), dch(A@, i as int), dci(A@, i as int, n)
@loopdec 1 n - j
@at ghost begin 1
  let ghost A1 = A; let ghost L1 = L; let ghost R1 = R; proof { sst_in(copy, A, L, R, n); assert(ment(A@, i as int, i as int) >= 1); assert(ment(A@, j as int, j as int) >= 1); if ment(A@, i as int, i as int) == 1 { dci_one(A, i as int); } }
@invariant 2
  false
@loopdec 2 0int
@invariant 3
  false
@loopdec 3 0int
@at before 4
  gdat_of(g.v(), ment(A@, i as int, i as int), ment(A@, j as int, j as int), x.v(), y.v()); partc_0(R@, i as int, j as int, x.v(), 1, 1 - fdiv(ment(A1@, i as int, i as int), g.v()) * x.v(), -fdiv(ment(A1@, i as int, i as int), g.v()));
@invariant 4
  n == copy@.len(), n <= i32::MAX, min == n, 0 <= i < n, i < j < n, A == A1, L == L1, mdim(A, n, n), mdim(L, n, n), mdim(R, n, n), mdim(R1, n, n), 0 <= k_3 <= n, g.v() != 0,
  partc(R@, R1@, k_3 as int, i as int, j as int, x.v(), 1, 1 - fdiv(ment(A1@, i as int, i as int), g.v()) * x.v(), -fdiv(ment(A1@, i as int, i as int), g.v()))
@loopdec 4 n - k_3
@at ghost begin 4
  let ghost Rb = R@; proof { partc_at(Rb, R1@, k_3 as int, i as int, j as int, x.v(), 1, 1 - fdiv(ment(A1@, i as int, i as int), g.v()) * x.v(), -fdiv(ment(A1@, i as int, i as int), g.v())); }
@at end 4
  let ac = fdiv(ment(A1@, i as int, i as int), g.v()); rm_gcd(R@[k_3 as int]@, R1@[k_3 as int]@, i as int, j as int, x.v(), ac); partc_step(Rb, R@, R1@, k_3 as int, i as int, j as int, x.v(), 1, 1 - ac * x.v(), -ac);
@at after /A = mt_setrow\(A, ix__\d+, vset\(mt_row\(A, ix__\d+\), ix__\d+, g\)\)/
  let ac = fdiv(ment(A1@, i as int, i as int), g.v()); let c = fdiv(ment(A1@, j as int, j as int), g.v()); mk_sqm(L1, n); rmix_gcd(L@, L1@, i as int, j as int, y.v(), c); assert(gupd(A, A1, n, i as int, j as int, g.v(), c * ment(A1@, i as int, i as int)));
  gstep(copy, A1, L1, R1, A, L, R, n, i as int, j as int, g.v(), x.v(), y.v(), ac, c); gchain(A1, A, n, i as int, j as int, g.v(), x.v(), y.v(), ac, c);
@at after 1
  dch_next(A, i as int, n);
@at after 0
  sst_smith(copy, A, L, R, n); sst_in(copy, A, L, R, n);
@fn SmithNormalFormLidia(const mat_ZZ &, mat_ZZ &, mat_ZZ &) as sn_lidia
@aborts true
@ensures false
@fn SmithNormalForm(const mat_ZZ &, mat_ZZ &, mat_ZZ &, BarvinokParameters *) as snf
@requires mdim(A, A@.len() as int, A@.len() as int), 1 <= A@.len() <= i32::MAX, mdet(A@) != 0
@aborts true
@ensures smith_of(A@, L@, R@, ret@), mdim(ret, A@.len() as int, A@.len() as int), mdim(L, A@.len() as int, A@.len() as int), mdim(R, A@.len() as int, A@.len() as int), dch(ret@, A@.len() as int)
@end
