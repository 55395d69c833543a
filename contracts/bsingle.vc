@source barvinok/barvinok.cpp
@include bdfs.vc proved
@include irr2.vc proved
@rs
// ---- scaling the generators by positive factors does not change the cone
pub proof fn fdot_scale(f: Seq<Z>, h: Seq<Z>, g: int, x: Seq<real>, n: nat) requires forall|k: int| 0 <= k < n ==> (#[trigger] f[k]).v() == g * h[k].v() ensures fdot(f, x, n) == (g as real) * fdot(h, x, n) decreases n
{ if n > 0 { fdot_scale(f, h, g, x, (n - 1) as nat); let a = g as real; let p = fdot(h, x, (n - 1) as nat); let b = h[n - 1].v(); let t = x[n - 1]; castm(g, b); assert(f[n - 1].v() == g * b); rdist(a, p, b as real, t); } else { assert((g as real) * 0real == 0real) by(nonlinear_arith); } }
pub proof fn pos_mul(g: real, a: real, b: real) requires g > 0real ensures ((g * a) * (g * b) > 0real) == (a * b > 0real), (a * (g * b) > 0real) == (a * b > 0real)
{ rassoc(a, g, b); rcomm(a, g); rassoc(g, a, b); let p = a * b; assert(a * (g * b) == g * p) by(nonlinear_arith) requires p == a * b; rcomm(g, p); rsign(p, g); let q = g * a; assert(q * (g * b) == p * (g * g)) by(nonlinear_arith) requires q == g * a, p == a * b; rsq(g); rsign(p, g * g); }
pub proof fn ind_row(M: Seq<Vc<Z>>, i: int, g: int, x: Seq<real>)
    requires sqm(M), 0 <= i < M.len(), g > 0 ensures ind(M.update(i, scalev(g, M[i])), x) == ind(M, x), mdet(M.update(i, scalev(g, M[i]))) == g * mdet(M), sqm(M.update(i, scalev(g, M[i])))
{ let n = M.len(); let v = scalev(g, M[i]); let N = M.update(i, v); assert(M[i]@.len() == n); upd_sq(M, i, v); assert(M.update(i, M[i]) =~= M); det_scalev(M, i, g, M[i]);
  let G = g as real; castm(g, mdet(M));
  assert forall|j: int| 0 <= j < n implies (#[trigger] cx(N, j, x) * (mdet(N) as real) > 0real) == (cx(M, j, x) * (mdet(M) as real) > 0real) by {
    if j == i { assert(cof(N, i) =~= cof(M, i)) by { assert forall|k: int| 0 <= k < n implies cof(N, i)[k] == cof(M, i)[k] by { assert(N.update(i, ev(n, k)) =~= M.update(i, ev(n, k))); } } }
    else { assert forall|k: int| 0 <= k < n implies (#[trigger] cof(N, j)[k]).v() == g * cof(M, j)[k].v() by { let Q = M.update(j, ev(n, k)); upd_sq(M, j, ev(n, k)); assert(Q[i] == M[i]); assert(N.update(j, ev(n, k)) =~= Q.update(i, v)); det_scalev(Q, i, g, M[i]); assert(Q.update(i, M[i]) =~= Q); }
      fdot_scale(cof(N, j), cof(M, j), g, x, n); }
    pos_mul(G, cx(M, j, x), mdet(M) as real); }
  assert(inside(N, x) == inside(M, x)) by {
    if inside(N, x) { assert forall|j: int| 0 <= j < n implies #[trigger] cx(M, j, x) * (mdet(M) as real) > 0real by { assert(cx(N, j, x) * (mdet(N) as real) > 0real); } }
    if inside(M, x) { assert forall|j: int| 0 <= j < n implies #[trigger] cx(N, j, x) * (mdet(N) as real) > 0real by { assert(cx(M, j, x) * (mdet(M) as real) > 0real); } } } }
pub open spec fn mixr(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, i: int) -> Seq<Vc<Z>> { Seq::new(A.len(), |r: int| if r < i { B[r] } else { A[r] }) }
pub proof fn ind_prim(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, x: Seq<real>, n: nat, i: nat)
    requires A.len() == n, B.len() == n, sqm(A), sqm(B), rowsprim(A, B, n, n as int), i <= n, mdet(A) != 0 ensures ind(mixr(A, B, i as int), x) == ind(A, x), mdet(mixr(A, B, i as int)) != 0, sqm(mixr(A, B, i as int)) decreases i
{ let M = mixr(A, B, i as int); assert(sqm(M)) by { assert forall|r: int| 0 <= r < M.len() implies (#[trigger] M[r])@.len() == M.len() by { assert(A[r]@.len() == n && B[r]@.len() == n); } }
  if i == 0 { assert(M =~= A); } else {
    let k = i - 1; let N = mixr(A, B, k); ind_prim(A, B, x, n, k as nat); assert(rowprim(A[k], B[k], n)); let g = choose|g: int| g > 0 && #[trigger] divrow(A[k]@, B[k]@, g, n, n as int);
    assert(M[k] == B[k]); assert(A[k] == scalev(g, M[k])) by { assert(A[k]@ =~= scalev(g, M[k])@); } assert(N =~= M.update(k, scalev(g, M[k]))); ind_row(M, k, g, x);
    assert(mdet(M) != 0) by { if mdet(M) == 0 { assert(g * 0 == 0); } } } }
pub proof fn prim_same(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, n: nat) requires A.len() == n, B.len() == n, sqm(A), sqm(B), rowsprim(A, B, n, n as int), mdet(A) != 0 ensures mdet(B) != 0, forall|x: Seq<real>| #[trigger] ind(B, x) == ind(A, x)
{ assert forall|x: Seq<real>| #[trigger] ind(B, x) == ind(A, x) by { ind_prim(A, B, x, n, n); assert(mixr(A, B, n as int) =~= B); } ind_prim(A, B, Seq::empty(), n, n); assert(mixr(A, B, n as int) =~= B); }
pub proof fn ful_same(L0: Seq<LogE>, L: Seq<LogE>, dual: bool, coef: int, R: Seq<Vc<Z>>, S: Seq<Vc<Z>>, n: int) requires fulfilled(L0, L, dual, coef, R, n), forall|x: Seq<real>| #[trigger] ind(R, x) == ind(S, x) ensures fulfilled(L0, L, dual, coef, S, n)
{ assert forall|x: Seq<real>| #[trigger] generic(x, n as nat) implies lsum(L, dual, x) == lsum(L0, dual, x) + coef * ind(S, x) by { assert(ind(R, x) == ind(S, x)); } }
// ---- facet divisors divide the determinant of the facets when the rays are primitive
pub proof fn icd(c: Seq<int>, a: Seq<Z>, D: int, f: int, n: nat) requires forall|k: int| 0 <= k < n ==> dvd(f, D * (#[trigger] a[k]).v()) ensures dvd(f, D * icomb(c, a, n)) decreases n
{ if n == 0 { assert(f * 0 == D * 0); } else { icd(c, a, D, f, (n - 1) as nat); let p = icomb(c, a, (n - 1) as nat); let x = a[n - 1].v(); let y = c[n - 1];
    let k1 = choose|k: int| #[trigger] (f * k) == D * p; assert(dvd(f, D * a[n - 1].v())); let k2 = choose|k: int| #[trigger] (f * k) == D * x;
    icd_ring(f, k1, k2, D, p, x, y); assert(f * (k1 + k2 * y) == D * (p + y * x)); } }
@ring icd_ring(f, k1, k2, D, p, x, y)
hyp 1 : f*k1 == D*p
hyp y : f*k2 == D*x
concl 1*(f*(k1+k2*y)) == D*(p+y*x)
@rs
pub proof fn fd_div(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, r: int) requires paired(R, F, fd), sqm(F), sqm(R), 0 <= r < R.len(), primitive(R[r]@, R.len()), mdet(F) != 0 ensures dvd(fd[r].v(), mdet(F))
{ let n = R.len(); let X = adj(F); let D = mdet(F); let B = trm(R); let f = fd[r].v(); adj_two(F);
  assert forall|k: int| 0 <= k < n implies dvd(f, D * (#[trigger] R[r]@[k]).v()) by {
    let a = X[k]@; assert(X[k]@.len() == n); dot_assoc(a, F, B, r, n);
    let c = combv(a, F, n, n)@;
    let g1 = |l: int| c[l].v() * B[l]@[r].v(); dot_sum(c, B, r, n); let v1 = D * R[r]@[k].v();
    assert forall|l: int| 0 <= l < n implies #[trigger] g1(l) == (if l == k { v1 } else { 0 }) by { assert(c[l].v() == dotcol(a, F, l, n)); assert(dotcol(X[k]@, F, l, n) == (if k == l { D } else { 0 })); assert(B[l]@[r] == R[r]@[l]); let z = B[l]@[r].v(); assert(0 * z == 0); }
    sum_one(k, v1, g1, n); assert(sumf(|l: int| c[l].v() * B[l]@[r].v(), n) == v1);
    let C = mulm(F, B); let g2 = |i: int| a[i].v() * C[i]@[r].v(); dot_sum(a, C, r, n); let v2 = a[r].v() * (-f);
    assert forall|i: int| 0 <= i < n implies #[trigger] g2(i) == (if i == r { v2 } else { 0 }) by { assert(F[i]@.len() == n); assert(C[i]@[r].v() == dotcol(F[i]@, B, r, n)); dot_tr(F[i]@, R, r, n); assert(facets_ok(R, F[i], i, fd[i].v())); assert(dot(R[r]@, F[i]@, R.len()) == (if r == i { -fd[i].v() } else { 0 })); let z = a[i].v(); assert(z * 0 == 0); }
    sum_one(r, v2, g2, n); assert(sumf(|i: int| a[i].v() * C[i]@[r].v(), n) == v2);
    let z = a[r].v(); assert(f * (-z) == z * (-f)) by(nonlinear_arith); assert(f * (-z) == v1); }
  let c = choose|c: Seq<int>| #[trigger] icomb(c, R[r]@, n) == 1; icd(c, R[r]@, D, f, n); assert(D * 1 == D); }
pub open spec fn allprim(R: Seq<Vc<Z>>) -> bool { forall|i: int| 0 <= i < R.len() ==> primitive((#[trigger] R[i])@, R.len()) }
// exchanging the two descriptions
pub proof fn swap_kc(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), dualized(h, h2, c), allprim(rowsR(h, c)) ensures kc(h2, c, n), rowsR(h2, c) == rowsF(h, c), rowsF(h2, c) == rowsR(h, c), own(h2, c) == own(h, c), vv(h2, c) == vv(h, c), h2.listCone@[c].coefficient == h.listCone@[c].coefficient
{ hide(is_lv); hide(nodes_lv); hide(lset); hide(lrows); hide(mdet); hide(paired); hide(rv_wf); hide(primitive); hide(gcdof);
  let R = rowsR(h, c); let F = rowsF(h, c); let fd = h.listCone@[c].facet_divisors@; paired_sym(R, F, fd); assert(ownl(h2, c) =~= ownl(h, c));
  assert(sqm(F) && sqm(R));
  assert(fd.len() == n) by { reveal(paired); }
  assert forall|i: int| 0 <= i < fd.len() implies dvd((#[trigger] fd[i]).v(), mdet(F)) by { assert(primitive(R[i]@, R.len())); fd_div(R, F, fd, i); } }

pub proof fn nz_rows(M: Seq<Vc<Z>>) requires sqm(M), mdet(M) != 0 ensures forall|r: int| 0 <= r < M.len() ==> nzvec(#[trigger] M[r])
{ assert forall|r: int| 0 <= r < M.len() implies nzvec(#[trigger] M[r]) by { if !nzvec(M[r]) { assert(M[r]@.len() == M.len()); let v = scalev(0, M[r]); assert forall|j: int| 0 <= j < M.len() implies M[r]@[j].v() == 0 by { } assert(v@ =~= M[r]@) by { assert forall|j: int| 0 <= j < M.len() implies v@[j] == M[r]@[j] by { assert(0 * M[r]@[j].v() == 0); } } assert(v == M[r]); det_scalev(M, r, 0, M[r]); assert(M.update(r, v) =~= M); assert(M.update(r, M[r]) =~= M); assert(0 * mdet(M) == 0); } } }
pub proof fn rp_all(A: Seq<Vc<Z>>, B: Seq<Vc<Z>>, n: int) requires B.len() == n, rowsprim(A, B, n as nat, n) ensures allprim(B) { assert forall|i: int| 0 <= i < B.len() implies primitive((#[trigger] B[i])@, B.len()) by { assert(rowprim(A[i], B[i], n as nat)); } }
// the cone handed to the recursion
pub open spec fn seedc(h: Hp, c: usize, R: Seq<Vc<Z>>, rv: rationalVector, h0: Hp, n: int) -> bool { kc(h, c, n) && rowsR(h, c) == R && h.listCone@[c].coefficient == 1 && vv(h, c) == (rv.enumerator, rv.denominator) && newto(h0, own(h, c)) && grows(h0, h) }
pub open spec fn unsw(h: Hp, c: usize) -> Hp { Hp { listVector: h.listVector, listCone: Ghost(h.listCone@.insert(c, unswap(h.listCone@[c]))), Vertex: h.Vertex, rationalVector: h.rationalVector } }

pub proof fn unsw_dual(h: Hp, u: Hp, c: usize, n: int) requires u == unsw(h, c), h.listCone@.dom().contains(c), kc(u, c, n) ensures dualized(u, h, c)
{ hide(is_lv); hide(nodes_lv); hide(lset); hide(lrows); hide(mdet); hide(paired); hide(rv_wf); assert(h.listCone@ =~= u.listCone@.insert(c, h.listCone@[c])); sub_refl(h.listVector@); }
pub proof fn unsw_new(h0: Hp, h: Hp, c: usize, n: int) requires kc(unsw(h, c), c, n), newto(h0, own(unsw(h, c), c)), grows(h0, unsw(h, c)), own(h, c) == own(unsw(h, c), c), h.listCone@.dom().contains(c) ensures newto(h0, own(h, c)), grows(h0, h)
{ let u = unsw(h, c); assert forall|q: usize| #[trigger] h0.listCone@.dom().contains(q) implies h.listCone@.dom().contains(q) && h.listCone@[q] == h0.listCone@[q] by { assert(u.listCone@.dom().contains(q)); assert(q != c); } }
pub proof fn kc_pair(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures paired(rowsR(h, c), rowsF(h, c), h.listCone@[c].facet_divisors@), rowsF(h, c).len() == n, square(rowsF(h, c)), mdet(rowsF(h, c)) != 0 {}

@rs
pub proof fn dvd_frem(f: int, d: int) requires dvd(f, d), f > 0 ensures frem(zabs(d), f) == 0
{ let k = choose|k: int| #[trigger] (f * k) == d; if d < 0 { assert(f * (-k) == -d) by(nonlinear_arith) requires f * k == d; fl_zero(-k, -d, f); } else { fl_zero(k, d, f); } }
pub proof fn dot_zeror(a: Seq<Z>, f: Seq<Z>, n: nat) requires zeror(f, n as int) ensures dot(a, f, n) == 0 decreases n { if n > 0 { dot_zeror(a, f, (n - 1) as nat); let x = a[n - 1].v(); let y = f[n - 1].v(); assert(x * y == 0) by(nonlinear_arith) requires y == 0; } }
pub proof fn kc_cube(h: Hp, c: usize, n: int) requires kc(h, c, n) ensures cubeok(h, c, n)
{ hide(mdet); hide(rv_wf); hide(dvd); hide(frem); hide(zabs); hide(lset); hide(facets_ok); let k = h.listCone@[c]; let m = h.listVector@; nodes_len(m, k.facets); nodes_len(m, k.rays); sq_rdim(m, k.rays, n); sq_rdim(m, k.facets, n);
  assert(facets_ok(rowsR(h, c), rowsF(h, c)[0], 0, k.facet_divisors@[0].v())); if zeror(rowsF(h, c)[0]@, n) { dot_zeror(rowsR(h, c)[0]@, rowsF(h, c)[0]@, n as nat); reveal(facets_ok); assert(dot(rowsR(h, c)[0]@, rowsF(h, c)[0]@, rowsR(h, c).len()) != 0); }
  assert forall|i: int| 0 <= i < n implies (#[trigger] k.facet_divisors@[i]).v() != 0 && frem(zabs(k.determinant.v()), k.facet_divisors@[i].v()) == 0 by { assert(facets_ok(rowsR(h, c), rowsF(h, c)[i], i, k.facet_divisors@[i].v())); dvd_frem(k.facet_divisors@[i].v(), k.determinant.v()); } }
pub proof fn pert_kc(h: Hp, h2: Hp, c: usize, n: int) requires kc(h, c, n), perturbed(h, h2, c), irok(h2, c, n) ensures kc(h2, c, n), rowsR(h2, c) == rowsR(h, c), rowsF(h2, c) == rowsF(h, c), kept(h, h2, own(h, c)), own(h2, c).c == own(h, c).c, own(h2, c).v == own(h, c).v, own(h2, c).l == own(h, c).l, h2.listCone@[c] == h.listCone@[c], !h.rationalVector@.dom().contains(own(h2, c).r), inheap(h2, own(h2, c))
{ hide(mdet); hide(rv_wf); hide(lset); hide(lrows); hide(is_lv); hide(nodes_lv); hide(paired); hide(fdiv_ok); hide(square); kc_in(h, c, n); }
@fn barvinok_Single(mat_ZZ, Single_Cone_Parameters *, const Vertex *) as bv_single heap softassert
@requires 0 < nb_limit(), (B@.len() + 1) * (nb_limit() + 2) < 0x7fff_ffff, mwf(B), 1 <= B@.len() < 0x7fff_fffe, Parameters.Number_of_Variables == B@.len(), hp.Vertex@.dom().contains(vertex), hp.rationalVector@.dom().contains(hp.Vertex@[vertex].vertex), rv_wf(hp.rationalVector@[hp.Vertex@[vertex].vertex]), hp.rationalVector@[hp.Vertex@[vertex].vertex].enumerator@.len() == B@.len()
@aborts true
@ensures grows(hp0, hp), samep(Parameters, Parameters0), Parameters.Current_Depth == Parameters0.Current_Depth, 0 <= Parameters.decomposition <= 2, mdet(B0@) != 0, square(B0@)
@ensures Parameters.decomposition != 1 ==> log_ok(Parameters0.log@, Parameters.log@, Parameters, vtx(hp0, vertex), B0@.len() as int)
@ensures Parameters.decomposition != 1 && ret != -1 ==> fulfilled(Parameters0.log@, Parameters.log@, dualm(Parameters), 1, B0@, B0@.len() as int)
@ensures Parameters.decomposition == 1 ==> exists|F: Seq<Vc<Z>>, fd: Seq<Z>, U: Seq<Vc<Z>>| #[trigger] dualof(B0@, U, F, fd) && (ret != -1 ==> fulfilled(Parameters0.log@, Parameters.log@, false, 1, F, B0@.len() as int))
@at ghost head
  hide(kc); hide(kept); hide(grows); hide(cone_wf); hide(cone_sep); hide(ent_ok); hide(log_ok); hide(fulfilled); hide(bound_ok); hide(apart); hide(newto); hide(square); hide(rv_wf); hide(simp_ok); hide(rowsprim); hide(mdet); hide(allprim); hide(ind); hide(paired); hide(fdiv_ok); hide(dualized); hide(irok); hide(cubeok); hide(perturbed); hide(safely);
@at ghost entry
  let ghost h0 = hp; let ghost nn = B@.len() as int; let ghost B00 = B@; let ghost mut BP = B@; let ghost rv = hp.rationalVector@[hp.Vertex@[vertex].vertex]; let ghost mut hk = hp; let ghost mut hs = hp; let ghost mut hd = hp; let ghost P0 = Parameters; let ghost L0 = Parameters.log@; let ghost mut F = B@; let ghost mut fd = Seq::<Z>::empty();
@at precall bv_mgcd
  assert(sqm(B@)); nz_rows(B@);
@at call bv_mgcd
  BP = B@; assert(sqm(BP)); prim_same(B00, BP, nn as nat); rp_all(B00, BP, nn); 
@at call cv_m2l
  assert(lrows(hp.listVector@, $ret) =~= BP) by { assert(BP.subrange(0, nn) =~= BP); }
@at precall simp_facets
  hk = hp; reveal(square); assert(lrows(hp.listVector@, hp.listCone@[dummy].rays) == BP); sq_rdim(hp.listVector@, hp.listCone@[dummy].rays, nn);
  assert(submap(h0.listVector@, hk.listVector@)); assert(submap(h0.Vertex@, hk.Vertex@) && submap(h0.rationalVector@, hk.rationalVector@)) by { reveal(submap); }
  assert(square(BP) && square(B00));
@at precall dual_cone
  hk = hp; assert(rvp(hp, dummy) != 0); reveal(square); assert(lrows(hp.listVector@, hp.listCone@[dummy].rays) == BP); sq_rdim(hp.listVector@, hp.listCone@[dummy].rays, nn);
  assert(submap(h0.listVector@, hk.listVector@)); assert(submap(h0.Vertex@, hk.Vertex@) && submap(h0.rationalVector@, hk.rationalVector@)) by { reveal(submap); }
  assert(square(BP) && square(B00));
@at call simp_facets
  mk_new(rv, h0, hk, hp, dummy, BP, mkz(mdet(BP)), 1, nn); 
@at call dual_cone
  hd = hp; reveal(dualized); mk_new(rv, h0, hk, unsw(hp, dummy), dummy, BP, mkz(mdet(BP)), 1, nn); assert(seedc(unsw(hp, dummy), dummy, BP, rv, h0, nn)); 
  unsw_dual(hp, unsw(hp, dummy), dummy, nn); swap_kc(unsw(hp, dummy), hp, dummy, nn); hd = hp; unsw_new(h0, hp, dummy, nn); assert(newto(h0, own(hp, dummy)) && grows(h0, hp));
  F = rowsR(hp, dummy); fd = unsw(hp, dummy).listCone@[dummy].facet_divisors@; kc_pair(unsw(hp, dummy), dummy, nn); assert(dualof(B00, BP, F, fd)) by { reveal(square); }
@at precall irr_do
  kc_cube(hp, dummy, nn); assert(irp(hp, dummy) != 0) by { reveal(dualized); assert(hp.listCone@[dummy].vertex == hk.listCone@[dummy].vertex); assert(irp(hp, dummy) == rvp(hk, dummy)); } assert(irok(hp, dummy, nn)) by { reveal(cubeok); }
  assert((Parameters.Number_of_Variables + 1) * (nb_limit() + 2) < 0x7fff_ffff);
@at call irr_do
  pert_kc(hd, hp, dummy, nn); grows_kept(h0, hd, hp, own(hd, dummy)); assert(newto(h0, own(hp, dummy))) by { reveal(newto); reveal(grows); reveal(submap); }
@at precall bv_dfs
  hs = hp;
@at call bv_dfs
  grows_kept(h0, hs, hp, own(hs, dummy));
  if P0.decomposition == 1 { assert(dualof(B00, BP, F, fd)); assert(rowsR(hs, dummy) == F); }
  if P0.decomposition != 1 { if $ret != -1 { ful_same(L0, Parameters.log@, dualm(P0), 1, BP, B00, nn); } }
@rs
pub open spec fn vtx(h: Hp, v: usize) -> (Vc<Z>, Vc<Z>) { let r = h.rationalVector@[h.Vertex@[v].vertex]; (r.enumerator, r.denominator) }
// F lists the facet normals of the cone generated by the rows of A, U its primitive generators
pub open spec fn dualof(A: Seq<Vc<Z>>, U: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>) -> bool { rowsprim(A, U, A.len(), A.len() as int) && paired(U, F, fd) && F.len() == A.len() && square(F) && mdet(F) != 0 }
@end
