// Points of the half-open fundamental parallelepiped: genFunction/piped.cpp
@include pmath.vc
@source genFunction/piped.cpp
@struct PointsInParallelepipedGenerator from genFunction/piped.h
@struct PointsScalarProductsGenerator from genFunction/piped.h
@merge PointsScalarProductsGenerator PointsInParallelepipedGenerator
@hidden is_lv nodes_lv chain_lv lset submap lrows rows_of mdet unitm dvd facets_ok fdone fdiv frem zabs paired smithy wit square
@rs
// ---- the cone given to the generator
pub open spec fn pcone(h: Hp, c: usize, n: int) -> bool {
    let k = h.listCone@[c]; let m = h.listVector@;
    &&& 1 <= n < 0x7fff_fffe && h.listCone@.dom().contains(c) && is_lv(m, k.rays) && is_lv(m, k.facets) && k.rays != 0 && k.facets != 0
    &&& rowsR(h, c).len() == n && square(rowsR(h, c)) && rowsF(h, c).len() == n && square(rowsF(h, c))
    &&& k.determinant.v() == mdet(rowsR(h, c)) && mdet(rowsR(h, c)) != 0 && paired(rowsR(h, c), rowsF(h, c), k.facet_divisors@) && fdiv_ok(k.facet_divisors@, k.determinant.v())
    &&& h.Vertex@.dom().contains(k.vertex) && h.rationalVector@.dom().contains(rvp(h, c)) && rv_wf(rvr(h, c)) && rvr(h, c).enumerator@.len() == n
}
@extern SmithNormalForm(const mat_ZZ &, mat_ZZ &, mat_ZZ &, BarvinokParameters *) as snf ->Mt
@requires mdim(a0, a0@.len() as int, a0@.len() as int), 1 <= a0@.len() <= i32::MAX, mdet(a0@) != 0
@ensures smith_of(a0@, a1@, a2@, ret@), mdim(ret, a0@.len() as int, a0@.len() as int), mdim(a1, a0@.len() as int, a0@.len() as int), mdim(a2, a0@.len() as int, a0@.len() as int)
@fn get_multipliers_from_snf(const mat_ZZ &) as snf_diag static
@requires mdim(snf, snf@.len() as int, snf@.len() as int), snf@.len() <= i32::MAX
@ensures ret@.len() == snf@.len(), forall|i: int| 0 <= i < snf@.len() ==> (#[trigger] ret@[i]).v() == ment(snf@, i, i)
@invariant 0
  0 <= j <= row, row == snf@.len(), n@.len() == row, forall|i: int| 0 <= i < j ==> (#[trigger] n@[i]).v() == ment(snf@, i, i)
@loopdec 0 row - j
@rs
pub proof fn ray_nz(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, d: int) requires square(R), square(F), R.len() > 0, paired(R, F, fd), fdiv_ok(fd, d), d != 0 ensures mdet(trn(R)) != 0, sqm(trn(R))
{ let n = R.len(); let U = trn(R); let D = zabs(d); let fs = Seq::new(n, |i: int| mkz(fdiv(D, fd[i].v())));
  assert forall|i: int| 0 <= i < n implies (#[trigger] fs[i]).v() * fd[i].v() == D by { fs_at(R, F, fd, d, i); }
  let Y = rowsY(F, fs);
  ray_inv(R, F, fd, fs, D); inv_left(Y, U, D); }
pub proof fn fs_at(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, d: int, i: int) requires paired(R, F, fd), fdiv_ok(fd, d), 0 <= i < fd.len() ensures fdiv(zabs(d), fd[i].v()) * fd[i].v() == zabs(d), fd[i].v() > 0
{ assert(facets_ok(R, F[i], i, fd[i].v()) && fd[i].v() > 0); assert(dvd(fd[i].v(), d)); let k = choose|k: int| #[trigger] (fd[i].v() * k) == d; let f = fd[i].v();
  if d < 0 { assert(f * (-k) == -d) by(nonlinear_arith) requires f * k == d; assert(dvd(f, -d)); } exact_div(zabs(d), f); let q = fdiv(zabs(d), f); assert(f * q == q * f) by(nonlinear_arith); }
// ---- the generator
pub open spec fn flo(beta: Seq<Z>, v: rationalVector, F: Seq<Vc<Z>>) -> bool {
    scaled_by(v.integer_scale@, v.integer_scale_factor.v(), v) && beta.len() == F.len() && forall|i: int| 0 <= i < F.len() ==> (#[trigger] beta[i]).v() == fdiv(dot(v.integer_scale@, F[i]@, F.len()), v.integer_scale_factor.v())
}
pub open spec fn gdims(g: PointsInParallelepipedGenerator, n: int) -> bool { g.max_multipliers@.len() == n && mdim(g.B_inv, n, n) && mdim(g.Tau, n, n) }
pub open spec fn gfull(h: Hp, g: PointsInParallelepipedGenerator, n: int) -> bool {
    let R = rowsR(h, g.cone); let F = rowsF(h, g.cone);
    &&& pcone(h, g.cone, n) && gdims(g, n) && g.facet_divisor_common_multiple.v() == zabs(mdet(R))
    &&& genok(R, F, h.listCone@[g.cone].facet_divisors@, g.facet_scale_factors@, g.facet_divisor_common_multiple.v(), g.beta@, g.beta_mod_facet_divisors@, g.B_inv@, g.Tau@)
    &&& smithy(R, g.B_inv@, g.max_multipliers@)
}
pub proof fn pc_frame(h: Hp, h2: Hp, c: usize, n: int, p: usize) requires pcone(h, c, n), p == rvp(h, c), rv_only(h, h2, p), rv_wf(h2.rationalVector@[p]), h2.rationalVector@[p].enumerator == h.rationalVector@[p].enumerator ensures pcone(h2, c, n), rowsR(h2, c) == rowsR(h, c), rowsF(h2, c) == rowsF(h, c) {}
pub open spec fn dblrows(W: Seq<Vc<Z>>, P: Seq<Vc<Z>>, S: Seq<Vc<Z>>, i: int, j: int, n: int) -> bool {
    forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> #[trigger] ment(W, a, b) == (if a < i || (a == i && b < j) { fdiv(ment(P, a, b), ment(S, b, b)) } else { ment(P, a, b) })
}
pub open spec fn taupart(F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, T: Seq<Vc<Z>>, i: int, j: int, n: nat) -> bool {
    forall|a: int, b: int| 0 <= a < n && 0 <= b < n && (a < i || (a == i && b < j)) ==> #[trigger] ment(T, a, b) == frem(dotcol(F[a]@, W, b, n), fd[a].v())
}
@fn PointsInParallelepipedGenerator::PointsInParallelepipedGenerator(const listCone *, int, BarvinokParameters *) as pg_new heap
@requires pcone(hp, a_cone, numOfVars as int)
@ensures rv_only(hp0, hp, rvp(hp0, a_cone)), ret.cone == a_cone, gfull(hp, ret, numOfVars as int), flo(ret.beta@, rvr(hp, a_cone), rowsF(hp, a_cone)), rowsR(hp, a_cone) == rowsR(hp0, a_cone), rowsF(hp, a_cone) == rowsF(hp0, a_cone)
@ensures hp.rationalVector@[rvp(hp0, a_cone)].enumerator == hp0.rationalVector@[rvp(hp0, a_cone)].enumerator, hp.rationalVector@[rvp(hp0, a_cone)].denominator == hp0.rationalVector@[rvp(hp0, a_cone)].denominator
@at ghost entry
  let ghost n = numOfVars as nat; let ghost R = rowsR(hp, a_cone); let ghost F = rowsF(hp, a_cone); let ghost fd = hp.listCone@[a_cone].facet_divisors@; let ghost d = mdet(R); let ghost fns = nodes_lv(hp.listVector@, hp.listCone@[a_cone].facets); let ghost U0 = trn(R);
  let ghost kk = hp.listCone@[a_cone]; let ghost m0 = hp.listVector@; let ghost rp = rvp(hp, a_cone); let ghost mut h1 = hp;
  proof { nodes_len(m0, kk.facets); nodes_len(m0, kk.rays); ray_nz(R, F, fd, d); rows_rdim(m0, kk.rays, n as int); rows_rdim(m0, kk.facets, n as int); got_lv(m0, kk.facets); got_lv(m0, kk.rays); walk_lv(m0, kk.rays, 0); pair_len(R, F, fd); }
@at after /cv_l2m/
  assert(this.U@ =~= U0) by { tr_ext(this.U, R, n); }
@at ghost before 0
  let ghost t1 = this;
@invariant 0
  0 <= i <= n, hp == hp0, this == (PointsInParallelepipedGenerator { max_multipliers: this.max_multipliers, ..t1 }), this.max_multipliers@.len() == n, forall|q: int| 0 <= q < i ==> (#[trigger] this.max_multipliers@[q]).v() == 1
@loopdec 0 n - i
@at after /mt_scale/
  unimod_dets(R, d); unimod_wit(R, this.B_inv@, this.max_multipliers@);
@at ghost before 1
  let ghost t1 = this; let ghost P = this.B_inv@; 
  proof { smith_rem(R, B@, C@, snf_U@); assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies #[trigger] ment(P, l, j) == dotcol(U0[l]@, C@, j, n) by {} }
@invariant 1
  0 <= i_2 <= n, hp == hp0, this == (PointsInParallelepipedGenerator { B_inv: this.B_inv, ..t1 }), mdim(this.B_inv, n as int, n as int), dblrows(this.B_inv@, P, snf_U@, i_2 as int, 0, n as int)
@loopdec 1 n - i_2
@invariant 2
  0 <= i_2 < n, 0 <= j <= n, hp == hp0, this == (PointsInParallelepipedGenerator { B_inv: this.B_inv, ..t1 }), mdim(this.B_inv, n as int, n as int), dblrows(this.B_inv@, P, snf_U@, i_2 as int, j as int, n as int)
@loopdec 2 n - j
@at ghost begin 2
  let ghost w0 = this.B_inv@;
  proof { assert(ment(w0, i_2 as int, j as int) == ment(P, i_2 as int, j as int)); assert(ment(P, i_2 as int, j as int) == dotcol(U0[i_2 as int]@, C@, j as int, n)); assert(snf_U@[j as int]@[j as int].v() >= 1); }
@at end 2
  dbl_step(w0, this.B_inv@, P, snf_U@, i_2 as int, j as int, n as int, q);
@at end 1
  dbl_row(this.B_inv@, P, snf_U@, i_2 as int, n as int);
@at after 1
  dbl_done(R, B@, C@, snf_U@, P, this.B_inv, this.max_multipliers@, n);
@at ghost before 3
  let ghost t3 = this; proof { h1 = hp; } let ghost sf = v_scale_factor.v(); let ghost vs = v_scaled@;
  proof { pc_frame(hp0, hp, a_cone, n as int, rp); }
@invariant 3
  0 <= i_3 <= n, hp == h1, facet == at(fns, i_3 as int), this == (PointsInParallelepipedGenerator { beta: this.beta, beta_mod_facet_divisors: this.beta_mod_facet_divisors, ..t3 }), this.beta@.len() == n, this.beta_mod_facet_divisors@.len() == n, forall|q: int| 0 <= q < i_3 ==> (#[trigger] this.beta@[q]).v() == fdiv(dot(vs, F[q]@, n), sf), forall|q: int| 0 <= q < i_3 ==> (#[trigger] this.beta_mod_facet_divisors@[q]).v() == frem(this.beta@[q].v(), fd[q].v())
@loopdec 3 n - i_3
@at begin 3
  walk_lv(m0, kk.facets, i_3 as int); assert(m0[fns[i_3 as int]].first@.len() == n); fs_at(R, F, fd, d, i_3 as int);
@at ghost before 4
  let ghost t4 = this; 
@invariant 4
  0 <= i_4 <= n, hp == h1, this == (PointsInParallelepipedGenerator { facet_scale_factors: this.facet_scale_factors, ..t4 }), this.facet_scale_factors@.len() == n, forall|q: int| 0 <= q < i_4 ==> (#[trigger] this.facet_scale_factors@[q]).v() * fd[q].v() == zabs(d)
@loopdec 4 n - i_4
@at begin 4
  fs_at(R, F, fd, d, i_4 as int);
@at ghost before 5
  let ghost t5 = this;
@invariant 5
  0 <= i_5 <= n, hp == h1, facet_2 == at(fns, i_5 as int), this == (PointsInParallelepipedGenerator { Tau: this.Tau, ..t5 }), mdim(this.Tau, n as int, n as int), taupart(F, fd, this.B_inv@, this.Tau@, i_5 as int, 0, n)
@loopdec 5 n - i_5
@at begin 5
  walk_lv(m0, kk.facets, i_5 as int); assert(m0[fns[i_5 as int]].first@.len() == n); fs_at(R, F, fd, d, i_5 as int);
@invariant 6
  0 <= i_5 < n, 0 <= j_2 <= n, hp == h1, this == (PointsInParallelepipedGenerator { Tau: this.Tau, ..t5 }), mdim(this.Tau, n as int, n as int), taupart(F, fd, this.B_inv@, this.Tau@, i_5 as int, j_2 as int, n)
@loopdec 6 n - j_2
@at ghost begin 6
  let ghost ta = this.Tau@;
@invariant 7
  0 <= k <= n, tau.v() == dotcol(F[i_5 as int]@, this.B_inv@, j_2 as int, k as nat)
@loopdec 7 n - k
@at end 7
  ring_cm(this.B_inv@[k as int]@[j_2 as int].v(), F[i_5 as int]@[k as int].v());
@at end 6
  tau_step(ta, this.Tau@, F, fd, this.B_inv@, i_5 as int, j_2 as int, n, tau);
@at end 5
  tau_row(this.Tau@, F, fd, this.B_inv@, i_5 as int, n);
@at exit
  gen_done(hp, this, R, F, fd, d, n);
@rs
pub proof fn pair_len(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>) requires paired(R, F, fd) ensures fd.len() == R.len(), F.len() == R.len() {}
pub proof fn rows_rdim(m: Map<usize, listVector>, p: usize, n: int) requires square(lrows(m, p)), lrows(m, p).len() == n ensures rdim(m, nodes_lv(m, p), n) { nodes_len(m, p); assert forall|i: int| 0 <= i < n implies (#[trigger] m[nodes_lv(m, p)[i]]).first@.len() == n by { assert(lrows(m, p)[i]@.len() == n); } }
pub proof fn tr_ext(U: Mt, R: Seq<Vc<Z>>, n: nat) requires mdim(U, n as int, n as int), R.len() == n, forall|j: int, k: int| 0 <= j < n && 0 <= k < n ==> #[trigger] ment(U@, j, k) == ment(R, k, j) ensures U@ =~= trn(R)
{ assert forall|j: int| 0 <= j < n implies U@[j] == trn(R)[j] by { assert(U@[j]@.len() == n); assert(U@[j]@ =~= trn(R)[j]@) by { assert forall|k: int| 0 <= k < n implies U@[j]@[k] == trn(R)[j]@[k] by { assert(ment(U@, j, k) == ment(R, k, j)); } } } }
pub proof fn unimod_dets(R: Seq<Vc<Z>>, d: int) requires square(R), d == mdet(R), zabs(d) == 1 ensures unimod(R) {}
pub proof fn dbl_step(w: Seq<Vc<Z>>, w2: Seq<Vc<Z>>, P: Seq<Vc<Z>>, S: Seq<Vc<Z>>, i: int, j: int, n: int, q: Z) requires dblrows(w, P, S, i, j, n), w.len() == n, 0 <= i < n, 0 <= j < n, w[i]@.len() == n, w2 == w.update(i, w2[i]), w2[i]@ == w[i]@.update(j, q), q.v() == fdiv(ment(P, i, j), ment(S, j, j)) ensures dblrows(w2, P, S, i, j + 1, n)
{ assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] ment(w2, a, b) == (if a < i || (a == i && b < j + 1) { fdiv(ment(P, a, b), ment(S, b, b)) } else { ment(P, a, b) }) by { assert(ment(w, a, b) == (if a < i || (a == i && b < j) { fdiv(ment(P, a, b), ment(S, b, b)) } else { ment(P, a, b) })); } }
pub proof fn dbl_row(w: Seq<Vc<Z>>, P: Seq<Vc<Z>>, S: Seq<Vc<Z>>, i: int, n: int) requires dblrows(w, P, S, i, n, n) ensures dblrows(w, P, S, i + 1, 0, n)
{ assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] ment(w, a, b) == (if a < i + 1 || (a == i + 1 && b < 0) { fdiv(ment(P, a, b), ment(S, b, b)) } else { ment(P, a, b) }) by { assert(ment(w, a, b) == (if a < i || (a == i && b < n) { fdiv(ment(P, a, b), ment(S, b, b)) } else { ment(P, a, b) })); } }
pub proof fn dbl_done(R: Seq<Vc<Z>>, L: Seq<Vc<Z>>, M: Seq<Vc<Z>>, S: Seq<Vc<Z>>, P: Seq<Vc<Z>>, W: Mt, d: Seq<Z>, n: nat)
    requires square(R), R.len() == n, n > 0, smith_of(trn(R), L, M, S), mdim(W, n as int, n as int), d.len() == n, dblrows(W@, P, S, n as int, 0, n as int), forall|i: int| 0 <= i < n ==> (#[trigger] d[i]).v() == ment(S, i, i), forall|l: int, j: int| 0 <= l < n && 0 <= j < n ==> #[trigger] ment(P, l, j) == dotcol(trn(R)[l]@, M, j, n)
    ensures smithy(R, W@, d)
{ assert forall|l: int, j: int| 0 <= l < n && 0 <= j < n implies #[trigger] ment(W@, l, j) == fdiv(dotcol(trn(R)[l]@, M, j, R.len()), S[j]@[j].v()) by { assert(ment(P, l, j) == dotcol(trn(R)[l]@, M, j, n)); } smith_wit(R, L, M, S, W@, d); }
pub proof fn tau_step(t: Seq<Vc<Z>>, t2: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, i: int, j: int, n: nat, q: Z) requires taupart(F, fd, W, t, i, j, n), t.len() == n, 0 <= i < n, 0 <= j < n, t[i]@.len() == n, t2 == t.update(i, t2[i]), t2[i]@ == t[i]@.update(j, q), q.v() == frem(dotcol(F[i]@, W, j, n), fd[i].v()) ensures taupart(F, fd, W, t2, i, j + 1, n)
{ assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && (a < i || (a == i && b < j + 1)) implies #[trigger] ment(t2, a, b) == frem(dotcol(F[a]@, W, b, n), fd[a].v()) by { if a < i || b < j { assert(ment(t, a, b) == frem(dotcol(F[a]@, W, b, n), fd[a].v())); } } }
pub proof fn tau_row(t: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, W: Seq<Vc<Z>>, i: int, n: nat) requires taupart(F, fd, W, t, i, n as int, n) ensures taupart(F, fd, W, t, i + 1, 0, n) {}
pub proof fn gen_done(h: Hp, g: PointsInParallelepipedGenerator, R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, d: int, n: nat)
    requires pcone(h, g.cone, n as int), R == rowsR(h, g.cone), F == rowsF(h, g.cone), fd == h.listCone@[g.cone].facet_divisors@, d == mdet(R), gdims(g, n as int), g.facet_divisor_common_multiple.v() == zabs(d), smithy(R, g.B_inv@, g.max_multipliers@), g.beta@.len() == n, g.beta_mod_facet_divisors@.len() == n, g.facet_scale_factors@.len() == n,
      forall|i: int| 0 <= i < n ==> (#[trigger] g.beta_mod_facet_divisors@[i]).v() == frem(g.beta@[i].v(), fd[i].v()), forall|i: int| 0 <= i < n ==> (#[trigger] g.facet_scale_factors@[i]).v() * fd[i].v() == zabs(d), taupart(F, fd, g.B_inv@, g.Tau@, n as int, 0, n)
    ensures gfull(h, g, n as int)
{ pair_len(R, F, fd); assert(taus(F, fd, g.B_inv@, g.Tau@)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ment(g.Tau@, i, j) == frem(dotcol(F[i]@, g.B_inv@, j, n), fd[i].v()) by {} } }
@rs
pub open spec fn zs(m: Seq<i32>) -> Seq<Z> { Seq::new(m.len(), |i: int| mkz(m[i] as int)) }
// the scaled multiplier of ray i
pub open spec fn smul_i(h: Hp, g: PointsInParallelepipedGenerator, m: Seq<Z>, i: int, n: nat) -> int { mulof(g.beta@[i].v(), g.beta_mod_facet_divisors@[i].v(), h.listCone@[g.cone].facet_divisors@[i].v(), g.Tau@[i]@, m, n) }
pub open spec fn smuls(h: Hp, g: PointsInParallelepipedGenerator, m: Seq<Z>, n: nat) -> Seq<Z> { Seq::new(n, |i: int| mkz(smul_i(h, g, m, i, n))) }
pub open spec fn isgen(h: Hp, g: PointsInParallelepipedGenerator, m: Seq<Z>, x: Seq<Z>) -> bool { inbox(rowsF(h, g.cone), h.listCone@[g.cone].facet_divisors@, g.beta@, x) && cong(rowsR(h, g.cone), g.B_inv@, m, x) }
pub open spec fn dimok(h: Hp, g: PointsInParallelepipedGenerator, i: int, n: int) -> bool { 0 <= i < n && n <= i32::MAX && h.listCone@.dom().contains(g.cone) && g.beta@.len() == n && g.beta_mod_facet_divisors@.len() == n && h.listCone@[g.cone].facet_divisors@.len() == n && h.listCone@[g.cone].facet_divisors@[i].v() > 0 && mdim(g.Tau, n, n) }
pub proof fn full_dim(h: Hp, g: PointsInParallelepipedGenerator, n: int, i: int) requires gfull(h, g, n), 0 <= i < n ensures dimok(h, g, i, n), g.facet_scale_factors@.len() == n { let k = h.listCone@[g.cone]; pair_len(rowsR(h, g.cone), rowsF(h, g.cone), k.facet_divisors@); assert(facets_ok(rowsR(h, g.cone), rowsF(h, g.cone)[i], i, k.facet_divisors@[i].v()) && k.facet_divisors@[i].v() > 0) by { reveal(paired); } }
@fn PointsInParallelepipedGenerator::compute_scaled_fundamental_multiplier_from_multipliers(ZZ &, const vec_ZZ &, const vec_ZZ &, int) as pg_mul_z heap
@requires dimok(hp, this, facet_index as int, facet@.len() as int), multipliers@.len() == facet@.len()
@ensures hp == hp0, this == this0, scaled_fundamental_multiplier.v() == smul_i(hp, this, multipliers@, facet_index as int, facet@.len())
@invariant 0
  0 <= j <= dim, hp == hp0, this == this0, dim == facet@.len(), dimok(hp, this, facet_index as int, dim as int), multipliers@.len() == facet@.len(), scaled_fundamental_multiplier.v() == this.beta_mod_facet_divisors@[facet_index as int].v() - dot(this.Tau@[facet_index as int]@, multipliers@, j as nat)
@loopdec 0 dim - j
@fn PointsInParallelepipedGenerator::compute_scaled_fundamental_multiplier_from_multipliers(ZZ &, const int *, const vec_ZZ &, int) as pg_mul_i heap
@requires dimok(hp, this, facet_index as int, facet@.len() as int), multipliers@.len() == facet@.len()
@ensures hp == hp0, this == this0, scaled_fundamental_multiplier.v() == smul_i(hp, this, zs(multipliers@), facet_index as int, facet@.len())
@invariant 0
  0 <= j <= dim, hp == hp0, this == this0, dim == facet@.len(), dimok(hp, this, facet_index as int, dim as int), multipliers@.len() == facet@.len(), scaled_fundamental_multiplier.v() == this.beta_mod_facet_divisors@[facet_index as int].v() - dot(this.Tau@[facet_index as int]@, zs(multipliers@), j as nat)
@loopdec 0 dim - j
@fn PointsInParallelepipedGenerator::GetMaxMultipliers() as pg_max
@ensures this == this0, ret == this.max_multipliers
@fn PointsInParallelepipedGenerator::GetMaxMultipliers_int() as pg_max_int
@requires this.max_multipliers@.len() <= i32::MAX, forall|i: int| 0 <= i < this.max_multipliers@.len() ==> (#[trigger] this.max_multipliers@[i]).v() >= 1
@ensures this == this0, ret@.len() == this.max_multipliers@.len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == this.max_multipliers@[i].v()
@aborts true
@invariant 0
  0 <= i <= length, this == this0, length == this.max_multipliers@.len(), n@.len() == length, forall|q: int| 0 <= q < i ==> #[trigger] n@[q] == this.max_multipliers@[q].v()
@loopdec 0 length - i
@rs
pub open spec fn accum(r: Seq<Z>, R: Seq<Vc<Z>>, hs: Seq<Z>, i: nat, n: nat) -> bool { r.len() == n && forall|l: int| 0 <= l < n ==> (#[trigger] r[l]).v() == dot(trn(R)[l]@, hs, i) }
pub proof fn accum_step(r: Seq<Z>, r2: Seq<Z>, R: Seq<Vc<Z>>, fs: Seq<Z>, s: Seq<Z>, c: int, i: int, n: nat) requires accum(r, R, had(fs, s), i as nat, n), 0 <= i < n, R.len() == n, square(R), fs.len() == n, s.len() == n, c == s[i].v() * fs[i].v(), r2.len() == n, forall|l: int| 0 <= l < n ==> (#[trigger] r2[l]).v() == r[l].v() + c * R[i]@[l].v()
    ensures accum(r2, R, had(fs, s), (i + 1) as nat, n)
{ assert forall|l: int| 0 <= l < n implies (#[trigger] r2[l]).v() == dot(trn(R)[l]@, had(fs, s), (i + 1) as nat) by { assert(r[l].v() == dot(trn(R)[l]@, had(fs, s), i as nat)); let x = s[i].v(); let y = fs[i].v(); let z = R[i]@[l].v(); assert((x * y) * z == z * (y * x)) by(nonlinear_arith); } }
pub proof fn gen_for(h: Hp, g: PointsInParallelepipedGenerator, m: Seq<Z>, n: nat) -> (x: Seq<Z>) requires gfull(h, g, n as int), m.len() == n ensures x.len() == n, isgen(h, g, m, x), fvals(rowsF(h, g.cone), x) =~= vng(smuls(h, g, m, n)), forall|l: int| 0 <= l < n ==> dot(#[trigger] trn(rowsR(h, g.cone))[l]@, had(g.facet_scale_factors@, smuls(h, g, m, n)), n) == g.facet_divisor_common_multiple.v() * x[l].v()
{ let R = rowsR(h, g.cone); let F = rowsF(h, g.cone); let fd = h.listCone@[g.cone].facet_divisors@; let s = smuls(h, g, m, n);
  let x = gen_point(R, F, fd, g.facet_scale_factors@, g.facet_divisor_common_multiple.v(), g.beta@, g.beta_mod_facet_divisors@, g.B_inv@, g.Tau@, m, s);
  assert forall|l: int| 0 <= l < n implies dot(#[trigger] trn(R)[l]@, had(g.facet_scale_factors@, s), n) == g.facet_divisor_common_multiple.v() * x[l].v() by { assert(mv(trn(R), had(g.facet_scale_factors@, s))[l].v() == g.facet_divisor_common_multiple.v() * x[l].v()); }
  x }
pub proof fn div_back(D: int, x: int) requires D > 0 ensures fdiv(D * x, D) == x, frem(D * x, D) == 0 { assert((D * x) / D == x) by(nonlinear_arith) requires D > 0; }
@fn PointsInParallelepipedGenerator::GeneratePoint(const int *) as pg_point_i heap
@requires gfull(hp, this, this.max_multipliers@.len() as int), multipliers@.len() == this.max_multipliers@.len()
@ensures hp == hp0, this == this0, ret@.len() == this.max_multipliers@.len(), isgen(hp, this, zs(multipliers@), ret@)
@at ghost entry
  let ghost n = this.max_multipliers@.len(); let ghost kk = hp.listCone@[this.cone]; let ghost R = rowsR(hp, this.cone); let ghost F = rowsF(hp, this.cone); let ghost fns = nodes_lv(hp.listVector@, kk.facets); let ghost rns = nodes_lv(hp.listVector@, kk.rays); let ghost s = smuls(hp, this, zs(multipliers@), n); let ghost hs = had(this.facet_scale_factors@, s);
  let ghost m0 = hp.listVector@; let ghost mut x = s;
  proof { nodes_len(m0, kk.facets); nodes_len(m0, kk.rays); rows_rdim(m0, kk.rays, n as int); rows_rdim(m0, kk.facets, n as int); got_lv(m0, kk.facets); got_lv(m0, kk.rays); full_dim(hp, this, n as int, 0); x = gen_for(hp, this, zs(multipliers@), n); }
@invariant 0
  0 <= i <= n, hp == hp0, this == this0, facet == at(fns, i as int), ray == at(rns, i as int), accum(result@, R, hs, i as nat, n)
@loopdec 0 n - i
@at ghost begin 0
  let ghost r0 = result@;
  proof { walk_lv(m0, kk.facets, i as int); walk_lv(m0, kk.rays, i as int); assert(m0[fns[i as int]].first@.len() == n); assert(m0[rns[i as int]].first@.len() == n); full_dim(hp, this, n as int, i as int); }
@at end 0
  accum_step(r0, result@, R, this.facet_scale_factors@, s, scaled_fundamental_multiplier.v() * this.facet_scale_factors@[i as int].v(), i as int, n);
@at ghost before 1
  let ghost r1 = result@;
@invariant 1
  0 <= i <= n, hp == hp0, this == this0, result@.len() == n, forall|l: int| 0 <= l < i ==> #[trigger] result@[l] == x[l], forall|l: int| i <= l < n ==> #[trigger] result@[l] == r1[l]
@loopdec 1 n - i
@at begin 1
  assert(result@[i as int] == r1[i as int]); assert(r1[i as int].v() == dot(trn(R)[i as int]@, hs, n)); div_back(this.facet_divisor_common_multiple.v(), x[i as int].v());
@at after 1
  assert(result@ =~= x);
@fn PointsInParallelepipedGenerator::GeneratePoint(const vec_ZZ &) as pg_point_z heap
@requires gfull(hp, this, this.max_multipliers@.len() as int), multipliers@.len() == this.max_multipliers@.len()
@ensures hp == hp0, this == this0, ret@.len() == this.max_multipliers@.len(), isgen(hp, this, multipliers@, ret@)
@at ghost entry
  let ghost n = this.max_multipliers@.len(); let ghost kk = hp.listCone@[this.cone]; let ghost R = rowsR(hp, this.cone); let ghost F = rowsF(hp, this.cone); let ghost fns = nodes_lv(hp.listVector@, kk.facets); let ghost rns = nodes_lv(hp.listVector@, kk.rays); let ghost s = smuls(hp, this, multipliers@, n); let ghost hs = had(this.facet_scale_factors@, s);
  let ghost m0 = hp.listVector@; let ghost mut x = s;
  proof { nodes_len(m0, kk.facets); nodes_len(m0, kk.rays); rows_rdim(m0, kk.rays, n as int); rows_rdim(m0, kk.facets, n as int); got_lv(m0, kk.facets); got_lv(m0, kk.rays); full_dim(hp, this, n as int, 0); x = gen_for(hp, this, multipliers@, n); }
@invariant 0
  0 <= i <= n, hp == hp0, this == this0, facet == at(fns, i as int), ray == at(rns, i as int), accum(result@, R, hs, i as nat, n)
@loopdec 0 n - i
@at ghost begin 0
  let ghost r0 = result@;
  proof { walk_lv(m0, kk.facets, i as int); walk_lv(m0, kk.rays, i as int); assert(m0[fns[i as int]].first@.len() == n); assert(m0[rns[i as int]].first@.len() == n); full_dim(hp, this, n as int, i as int); }
@at end 0
  accum_step(r0, result@, R, this.facet_scale_factors@, s, scaled_fundamental_multiplier.v() * this.facet_scale_factors@[i as int].v(), i as int, n);
@at ghost before 1
  let ghost r1 = result@;
@invariant 1
  0 <= i <= n, hp == hp0, this == this0, result@.len() == n, forall|l: int| 0 <= l < i ==> #[trigger] result@[l] == x[l], forall|l: int| i <= l < n ==> #[trigger] result@[l] == r1[l]
@loopdec 1 n - i
@at begin 1
  assert(result@[i as int] == r1[i as int]); assert(r1[i as int].v() == dot(trn(R)[i as int]@, hs, n)); div_back(this.facet_divisor_common_multiple.v(), x[i as int].v());
@at after 1
  assert(result@ =~= x);
@rs
// ---- all multipliers are run through: ms[k] is the vector handed out as number k+1
pub open spec fn rank1(k: int, V: int) -> int { if k + 1 == V { 0 } else { k + 1 } }
pub open spec fn seen(ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat) -> bool { forall|k: int| 0 <= k < ms.len() ==> (#[trigger] ms[k]).len() == n && below(ms[k], u, n) && rnk(ms[k], u, n) == rank1(k, vol(u, n)) }
pub open spec fn allgen(h: Hp, g: PointsInParallelepipedGenerator, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>) -> bool { P.len() == ms.len() && forall|k: int| 0 <= k < ms.len() ==> isgen(h, g, zs(#[trigger] ms[k]), P[ms.len() - 1 - k]@) }
// exactly the points of the box, each once, as many as the index
pub open spec fn allpts(R: Seq<Vc<Z>>, F: Seq<Vc<Z>>, fd: Seq<Z>, beta: Seq<Z>, P: Seq<Vc<Z>>) -> bool {
    &&& P.len() == zabs(mdet(R)) && P.no_duplicates()
    &&& forall|i: int| 0 <= i < P.len() ==> inbox(F, fd, beta, #[trigger] P[i]@)
    &&& forall|x: Vc<Z>| #[trigger] inbox(F, fd, beta, x@) ==> P.contains(x)
}
pub open spec fn upb(u: Seq<i32>, S: Seq<Z>) -> bool { u.len() == S.len() && forall|i: int| 0 <= i < S.len() ==> #[trigger] u[i] + 1 == S[i].v() }
pub proof fn box_of(m: Seq<i32>, u: Seq<i32>, S: Seq<Z>) requires upb(u, S), m.len() == u.len(), below(m, u, u.len()) ensures mbox(zs(m), S)
{ assert forall|j: int| 0 <= j < S.len() implies 0 <= (#[trigger] zs(m)[j]).v() && zs(m)[j].v() < S[j].v() by { assert(0 <= m[j] && m[j] <= u[j]); assert(u[j] + 1 == S[j].v()); } }
pub proof fn distinct_mult(ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat, k: int, l: int) requires seen(ms, u, n), 0 <= k < ms.len(), 0 <= l < ms.len(), ms.len() <= vol(u, n), ms[k] == ms[l] ensures k == l { assert(rnk(ms[k], u, n) == rank1(k, vol(u, n))); assert(rnk(ms[l], u, n) == rank1(l, vol(u, n))); }
pub proof fn zs_inj(a: Seq<i32>, b: Seq<i32>) requires zs(a) == zs(b) ensures a == b { assert(zs(a).len() == a.len() && zs(b).len() == b.len()); assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(zs(a)[i].v() == a[i] as int); assert(zs(b)[i].v() == b[i] as int); } } }
pub proof fn run_through(h: Hp, g: PointsInParallelepipedGenerator, ms: Seq<Seq<i32>>, u: Seq<i32>, P: Seq<Vc<Z>>, n: nat)
    requires gfull(h, g, n as int), upb(u, g.max_multipliers@), seen(ms, u, n), ms.len() == vol(u, n), allgen(h, g, ms, P)
    ensures allpts(rowsR(h, g.cone), rowsF(h, g.cone), h.listCone@[g.cone].facet_divisors@, g.beta@, P)
{ let R = rowsR(h, g.cone); let F = rowsF(h, g.cone); let fd = h.listCone@[g.cone].facet_divisors@; let S = g.max_multipliers@; let W = g.B_inv@; let V = vol(u, n); let beta = g.beta@;
  index_mult(R, W, S); vol_prod(u, S, n);
  assert(P.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < P.len() && 0 <= j < P.len() && i != j implies P[i] != P[j] by { if P[i] == P[j] { let k = V - 1 - i; let l = V - 1 - j;
    assert(isgen(h, g, zs(ms[k]), P[V - 1 - k]@)); assert(isgen(h, g, zs(ms[l]), P[V - 1 - l]@)); box_of(ms[k], u, S); box_of(ms[l], u, S); one_mult(R, W, S, P[i]@, zs(ms[k]), zs(ms[l])); zs_inj(ms[k], ms[l]); distinct_mult(ms, u, n, k, l); } } }
  assert forall|i: int| 0 <= i < P.len() implies inbox(F, fd, beta, #[trigger] P[i]@) by { let k = V - 1 - i; assert(isgen(h, g, zs(ms[k]), P[V - 1 - k]@)); }
  assert forall|x: Vc<Z>| #[trigger] inbox(F, fd, beta, x@) implies P.contains(x) by {
    let m = has_mult(R, W, S, x@); let mi = Seq::new(n, |i: int| m[i].v() as i32);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] mi[i] && mi[i] <= u[i] && mi[i] == m[i].v() by { assert(0 <= m[i].v() && m[i].v() < S[i].v()); assert(u[i] + 1 == S[i].v()); }
    assert(zs(mi) =~= m); rnk_bound(mi, u, n); let r = rnk(mi, u, n); let k = if r == 0 { V - 1 } else { r - 1 };
    assert(rnk(ms[k], u, n) == rank1(k, V)); assert forall|i: int| 0 <= i < n implies ms[k][i] == mi[i] by { rnk_inj(ms[k], mi, u, n, i); } assert(ms[k] =~= mi);
    let y = P[V - 1 - k]; assert(isgen(h, g, zs(ms[k]), P[V - 1 - k]@)); one_point(R, F, fd, g.facet_scale_factors@, g.facet_divisor_common_multiple.v(), beta, W, m, x@, y@); assert(x == y) by { assert(x@ == y@); } assert(P[V - 1 - k] == x); } }
pub proof fn seen_push(ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat, m: Seq<i32>) requires seen(ms, u, n), m.len() == n, below(m, u, n), rnk(m, u, n) == rank1(ms.len() as int, vol(u, n)) ensures seen(ms.push(m), u, n) { let q = ms.push(m); assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).len() == n && below(q[k], u, n) && rnk(q[k], u, n) == rank1(k, vol(u, n)) by { if k < ms.len() { assert(q[k] == ms[k]); } } }
pub proof fn gen_push(h: Hp, g: PointsInParallelepipedGenerator, h2: Hp, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>, m: Seq<i32>, x: Vc<Z>) requires allgen(h, g, ms, P), isgen(h, g, zs(m), x@) ensures allgen(h, g, ms.push(m), seq![x] + P)
{ let q = ms.push(m); let Q = seq![x] + P; assert forall|k: int| 0 <= k < q.len() implies isgen(h, g, zs(#[trigger] q[k]), Q[q.len() - 1 - k]@) by { if k < ms.len() { assert(q[k] == ms[k]); assert(Q[q.len() - 1 - k] == P[ms.len() - 1 - k]); } else { assert(Q[0] == x); } } }
pub open spec fn vfloor(h: Hp, c: usize, beta: Seq<Z>) -> bool { flo(beta, rvr(h, c), rowsF(h, c)) }
pub proof fn pc_grow(h: Hp, h2: Hp, c: usize, n: int) requires pcone(h, c, n), h2 == (Hp { listVector: h2.listVector, ..h }), submap(h.listVector@, h2.listVector@) ensures pcone(h2, c, n), rowsR(h2, c) == rowsR(h, c), rowsF(h2, c) == rowsF(h, c)
{ hide(mdet); hide(paired); hide(square); hide(fdiv_ok); hide(rv_wf); let k = h.listCone@[c]; sub_rows(h.listVector@, h2.listVector@, k.rays); sub_rows(h.listVector@, h2.listVector@, k.facets); }
pub proof fn sub_rows(m: Map<usize, listVector>, m2: Map<usize, listVector>, p: usize) requires is_lv(m, p), submap(m, m2) ensures is_lv(m2, p), nodes_lv(m2, p) == nodes_lv(m, p), lset(m2, p) == lset(m, p), lrows(m2, p) == lrows(m, p)
{ lset_dom(m, p); assert forall|q: usize| #[trigger] m.restrict(lset(m, p)).dom().contains(q) implies m2.dom().contains(q) && m2[q] == m.restrict(lset(m, p))[q] by { assert(m.dom().contains(q)); } frame_own(m, m2, p, lset(m, p)); }
pub proof fn cons_rows(m0: Map<usize, listVector>, m: Map<usize, listVector>, m2: Map<usize, listVector>, p: usize, x: usize, v: listVector) requires is_lv(m, p), x != 0, !m.dom().contains(x), v.rest == p, m2 =~= m.insert(x, v), submap(m0, m), lset(m, p).disjoint(m0.dom())
    ensures is_lv(m2, x), lrows(m2, x) =~= seq![v.first] + lrows(m, p), submap(m0, m2), lset(m2, x).disjoint(m0.dom())
{ get_lv(m, p); let ns = nodes_lv(m, p); let n2 = seq![x] + ns; lset_dom(m, p);
  assert(chain_lv(m2, x, n2)) by {
    assert forall|i: int| 0 <= i < n2.len() implies #[trigger] n2[i] != 0 && m2.dom().contains(n2[i]) && m2[n2[i]].rest == at(n2, i + 1) by { if i > 0 { assert(n2[i] == ns[i - 1]); assert(ns[i - 1] != 0); assert(m[ns[i - 1]].rest == at(ns, i)); } else { assert(at(n2, 1) == at(ns, 0)); } }
    assert(n2.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n2.len() && 0 <= j < n2.len() && i != j implies n2[i] != n2[j] by { if i > 0 { assert(n2[i] == ns[i - 1]); assert(ns[i - 1] != 0); assert(m.dom().contains(ns[i - 1])); } if j > 0 { assert(n2[j] == ns[j - 1]); assert(ns[j - 1] != 0); assert(m.dom().contains(ns[j - 1])); } } } }
  def_lv(m2, x, n2);
  assert forall|i: int| 0 <= i < n2.len() implies lrows(m2, x)[i] == (seq![v.first] + lrows(m, p))[i] by { if i > 0 { assert(n2[i] == ns[i - 1]); assert(ns[i - 1] != 0); assert(m.dom().contains(ns[i - 1])); } }
  assert forall|q: usize| #[trigger] m0.dom().contains(q) implies m2.dom().contains(q) && m2[q] == m0[q] && !lset(m2, x).contains(q) by { assert(m.dom().contains(q) && m[q] == m0[q]); if n2.contains(q) { let i = choose|i: int| 0 <= i < n2.len() && n2[i] == q; if i > 0 { assert(ns[i - 1] == q); assert(lset(m, p).contains(q)); } } } }
pub open spec fn pipst(h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, lp: usize, ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat) -> bool {
    &&& h == (Hp { listVector: h.listVector, ..h1 }) && submap(h1.listVector@, h.listVector@) && is_lv(h.listVector@, lp) && lset(h.listVector@, lp).disjoint(h1.listVector@.dom())
    &&& seen(ms, u, n) && allgen(h1, g, ms, lrows(h.listVector@, lp)) && ms.len() <= vol(u, n)
}
pub open spec fn cest(c: IntCombEnum, u: Seq<i32>, n: nat, k: int) -> bool { ce_wf(c) && c.upper_bound@ == u && c.len == n && cnt(c) == k }
pub proof fn ms_start(h1: Hp, g: PointsInParallelepipedGenerator, u: Seq<i32>, n: nat) requires ge0(u, n) ensures pipst(h1, h1, g, 0, Seq::<Seq<i32>>::empty(), u, n)
{ nil_lv(h1.listVector@); nodes_len(h1.listVector@, 0); vol_pos(u, n); sub_refl(h1.listVector@); }
pub proof fn ms_step(h1: Hp, h: Hp, h2: Hp, g: PointsInParallelepipedGenerator, lp: usize, x: usize, v: listVector, ms: Seq<Seq<i32>>, m: Seq<i32>, u: Seq<i32>, n: nat)
    requires pipst(h1, h, g, lp, ms, u, n), ms.len() < vol(u, n), m.len() == n, below(m, u, n), rnk(m, u, n) == rank1(ms.len() as int, vol(u, n)), isgen(h1, g, zs(m), v.first@), h2 == (Hp { listVector: h2.listVector, ..h }), x != 0, !h.listVector@.dom().contains(x), v.rest == lp, h2.listVector@ =~= h.listVector@.insert(x, v)
    ensures pipst(h1, h2, g, x, ms.push(m), u, n)
{ cons_rows(h1.listVector@, h.listVector@, h2.listVector@, lp, x, v); seen_push(ms, u, n, m); gen_push(h1, g, h2, ms, lrows(h.listVector@, lp), m, v.first); }
pub proof fn gf_grow(h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, n: int, m: Seq<Z>, x: Seq<Z>) requires gfull(h1, g, n), h == (Hp { listVector: h.listVector, ..h1 }), submap(h1.listVector@, h.listVector@) ensures gfull(h, g, n), isgen(h, g, m, x) == isgen(h1, g, m, x) { hide(genok); hide(gdims); pc_grow(h1, h, g.cone, n); }
pub proof fn smith_ge(R: Seq<Vc<Z>>, W: Seq<Vc<Z>>, S: Seq<Z>) requires smithy(R, W, S) ensures forall|i: int| 0 <= i < S.len() ==> (#[trigger] S[i]).v() >= 1, S.len() == R.len() { let (B, C, K) = choose|B: Seq<Vc<Z>>, C: Seq<Vc<Z>>, K: Seq<Vc<Z>>| #[trigger] wit(R, W, S, B, C, K); }
pub open spec fn ptsof(h: Hp, c: usize, beta: Seq<Z>, P: Seq<Vc<Z>>) -> bool { vfloor(h, c, beta) && allpts(rowsR(h, c), rowsF(h, c), h.listCone@[c].facet_divisors@, beta, P) }
@fn pointsInParallelepiped(listCone *, int, BarvinokParameters *) as pip heap
@requires pcone(hp, cone, numOfVars as int)
@ensures hp == (Hp { rationalVector: hp.rationalVector, listVector: hp.listVector, ..(hp0) }), submap(hp0.listVector@, hp.listVector@), is_lv(hp.listVector@, ret), lset(hp.listVector@, ret).disjoint(hp0.listVector@.dom())
@ensures pcone(hp, cone, numOfVars as int), rowsR(hp, cone) == rowsR(hp0, cone), rowsF(hp, cone) == rowsF(hp0, cone), hp.rationalVector@ =~= hp0.rationalVector@.insert(rvp(hp0, cone), hp.rationalVector@[rvp(hp0, cone)]), hp.rationalVector@[rvp(hp0, cone)].enumerator == hp0.rationalVector@[rvp(hp0, cone)].enumerator, hp.rationalVector@[rvp(hp0, cone)].denominator == hp0.rationalVector@[rvp(hp0, cone)].denominator
@ensures exists|beta: Seq<Z>| #[trigger] ptsof(hp, cone, beta, lrows(hp.listVector@, ret))
@aborts true
@at ghost head
  hide(genok); hide(gdims); hide(pcone); hide(seen); hide(allgen); hide(isgen); hide(smul_i); hide(flo); hide(rv_wf); hide(gfull); hide(pipst); hide(below); hide(rnk); hide(vol);
@at ghost entry
  let ghost nn = numOfVars as nat; let ghost mut ms = Seq::<Seq<i32>>::empty(); let ghost mut gp = hp; let ghost mut lp0 = 0usize; let ghost mut x = 0usize;
  proof { reveal(pcone); }
@at ghost before 0
  let ghost h1 = hp; let ghost g = generator; let ghost u = iter_comb.upper_bound@;
  proof { pip_init(hp0, h1, g, cone, n@, u, nn); ms_start(h1, g, u, nn); ce_start(iter_comb, u, nn); }
@at after /let mut generator/
  gf_max(hp, generator, numOfVars as int);
@at after /let mut n: Vc/
  gf_n(n@, generator);
@invariant 0
  generator == g, cest(iter_comb, u, nn, ms.len() as int), pipst(h1, hp, g, lat_points, ms, u, nn)
@loopdec 0 vol(u, nn) - ms.len()
@loopens 0 ms.len() == vol(u, nn), pipst(h1, hp, g, lat_points, ms, u, nn)
@at begin 0
  gp = hp; lp0 = lat_points; pip_in(h1, hp, g, lat_points, ms, u, nn); gf_grow(h1, hp, g, nn as int, zs(next@), zs(next@));
@at call lv_append
  x = $ret;
@at end 0
  gf_grow(h1, gp, g, nn as int, zs(next@), trans_lat_pt@);
  ms_step(h1, gp, hp, g, lp0, x, listVector { first: trans_lat_pt, rest: lp0, index_hint: -1i32 }, ms, next@, u, nn); ms = ms.push(next@);
@at before /return lat_points/
  pip_fin(hp0, h1, hp, g, cone, lat_points, ms, u, nn);
@rs
pub proof fn ce_start(c: IntCombEnum, u: Seq<i32>, n: nat) requires n >= 1, ge0(u, n), u.len() == n, c.upper_bound@ == u, c.len == n, c.prev@.len() == n, c.next@.len() == n, c.cur_col == n - 1, forall|j: int| 0 <= j < n ==> #[trigger] c.prev@[j] == 0 ensures cest(c, u, n, 0) { rnk_zero(c.prev@, u, n); }
pub proof fn gf_max(h: Hp, g: PointsInParallelepipedGenerator, n: int) requires gfull(h, g, n) ensures 1 <= n < 0x7fff_fffe, g.max_multipliers@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] g.max_multipliers@[i]).v() >= 1 { smith_ge(rowsR(h, g.cone), g.B_inv@, g.max_multipliers@); }
pub proof fn gf_n(n: Seq<i32>, g: PointsInParallelepipedGenerator) requires n.len() == g.max_multipliers@.len(), forall|i: int| 0 <= i < n.len() ==> (#[trigger] g.max_multipliers@[i]).v() >= 1, forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == g.max_multipliers@[i].v() ensures forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] >= 1 { assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] >= 1 by { assert(g.max_multipliers@[i].v() >= 1); } }
pub proof fn pip_init(h0: Hp, h1: Hp, g: PointsInParallelepipedGenerator, c: usize, n: Seq<i32>, u: Seq<i32>, nn: nat)
    requires nn < 0x7fff_fffe, gfull(h1, g, nn as int), n.len() == g.max_multipliers@.len(), u == Seq::new(nn, |i: int| (n[i] - 1) as i32), forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == g.max_multipliers@[i].v()
    ensures upb(u, g.max_multipliers@), ge0(u, nn), g.max_multipliers@.len() == nn
{ smith_ge(rowsR(h1, g.cone), g.B_inv@, g.max_multipliers@); assert forall|i: int| 0 <= i < nn implies #[trigger] u[i] + 1 == g.max_multipliers@[i].v() && 0 <= u[i] by { assert(g.max_multipliers@[i].v() >= 1); assert(n[i] == g.max_multipliers@[i].v()); } }
pub proof fn pip_in(h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, lp: usize, ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat) requires pipst(h1, h, g, lp, ms, u, n) ensures ms.len() <= vol(u, n), h == (Hp { listVector: h.listVector, ..h1 }), submap(h1.listVector@, h.listVector@), is_lv(h.listVector@, lp) {}
pub proof fn pip_fin(h0: Hp, h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, c: usize, lp: usize, ms: Seq<Seq<i32>>, u: Seq<i32>, n: nat)
    requires pipst(h1, h, g, lp, ms, u, n), ms.len() == vol(u, n), gfull(h1, g, n as int), upb(u, g.max_multipliers@), g.cone == c, flo(g.beta@, rvr(h1, c), rowsF(h1, c)), rv_only(h0, h1, rvp(h0, c))
    ensures h == (Hp { rationalVector: h.rationalVector, listVector: h.listVector, ..h0 }), submap(h0.listVector@, h.listVector@), is_lv(h.listVector@, lp), lset(h.listVector@, lp).disjoint(h0.listVector@.dom()), ptsof(h, c, g.beta@, lrows(h.listVector@, lp)), pcone(h, c, n as int), rowsR(h, c) == rowsR(h1, c), rowsF(h, c) == rowsF(h1, c), h.rationalVector@ =~= h0.rationalVector@.insert(rvp(h0, c), h.rationalVector@[rvp(h0, c)]), h.rationalVector == h1.rationalVector
{ run_through(h1, g, ms, u, lrows(h.listVector@, lp), n); pc_grow(h1, h, c, n as int); }
@fn computePointsInParallelepiped(listCone *, int, BarvinokParameters *) as cpip heap
@requires pcone(hp, cone, numOfVars as int)
@ensures pcone(hp, cone, numOfVars as int), rowsR(hp, cone) == rowsR(hp0, cone), rowsF(hp, cone) == rowsF(hp0, cone), hp.listCone@ == hp0.listCone@.insert(cone, listCone { latticePoints: hp.listCone@[cone].latticePoints, ..(hp0).listCone@[cone] }), submap(hp0.listVector@, hp.listVector@), is_lv(hp.listVector@, hp.listCone@[cone].latticePoints)
@ensures exists|beta: Seq<Z>| #[trigger] ptsof(hp, cone, beta, lrows(hp.listVector@, hp.listCone@[cone].latticePoints))
@aborts true
@at ghost entry
  let ghost mut h1 = hp;
@at call pip
  h1 = hp;
@at exit
  let b = choose|beta: Seq<Z>| #[trigger] ptsof(h1, cone, beta, lrows(h1.listVector@, hp.listCone@[cone].latticePoints)); assert(ptsof(hp, cone, b, lrows(hp.listVector@, hp.listCone@[cone].latticePoints))) by { set_pts(h1, hp, cone, b); }
@rs
pub proof fn set_pts(h1: Hp, h: Hp, c: usize, b: Seq<Z>) requires h == (Hp { listCone: h.listCone, ..h1 }), h.listCone@ == h1.listCone@.insert(c, listCone { latticePoints: h.listCone@[c].latticePoints, ..h1.listCone@[c] }), pcone(h1, c, rowsR(h1, c).len() as int) ensures rowsR(h, c) == rowsR(h1, c), rowsF(h, c) == rowsF(h1, c), rvr(h, c) == rvr(h1, c), rvp(h, c) == rvp(h1, c), pcone(h, c, rowsR(h1, c).len() as int), forall|n: int| pcone(h1, c, n) ==> #[trigger] pcone(h, c, n), forall|P: Seq<Vc<Z>>| ptsof(h1, c, b, P) ==> #[trigger] ptsof(h, c, b, P) {}
@fn PointsScalarProductsGenerator::PointsScalarProductsGenerator(const listCone *, int, const vec_ZZ &, BarvinokParameters *) as psp_new heap
@requires pcone(hp, a_cone, numOfVars as int), a_generic_vector@.len() == numOfVars
@ensures rv_only(hp0, hp, rvp(hp0, a_cone)), ret.cone == a_cone, gfull(hp, ret, numOfVars as int), flo(ret.beta@, rvr(hp, a_cone), rowsF(hp, a_cone)), rowsR(hp, a_cone) == rowsR(hp0, a_cone), rowsF(hp, a_cone) == rowsF(hp0, a_cone)
@ensures hp.rationalVector@[rvp(hp0, a_cone)].enumerator == hp0.rationalVector@[rvp(hp0, a_cone)].enumerator, hp.rationalVector@[rvp(hp0, a_cone)].denominator == hp0.rationalVector@[rvp(hp0, a_cone)].denominator
@ensures ret.generic_vector == a_generic_vector, srp_ok(hp, ret, numOfVars as int)
@at ghost head
  hide(genok); hide(gdims); hide(pcone); hide(rv_wf); hide(gfull); hide(flo);
@at ghost entry
  let ghost n = numOfVars as nat; let ghost mut g = this; let ghost mut gb = this;
@at call pg_new
  gb = $ret; gf_max(hp, gb, n as int); gf_walk(hp, gb, n as int); full_dim(hp, gb, n as int, 0);
@at ghost before 0
  let ghost rns = nodes_lv(hp.listVector@, hp.listCone@[a_cone].rays); let ghost m0 = hp.listVector@; let ghost h1 = hp;
  proof { g = this; gf_same(hp, gb, g, n as int); }
@invariant 0
  0 <= i <= n, hp == h1, ray == at(rns, i as int), this == (PointsInParallelepipedGenerator { scaled_ray_scalar_products: this.scaled_ray_scalar_products, ..g }), this.scaled_ray_scalar_products@.len() == n, forall|q: int| 0 <= q < i ==> (#[trigger] this.scaled_ray_scalar_products@[q]).v() == g.facet_scale_factors@[q].v() * dot(g.generic_vector@, rowsR(h1, a_cone)[q]@, n)
@loopdec 0 n - i
@at begin 0
  gf_ray(hp, g, n as int, i as int);
@at exit
  gf_same(hp, g, this, n as int);
@rs
pub open spec fn srp_ok(h: Hp, g: PointsInParallelepipedGenerator, n: int) -> bool { g.generic_vector@.len() == n && g.scaled_ray_scalar_products@.len() == n && forall|q: int| 0 <= q < n ==> (#[trigger] g.scaled_ray_scalar_products@[q]).v() == g.facet_scale_factors@[q].v() * dot(g.generic_vector@, rowsR(h, g.cone)[q]@, n as nat) }
pub proof fn gf_same(h: Hp, g: PointsInParallelepipedGenerator, g2: PointsInParallelepipedGenerator, n: int) requires gfull(h, g, n), g2 == (PointsInParallelepipedGenerator { generic_vector: g2.generic_vector, scaled_ray_scalar_products: g2.scaled_ray_scalar_products, ..g }) ensures gfull(h, g2, n) {}
pub proof fn gf_walk(h: Hp, g: PointsInParallelepipedGenerator, n: int) requires gfull(h, g, n) ensures h.listCone@.dom().contains(g.cone), nodes_lv(h.listVector@, h.listCone@[g.cone].rays).len() == n, nodes_lv(h.listVector@, h.listCone@[g.cone].facets).len() == n, h.listCone@[g.cone].rays == at(nodes_lv(h.listVector@, h.listCone@[g.cone].rays), 0), h.listCone@[g.cone].facets == at(nodes_lv(h.listVector@, h.listCone@[g.cone].facets), 0), rowsR(h, g.cone).len() == n, g.beta@.len() == n
{ let k = h.listCone@[g.cone]; let m = h.listVector@; nodes_len(m, k.rays); nodes_len(m, k.facets); got_lv(m, k.rays); got_lv(m, k.facets); full_dim(h, g, n, 0); }
pub proof fn gf_ray(h: Hp, g: PointsInParallelepipedGenerator, n: int, i: int) requires gfull(h, g, n), 0 <= i < n
    ensures ({ let k = h.listCone@[g.cone]; let m = h.listVector@; let rns = nodes_lv(m, k.rays); let fns = nodes_lv(m, k.facets); &&& rns.len() == n && fns.len() == n && at(rns, i) == rns[i] && at(fns, i) == fns[i] && m.dom().contains(rns[i]) && m.dom().contains(fns[i]) && m[rns[i]].rest == at(rns, i + 1) && m[fns[i]].rest == at(fns, i + 1) && m[rns[i]].first == rowsR(h, g.cone)[i] && m[fns[i]].first == rowsF(h, g.cone)[i] && m[rns[i]].first@.len() == n && m[fns[i]].first@.len() == n && rns[i] != 0 && fns[i] != 0 }), dimok(h, g, i, n)
{ let k = h.listCone@[g.cone]; let m = h.listVector@; nodes_len(m, k.facets); nodes_len(m, k.rays); rows_rdim(m, k.rays, n); rows_rdim(m, k.facets, n); got_lv(m, k.facets); got_lv(m, k.rays); full_dim(h, g, n, i); walk_lv(m, k.rays, i); walk_lv(m, k.facets, i); let rns = nodes_lv(m, k.rays); let fns = nodes_lv(m, k.facets); assert(m[fns[i]].first@.len() == n); assert(m[rns[i]].first@.len() == n); }
@fn PointsScalarProductsGenerator::GeneratePointScalarProduct(int *) as psp_gen heap
@requires gfull(hp, this, this.max_multipliers@.len() as int), multipliers@.len() == this.max_multipliers@.len(), srp_ok(hp, this, this.max_multipliers@.len() as int)
@ensures hp == hp0, this == this0, multipliers == multipliers0, exists|x: Seq<Z>| x.len() == multipliers@.len() && ret.v() == dot(this.generic_vector@, x, x.len()) && #[trigger] isgen(hp, this, zs(multipliers@), x)
@at ghost head
  hide(genok); hide(gdims); hide(pcone); hide(rv_wf); hide(gfull); hide(flo); hide(smul_i); hide(isgen); hide(srp_ok);
@at ghost entry
  let ghost n = this.max_multipliers@.len(); let ghost s = smuls(hp, this, zs(multipliers@), n); let ghost mut x = s; let ghost rns = nodes_lv(hp.listVector@, hp.listCone@[this.cone].rays); let ghost fns = nodes_lv(hp.listVector@, hp.listCone@[this.cone].facets);
  proof { gf_max(hp, this, n as int); gf_walk(hp, this, n as int); x = gen_for(hp, this, zs(multipliers@), n); }
@invariant 0
  0 <= i <= n, hp == hp0, this == this0, multipliers == multipliers0, dim == n, facet == at(fns, i as int), ray == at(rns, i as int), result.v() == dot(s, this.scaled_ray_scalar_products@, i as nat)
@loopdec 0 n - i
@at begin 0
  gf_ray(hp, this, n as int, i as int); srp_len(hp, this, n as int); dot_up(s, this.scaled_ray_scalar_products@, i as nat);
@at after 0
  sp_total(hp, this, s, x, n, result.v());
@rs
pub proof fn sp_total(h: Hp, g: PointsInParallelepipedGenerator, s: Seq<Z>, x: Seq<Z>, n: nat, r: int)
    requires gfull(h, g, n as int), srp_ok(h, g, n as int), s.len() == n, x.len() == n, r == dot(s, g.scaled_ray_scalar_products@, n), forall|l: int| 0 <= l < n ==> dot(#[trigger] trn(rowsR(h, g.cone))[l]@, had(g.facet_scale_factors@, s), n) == g.facet_divisor_common_multiple.v() * x[l].v()
    ensures fdiv(r, g.facet_divisor_common_multiple.v()) == dot(g.generic_vector@, x, n), frem(r, g.facet_divisor_common_multiple.v()) == 0, g.facet_divisor_common_multiple.v() > 0
{ let R = rowsR(h, g.cone); let fs = g.facet_scale_factors@; let hs = had(fs, s); let gv = g.generic_vector@; let D = g.facet_divisor_common_multiple.v(); let w = spw(R, hs, n, n);
  gf_walk(h, g, n as int); full_dim(h, g, n as int, 0); sp_gd(h, g, n as int); sp_swap(gv, R, hs, n, n); 
  assert forall|i: int| 0 <= i < n implies s[i].v() * (#[trigger] g.scaled_ray_scalar_products@[i]).v() == hs[i].v() * dot(gv, R[i]@, n) by { let a = s[i].v(); let b = fs[i].v(); let c = dot(gv, R[i]@, n); assert(a * (b * c) == (b * a) * c) by(nonlinear_arith); }
  sp_sum(s, g.scaled_ray_scalar_products@, hs, gv, R, n, n);
  assert forall|l: int| 0 <= l < n implies (#[trigger] w[l]).v() == D * x[l].v() by { assert(dot(trn(R)[l]@, hs, n) == D * x[l].v()); }
  sp_scale(gv, w, x, D, n); div_back(D, dot(gv, x, n)); }
pub proof fn srp_len(h: Hp, g: PointsInParallelepipedGenerator, n: int) requires srp_ok(h, g, n) ensures g.scaled_ray_scalar_products@.len() == n, g.generic_vector@.len() == n {}
pub proof fn dot_up(a: Seq<Z>, b: Seq<Z>, n: nat) ensures dot(a, b, (n + 1) as nat) == dot(a, b, n) + a[n as int].v() * b[n as int].v() {}
pub proof fn sp_gd(h: Hp, g: PointsInParallelepipedGenerator, n: int) requires gfull(h, g, n) ensures g.facet_divisor_common_multiple.v() > 0, square(rowsR(h, g.cone)) { reveal(square); }
pub open spec fn spw(R: Seq<Vc<Z>>, hs: Seq<Z>, k: nat, n: nat) -> Seq<Z> { Seq::new(n, |l: int| mkz(dot(trn(R)[l]@, hs, k))) }
pub open spec fn spr(hs: Seq<Z>, gv: Seq<Z>, R: Seq<Vc<Z>>, k: nat, n: nat) -> int decreases k { if k == 0 { 0 } else { spr(hs, gv, R, (k - 1) as nat, n) + hs[k - 1].v() * dot(gv, R[k - 1]@, n) } }
pub proof fn sp_sum(s: Seq<Z>, p: Seq<Z>, hs: Seq<Z>, gv: Seq<Z>, R: Seq<Vc<Z>>, k: nat, n: nat) requires k <= n, forall|i: int| 0 <= i < n ==> s[i].v() * (#[trigger] p[i]).v() == hs[i].v() * dot(gv, R[i]@, n) ensures dot(s, p, k) == spr(hs, gv, R, k, n) decreases k { if k > 0 { sp_sum(s, p, hs, gv, R, (k - 1) as nat, n); assert(s[k - 1].v() * p[k - 1].v() == hs[k - 1].v() * dot(gv, R[k - 1]@, n)); } }
pub proof fn sp_scale(gv: Seq<Z>, w: Seq<Z>, x: Seq<Z>, D: int, n: nat) requires forall|l: int| 0 <= l < n ==> (#[trigger] w[l]).v() == D * x[l].v() ensures dot(gv, w, n) == D * dot(gv, x, n) decreases n { if n > 0 { sp_scale(gv, w, x, D, (n - 1) as nat); let a = gv[n - 1].v(); let b = x[n - 1].v(); let d = dot(gv, x, (n - 1) as nat); assert(w[n - 1].v() == D * b); assert(D * d + a * (D * b) == D * (d + a * b)) by(nonlinear_arith); } else { assert(D * 0 == 0); } }
pub proof fn sp_zero(gv: Seq<Z>, w: Seq<Z>, n: nat) requires forall|l: int| 0 <= l < n ==> (#[trigger] w[l]).v() == 0 ensures dot(gv, w, n) == 0 decreases n { if n > 0 { sp_zero(gv, w, (n - 1) as nat); assert(w[n - 1].v() == 0); } }
pub proof fn sp_lin(gv: Seq<Z>, a: Seq<Z>, b: Seq<Z>, c: Seq<Z>, q: int, n: nat) requires forall|l: int| 0 <= l < n ==> (#[trigger] c[l]).v() == a[l].v() + q * b[l].v() ensures dot(gv, c, n) == dot(gv, a, n) + q * dot(gv, b, n) decreases n { if n > 0 { sp_lin(gv, a, b, c, q, (n - 1) as nat); let x = gv[n - 1].v(); let y = a[n - 1].v(); let z = b[n - 1].v(); let d = dot(gv, b, (n - 1) as nat); assert(c[n - 1].v() == y + q * z); assert(q * d + x * (y + q * z) == x * y + q * (d + x * z)) by(nonlinear_arith); } else { assert(q * 0 == 0); } }
pub proof fn sp_swap(gv: Seq<Z>, R: Seq<Vc<Z>>, hs: Seq<Z>, k: nat, n: nat) requires square(R), R.len() == n, k <= n ensures dot(gv, spw(R, hs, k, n), n) == spr(hs, gv, R, k, n) decreases k
{ if k == 0 { assert forall|l: int| 0 <= l < n implies (#[trigger] spw(R, hs, 0, n)[l]).v() == 0 by {} sp_zero(gv, spw(R, hs, 0, n), n); } else { let q = (k - 1) as nat; sp_swap(gv, R, hs, q, n); 
  assert forall|l: int| 0 <= l < n implies (#[trigger] spw(R, hs, k, n)[l]).v() == spw(R, hs, q, n)[l].v() + hs[q as int].v() * R[q as int]@[l].v() by { assert(trn(R)[l]@[q as int] == R[q as int]@[l]); let a = R[q as int]@[l].v(); let b = hs[q as int].v(); assert(a * b == b * a) by(nonlinear_arith); }
  sp_lin(gv, spw(R, hs, q, n), R[q as int]@, spw(R, hs, k, n), hs[q as int].v(), n); } }
@rs
// the state in which the scalar products of the points can be computed, and after they were
pub open spec fn clr(h: Hp, c: usize, n: int) -> bool { pcone(h, c, n) && is_lv(h.listVector@, h.listCone@[c].latticePoints) && (h.listCone@[c].latticePoints != 0 ==> lrows(h.listVector@, h.listCone@[c].latticePoints).len() == zabs(mdet(rowsR(h, c))) && rdim(h.listVector@, nodes_lv(h.listVector@, h.listCone@[c].latticePoints), n)) }
pub open spec fn spv(h: Hp, c: usize) -> Seq<Z> { h.listCone@[c].lattice_points_scalar_products@ }
pub open spec fn clo(h0: Hp, h: Hp, c: usize, gv: Seq<Z>, n: int) -> bool {
    &&& sp_same(h0, h, c) && rowsR(h, c) == rowsR(h0, c) && rowsF(h, c) == rowsF(h0, c) && pcone(h, c, n) && spv(h, c).len() <= i32::MAX
    &&& h0.listCone@[c].latticePoints != 0 ==> sps(spv(h, c), gv, lrows(h0.listVector@, h0.listCone@[c].latticePoints), n as nat)
    &&& h0.listCone@[c].latticePoints == 0 ==> exists|beta: Seq<Z>, P: Seq<Vc<Z>>| #[trigger] ptsof(h, c, beta, P) && spr_ok(spv(h, c), gv, P, n as nat)
}
pub proof fn clo_mk(h0: Hp, h: Hp, c: usize, gv: Seq<Z>, n: int)
    requires sp_same(h0, h, c), rowsR(h, c) == rowsR(h0, c), rowsF(h, c) == rowsF(h0, c), pcone(h, c, n), spv(h, c).len() <= i32::MAX, h0.listCone@[c].latticePoints != 0 ==> sps(spv(h, c), gv, lrows(h0.listVector@, h0.listCone@[c].latticePoints), n as nat),
        h0.listCone@[c].latticePoints == 0 ==> exists|beta: Seq<Z>, P: Seq<Vc<Z>>| #[trigger] ptsof(h, c, beta, P) && spr_ok(spv(h, c), gv, P, n as nat)
    ensures clo(h0, h, c, gv, n) {}
pub proof fn clo_pre(h0: Hp, h: Hp, c: usize, gv: Seq<Z>, n: int) requires clr(h0, c, n), clo(h0, h, c, gv, n) ensures clr(h, c, n) {}
pub proof fn clo_trans(h0: Hp, h1: Hp, h: Hp, c: usize, gv: Seq<Z>, n: int) requires clo(h0, h1, c, gv, n), clo(h1, h, c, gv, n) ensures clo(h0, h, c, gv, n)
{
    assert(rvp(h1, c) == rvp(h0, c));
    assert(h.rationalVector@ =~= h0.rationalVector@.insert(rvp(h0, c), h.rationalVector@[rvp(h0, c)]));
    assert(h.listCone@ =~= h0.listCone@.insert(c, listCone { lattice_points_scalar_products: h.listCone@[c].lattice_points_scalar_products, ..h0.listCone@[c] }));
}
pub proof fn clo_get(h0: Hp, h: Hp, c: usize, gv: Seq<Z>, n: int) requires clo(h0, h, c, gv, n) ensures h.listCone@.dom().contains(c), spv(h, c).len() <= i32::MAX, rowsR(h, c) == rowsR(h0, c), h.listCone@[c].coefficient == h0.listCone@[c].coefficient, 1 <= n < 0x7fff_fffe {}
pub proof fn clr_get(h: Hp, c: usize, n: int) requires clr(h, c, n) ensures h.listCone@.dom().contains(c), is_lv(h.listVector@, h.listCone@[c].rays), rowsR(h, c).len() == n, rdim(h.listVector@, nodes_lv(h.listVector@, h.listCone@[c].rays), n), 1 <= n < 0x7fff_fffe
{ let ns = nodes_lv(h.listVector@, h.listCone@[c].rays); assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] h.listVector@[ns[i]]).first@.len() == n by { assert(rowsR(h, c)[i]@.len() == n); } }
@end
@fn computeLatticePointsScalarProducts(listCone *, int, const vec_ZZ &, BarvinokParameters *) as clsp heap
@requires clr(hp, cone, numOfVars as int), generic_vector@.len() == numOfVars
@ensures clo(hp0, hp, cone, generic_vector@, numOfVars as int)
@aborts true
@at ghost head
  hide(clo); hide(ptsof); hide(spr_ok); hide(genok); hide(gdims); hide(pcone); hide(seen); hide(allgen); hide(isgen); hide(smul_i); hide(flo); hide(rv_wf); hide(gfull); hide(below); hide(rnk); hide(vol); hide(srp_ok); hide(clst); hide(sp_cone);
@at ghost entry
  let ghost nn = numOfVars as nat; let ghost N = zabs(mdet(rowsR(hp, cone))); let ghost mut ms = Seq::<Seq<i32>>::empty(); let ghost mut P = Seq::<Vc<Z>>::empty(); let ghost mut gp = hp; let ghost mut g1 = hp; let ghost mut rr = mkz(0); let ghost gv = generic_vector@; let ghost lp = hp.listCone@[cone].latticePoints; let ghost lns = nodes_lv(hp.listVector@, lp); let ghost m0 = hp.listVector@;
  proof { reveal(zabs); pc_idx(hp, cone, nn as int); }
@at ghost after /ntl_setlength_z/
  let ghost hs = hp;
  proof { assert(sp_cone(hp0, hp, cone)) by { reveal(sp_cone); } sp_frame(hp0, hp, cone, nn as int); }
@at ghost before 0
  proof { nodes_len(m0, lp); got_lv(m0, lp); sp_refl(hs, cone); }
@invariant 0
  0 <= i <= N, N <= i32::MAX, lns.len() == N, hp.listVector == hs.listVector, point == at(lns, i as int), sp_cone(hs, hp, cone), hp.listCone@.dom().contains(cone), hp.listCone@[cone].lattice_points_scalar_products@.len() == N, (forall|q: int| 0 <= q < i ==> (#[trigger] hp.listCone@[cone].lattice_points_scalar_products@[q]).v() == dot(gv, lrows(m0, lp)[q]@, nn))
@loopdec 0 N - i
@at ghost begin 0
  let ghost hb = hp;
  proof { walk_lv(m0, lp, i as int); nodes_len(m0, lp); assert(m0[lns[i as int]].first@.len() == nn); }
@at end 0
  assert(sp_cone(hb, hp, cone)) by { reveal(sp_cone); } sp_trans(hs, hb, hp, cone);
@at after 0
  if i < lns.len() { walk_lv(m0, lp, i as int); } sp_trans(hp0, hs, hp, cone); sp_frame(hp0, hp, cone, nn as int); sp_done(hp0, hp0, hp, cone, nn as int); clo_mk(hp0, hp, cone, gv, nn as int);
@at call psp_new
  gf_max(hp, $ret, nn as int); gf_walk(hp, $ret, nn as int);
@at after /let mut n: Vc/
  gf_n(n@, generator);
@at ghost before 1
  let ghost h1 = hp; let ghost g = generator; let ghost u = iter_comb.upper_bound@;
  proof { pip_init(hp0, h1, g, cone, n@, u, nn); ce_start(iter_comb, u, nn); cls_start(h1, g, u, nn, gv, N); srp_len(h1, g, nn as int); }
@invariant 1
  generator == g, num_scalar == ms.len(), ms.len() <= N, N <= i32::MAX, vol(u, nn) == N, cest(iter_comb, u, nn, ms.len() as int), clst(h1, hp, g, gv, ms, P, u, nn), hp.listCone@.dom().contains(cone), hp.listCone@[cone].lattice_points_scalar_products@.len() == N
@loopdec 1 vol(u, nn) - ms.len()
@loopens 1 ms.len() == vol(u, nn), clst(h1, hp, g, gv, ms, P, u, nn), hp.listCone@[cone].lattice_points_scalar_products@.len() == N
@at begin 1
  gp = hp; cls_in(h1, hp, g, gv, ms, P, u, nn);
@at call psp_gen
  rr = $ret;
@at end 1
  let x = choose|x: Seq<Z>| x.len() == nn && rr.v() == dot(gv, x, x.len()) && #[trigger] isgen(gp, g, zs(next@), x); let y = Vc { g: Ghost(x) }; assert(y@ == x); assert(sp_cone(gp, hp, cone)) by { reveal(sp_cone); }
  cls_step(h1, gp, hp, g, gv, ms, P, next@, y, u, nn, rr); ms = ms.push(next@); P = seq![y] + P;
@at after 1
  cls_fin(hp0, hs, h1, hp, g, gv, ms, P, u, nn); clo_mk(hp0, hp, cone, gv, nn as int);
@rs
pub proof fn pc_idx(h: Hp, c: usize, n: int) requires pcone(h, c, n) ensures h.listCone@.dom().contains(c), h.listCone@[c].determinant.v() == mdet(rowsR(h, c)) {}
// h is h0 with only the scalar products of cone c changed
pub open spec fn sp_cone(h0: Hp, h: Hp, c: usize) -> bool { h == (Hp { listCone: h.listCone, ..h0 }) && h.listCone@ == h0.listCone@.insert(c, listCone { lattice_points_scalar_products: h.listCone@[c].lattice_points_scalar_products, ..h0.listCone@[c] }) }
pub proof fn sp_trans(a: Hp, b: Hp, h: Hp, c: usize) requires sp_cone(a, b, c), sp_cone(b, h, c) ensures sp_cone(a, h, c) { assert(h.listCone@ =~= a.listCone@.insert(c, listCone { lattice_points_scalar_products: h.listCone@[c].lattice_points_scalar_products, ..a.listCone@[c] })); }
pub proof fn sp_refl(a: Hp, c: usize) requires a.listCone@.dom().contains(c) ensures sp_cone(a, a, c) { assert(a.listCone@ =~= a.listCone@.insert(c, a.listCone@[c])); }
pub proof fn sp_frame(a: Hp, b: Hp, c: usize, n: int) requires sp_cone(a, b, c) ensures rowsR(b, c) == rowsR(a, c), rowsF(b, c) == rowsF(a, c), rvp(b, c) == rvp(a, c), rvr(b, c) == rvr(a, c), pcone(a, c, n) ==> pcone(b, c, n), b.listCone@[c].latticePoints == a.listCone@[c].latticePoints, b.listVector == a.listVector {}
pub proof fn sp_gen(a: Hp, b: Hp, g: PointsInParallelepipedGenerator, n: int) requires sp_cone(a, b, g.cone) ensures gfull(a, g, n) ==> gfull(b, g, n), srp_ok(a, g, n) ==> srp_ok(b, g, n), forall|m: Seq<Z>, x: Seq<Z>| #[trigger] isgen(b, g, m, x) == isgen(a, g, m, x), forall|P: Seq<Vc<Z>>, be: Seq<Z>| ptsof(a, g.cone, be, P) ==> #[trigger] ptsof(b, g.cone, be, P) { sp_frame(a, b, g.cone, n); }
pub open spec fn clst(h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, gv: Seq<Z>, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>, u: Seq<i32>, n: nat) -> bool {
    &&& sp_cone(h1, h, g.cone) && gfull(h1, g, n as int) && srp_ok(h1, g, n as int) && g.generic_vector@ == gv && upb(u, g.max_multipliers@) && ms.len() <= h.listCone@[g.cone].lattice_points_scalar_products@.len()
    &&& seen(ms, u, n) && allgen(h1, g, ms, P) && ms.len() <= vol(u, n) && forall|i: int| 0 <= i < ms.len() ==> (#[trigger] h.listCone@[g.cone].lattice_points_scalar_products@[i]).v() == dot(gv, P[ms.len() - 1 - i]@, n)
}
pub proof fn cls_start(h1: Hp, g: PointsInParallelepipedGenerator, u: Seq<i32>, n: nat, gv: Seq<Z>, N: int) requires ge0(u, n), gfull(h1, g, n as int), srp_ok(h1, g, n as int), g.generic_vector@ == gv, upb(u, g.max_multipliers@), N == zabs(mdet(rowsR(h1, g.cone))) ensures clst(h1, h1, g, gv, Seq::<Seq<i32>>::empty(), Seq::<Vc<Z>>::empty(), u, n), vol(u, n) == N, h1.listCone@.dom().contains(g.cone)
{ vol_pos(u, n); assert(h1.listCone@ =~= h1.listCone@.insert(g.cone, h1.listCone@[g.cone])) by { full_dim(h1, g, n as int, 0); } gf_max(h1, g, n as int); sp_gd(h1, g, n as int); index_mult(rowsR(h1, g.cone), g.B_inv@, g.max_multipliers@); vol_prod(u, g.max_multipliers@, n); }
pub proof fn cls_in(h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, gv: Seq<Z>, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>, u: Seq<i32>, n: nat) requires clst(h1, h, g, gv, ms, P, u, n) ensures gfull(h, g, n as int), srp_ok(h, g, n as int), g.max_multipliers@.len() == n, g.generic_vector@ == gv { sp_gen(h1, h, g, n as int); gf_max(h1, g, n as int); }
pub proof fn cls_step(h1: Hp, h: Hp, h2: Hp, g: PointsInParallelepipedGenerator, gv: Seq<Z>, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>, m: Seq<i32>, x: Vc<Z>, u: Seq<i32>, n: nat, r: Z)
    requires clst(h1, h, g, gv, ms, P, u, n), ms.len() < vol(u, n), m.len() == n, below(m, u, n), rnk(m, u, n) == rank1(ms.len() as int, vol(u, n)), isgen(h, g, zs(m), x@), x@.len() == n, r.v() == dot(gv, x@, n), sp_cone(h, h2, g.cone), ms.len() < h.listCone@[g.cone].lattice_points_scalar_products@.len(), h2.listCone@[g.cone].lattice_points_scalar_products@ == h.listCone@[g.cone].lattice_points_scalar_products@.update(ms.len() as int, r)
    ensures clst(h1, h2, g, gv, ms.push(m), seq![x] + P, u, n)
{ sp_gen(h1, h, g, n as int); sp_trans(h1, h, h2, g.cone); seen_push(ms, u, n, m); gen_push(h1, g, h2, ms, P, m, x); let Q = seq![x] + P; let q = ms.push(m); let a = h.listCone@[g.cone].lattice_points_scalar_products@; let b = h2.listCone@[g.cone].lattice_points_scalar_products@;
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] b[i]).v() == dot(gv, Q[q.len() - 1 - i]@, n) by { if i < ms.len() { assert(b[i] == a[i]); assert(Q[q.len() - 1 - i] == P[ms.len() - 1 - i]); } else { assert(Q[0] == x); } } }
pub proof fn cls_fin(h0: Hp, hs: Hp, h1: Hp, h: Hp, g: PointsInParallelepipedGenerator, gv: Seq<Z>, ms: Seq<Seq<i32>>, P: Seq<Vc<Z>>, u: Seq<i32>, n: nat)
    requires clst(h1, h, g, gv, ms, P, u, n), ms.len() == vol(u, n), pcone(h0, g.cone, n as int), sp_cone(h0, hs, g.cone), rv_only(hs, h1, rvp(h0, g.cone)), flo(g.beta@, rvr(h1, g.cone), rowsF(h1, g.cone)), h.listCone@[g.cone].lattice_points_scalar_products@.len() == vol(u, n), rowsR(h1, g.cone) == rowsR(h0, g.cone), rowsF(h1, g.cone) == rowsF(h0, g.cone)
    ensures ptsof(h, g.cone, g.beta@, P) && spr_ok(h.listCone@[g.cone].lattice_points_scalar_products@, gv, P, n), rowsR(h, g.cone) == rowsR(h0, g.cone), rowsF(h, g.cone) == rowsF(h0, g.cone), pcone(h, g.cone, n as int), h == (Hp { rationalVector: h1.rationalVector, listCone: h.listCone, ..h0 }), h1.rationalVector@ =~= h0.rationalVector@.insert(rvp(h0, g.cone), h1.rationalVector@[rvp(h0, g.cone)]), h.listCone@ == h0.listCone@.insert(g.cone, listCone { lattice_points_scalar_products: h.listCone@[g.cone].lattice_points_scalar_products, ..h0.listCone@[g.cone] })
{ let c = g.cone; run_through(h1, g, ms, u, P, n); sp_frame(h1, h, c, n as int); sp_frame(h0, hs, c, n as int); sp_gen(h1, h, g, n as int); assert(gfull(h1, g, n as int)); assert(pcone(h1, c, n as int)); assert(h1.listCone@ == hs.listCone@); assert(h.listCone@ =~= h0.listCone@.insert(c, listCone { lattice_points_scalar_products: h.listCone@[c].lattice_points_scalar_products, ..h0.listCone@[c] })); assert(allgen(h1, g, ms, P)); assert(ptsof(h1, c, g.beta@, P)); }
pub proof fn sp_done(h0: Hp, h1: Hp, h: Hp, c: usize, n: int) requires sp_cone(h1, h, c), h0 == h1, pcone(h0, c, n) ensures sp_same(h0, h, c) { assert(h.rationalVector@ =~= h0.rationalVector@.insert(rvp(h0, c), h.rationalVector@[rvp(h0, c)])); }
// the products of the points with the vector, in the order of the points / in the order of their enumeration
pub open spec fn sps(v: Seq<Z>, gv: Seq<Z>, P: Seq<Vc<Z>>, n: nat) -> bool { v.len() == P.len() && forall|i: int| 0 <= i < P.len() ==> (#[trigger] v[i]).v() == dot(gv, P[i]@, n) }
pub open spec fn spr_ok(v: Seq<Z>, gv: Seq<Z>, P: Seq<Vc<Z>>, n: nat) -> bool { v.len() == P.len() && forall|i: int| 0 <= i < P.len() ==> (#[trigger] v[i]).v() == dot(gv, P[P.len() - 1 - i]@, n) }
pub open spec fn sp_same(h0: Hp, h: Hp, c: usize) -> bool { h == (Hp { rationalVector: h.rationalVector, listCone: h.listCone, ..h0 }) && h.rationalVector@ =~= h0.rationalVector@.insert(rvp(h0, c), h.rationalVector@[rvp(h0, c)]) && h.rationalVector@[rvp(h0, c)].enumerator == h0.rationalVector@[rvp(h0, c)].enumerator && h.rationalVector@[rvp(h0, c)].denominator == h0.rationalVector@[rvp(h0, c)].denominator
    && h.listCone@ == h0.listCone@.insert(c, listCone { lattice_points_scalar_products: h.listCone@[c].lattice_points_scalar_products, ..h0.listCone@[c] }) }
@end
