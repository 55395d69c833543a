@source rational.cpp
@include rvec.vc proved
@include arith.vc
@ptr heap rationalVector
@rs
// reduced by the gcd: same value, coprime
pub proof fn red(n: int, d: int, g: int) requires is_gcd(g, n, d), d > 0 ensures g > 0, fdiv(d, g) > 0, coprime(fdiv(n, g), fdiv(d, g)), cross(fdiv(n, g), fdiv(d, g), n, d), g == 1 ==> coprime(n, d)
{ lemma_reduce(n, d, g); lemma_frac_one(g, n, d); }
pub open spec fn rv_canon_to(v: rationalVector, k: int) -> bool { forall|i: int| 0 <= i < k ==> coprime((#[trigger] v.enumerator@[i]).v(), v.denominator@[i].v()) }
pub open spec fn rv_only(h0: Hp, h: Hp, p: usize) -> bool { h.rationalVector@ =~= h0.rationalVector@.insert(p, h.rationalVector@[p]) && h == (Hp { rationalVector: h.rationalVector, ..h0 }) }
@fn createRationalVector(int) as rv_create heap
@requires numOfVars >= 0
@ensures ret != 0, !hp0.rationalVector@.dom().contains(ret), rv_only(hp0, hp, ret), rv_wf(hp.rationalVector@[ret]), hp.rationalVector@[ret].enumerator@.len() == numOfVars
@ensures forall|i: int| 0 <= i < numOfVars ==> (#[trigger] hp.rationalVector@[ret].enumerator@[i]).v() == 0, forall|i: int| 0 <= i < numOfVars ==> (#[trigger] hp.rationalVector@[ret].denominator@[i]).v() == 1
@fn copyRationalVector(const rationalVector *) as rv_copy heap
@requires hp.rationalVector@.dom().contains(v)
@ensures ret != 0, !hp0.rationalVector@.dom().contains(ret), rv_only(hp0, hp, ret), hp.rationalVector@[ret] == hp0.rationalVector@[v]
@fn scaleRationalVectorToInteger(rationalVector *, int, ZZ &) as rv_scale heap
@requires hp.rationalVector@.dom().contains(vec), rv_wf(hp.rationalVector@[vec]), numOfVars == hp.rationalVector@[vec].enumerator@.len()
@ensures rv_only(hp0, hp, vec), rv_wf(hp.rationalVector@[vec]), hp.rationalVector@[vec].enumerator == hp0.rationalVector@[vec].enumerator, hp.rationalVector@[vec].denominator == hp0.rationalVector@[vec].denominator
@ensures hp.rationalVector@[vec].computed_integer_scale, scaled_by(ret@, scale_factor.v(), hp.rationalVector@[vec]), ret@ == hp.rationalVector@[vec].integer_scale@, scale_factor.v() == hp.rationalVector@[vec].integer_scale_factor.v(), hp0.rationalVector@[vec].computed_integer_scale ==> hp == hp0
@rs
pub open spec fn canon_st(v0: rationalVector, v: rationalVector, i: int) -> bool {
    &&& rv_wf(v) && rv_same(v, v0) && rv_canon_to(v, i)
    &&& forall|k: int| i <= k < v.enumerator@.len() ==> #[trigger] v.enumerator@[k] == v0.enumerator@[k]
    &&& forall|k: int| i <= k < v.enumerator@.len() ==> #[trigger] v.denominator@[k] == v0.denominator@[k]
}
pub proof fn red_all(n: int, d: int) requires d > 0 ensures forall|g: int| #![trigger is_gcd(g, n, d)] is_gcd(g, n, d) ==> g > 0 && fdiv(d, g) > 0 && coprime(fdiv(n, g), fdiv(d, g)) && cross(fdiv(n, g), fdiv(d, g), n, d) && (g == 1 ==> coprime(n, d))
{ hide(is_gcd); assert forall|g: int| #![trigger is_gcd(g, n, d)] is_gcd(g, n, d) implies g > 0 && fdiv(d, g) > 0 && coprime(fdiv(n, g), fdiv(d, g)) && cross(fdiv(n, g), fdiv(d, g), n, d) && (g == 1 ==> coprime(n, d)) by { red(n, d, g); } }
@fn canonicalizeRationalVector(rationalVector *, int) as rv_canonicalize heap
@requires hp.rationalVector@.dom().contains(vec), rv_wf(hp.rationalVector@[vec]), numOfVars == hp.rationalVector@[vec].enumerator@.len()
@ensures rv_only(hp0, hp, vec), rv_wf(hp.rationalVector@[vec]), hp.rationalVector@[vec].computed_integer_scale, rv_same(hp.rationalVector@[vec], hp0.rationalVector@[vec]), rv_canon_to(hp.rationalVector@[vec], numOfVars as int)
@invariant 0
  0 <= i <= numOfVars, rv_only(hp0, hp, vec), numOfVars == hp.rationalVector@[vec].enumerator@.len(), canon_st(hp0.rationalVector@[vec], hp.rationalVector@[vec], i as int)
@loopdec 0 numOfVars - i
@at ghost begin 0
  let ghost v1 = hp.rationalVector@[vec];
  proof { red_all(v1.enumerator@[i as int].v(), v1.denominator@[i as int].v()); }
@rs
pub open spec fn valsc(n: int, d: int, n0: int, d0: int, c: int) -> bool { n * d0 == c * (n0 * d) }
pub proof fn vs_step(n: int, d: int, n0: int, d0: int, c: int, e: int, g: int)
    requires valsc(n, d, n0, d0, c), e > 0, d > 0, is_gcd(g, e, d)
    ensures g > 0, fdiv(d, g) > 0, valsc(n * fdiv(e, g), fdiv(d, g), n0, d0, c * e), d == 1 ==> fdiv(d, g) == 1, d == e ==> fdiv(d, g) == 1
{
    let k = choose|k: int| #[trigger] (g * k) == e; let l = choose|l: int| #[trigger] (g * l) == d;
    assert(g > 0) by(nonlinear_arith) requires g >= 0, g * l == d, d > 0;
    ediv(e, g); ediv(d, g); let p = fdiv(e, g); let q = fdiv(d, g);
    assert(q > 0) by(nonlinear_arith) requires g * q == d, d > 0, g > 0;
    vs_ring(n, d, n0, d0, c, e, g, p, q);
    ring_cancel(g, (n * p) * d0, (c * e) * (n0 * q));
    if d == 1 { assert(q == 1) by(nonlinear_arith) requires g * q == 1, g > 0, q > 0; }
    if d == e { let (s, t) = choose|s: int, t: int| #[trigger] (s * e) + #[trigger] (t * d) == g;
      assert(d * (s + t) == g) by(nonlinear_arith) requires s * e + t * d == g, d == e;
      assert(g >= d) by(nonlinear_arith) requires d * (s + t) == g, g > 0, d > 0;
      assert(q == 1) by(nonlinear_arith) requires g * q == d, g > 0, g >= d, d > 0, q > 0; }
}
@ring vs_ring(n, d, n0, d0, c, e, g, p, q)
hyp e : n*d0 == c*(n0*d)
hyp n*d0 : g*p == e
hyp -1*c*n0*e : g*q == d
concl g*((n*p)*d0) == g*((c*e)*(n0*q))
@rs
pub open spec fn norm_st(v0: rationalVector, v: rationalVector, n: int, i: int, j: int, c: int, d: int) -> bool {
    &&& rv_dims(v) && v.enumerator@.len() == n && c > 0 && d > 0
    &&& forall|k: int| 0 <= k < n ==> valsc(#[trigger] v.enumerator@[k].v(), v.denominator@[k].v(), v0.enumerator@[k].v(), v0.denominator@[k].v(), if k < j { c * d } else { c })
    &&& forall|k: int| 0 <= k < i ==> (#[trigger] v.denominator@[k]).v() == 1
}
@fn normalizeRationalVector(rationalVector *, int) as rv_norm heap
@requires hp.rationalVector@.dom().contains(z), rv_dims(hp.rationalVector@[z]), numOfVars == hp.rationalVector@[z].enumerator@.len()
@ensures ret == z, rv_only(hp0, hp, z), rv_dims(hp.rationalVector@[z]), rv_wf(hp0.rationalVector@[z]) ==> rv_wf(hp.rationalVector@[z])
@ensures exists|c: int| norm_st(hp0.rationalVector@[z], hp.rationalVector@[z], numOfVars as int, numOfVars as int, 0, c, 1)
@at ghost entry
  let ghost v0 = hp.rationalVector@[z]; let ghost mut c = 1int;
@invariant 0
  0 <= i <= numOfVars, rv_only(hp0, hp, z), norm_st(v0, hp.rationalVector@[z], numOfVars as int, i as int, 0, c, 1), rv_wf(v0) ==> rv_wf(hp.rationalVector@[z])
@loopdec 0 numOfVars - i
@invariant 1
  0 <= j <= numOfVars, rv_only(hp0, hp, z), norm_st(v0, hp.rationalVector@[z], numOfVars as int, i as int, j as int, c, d.v()), rv_wf(v0) ==> rv_wf(hp.rationalVector@[z]), i < j ==> hp.rationalVector@[z].denominator@[i as int].v() == 1, j <= i ==> hp.rationalVector@[z].denominator@[i as int].v() == d.v()
@loopdec 1 numOfVars - j
@at ghost begin 1
  let ghost v1 = hp.rationalVector@[z];
@at after /g = zz_gcd/
  vs_step(v1.enumerator@[j as int].v(), v1.denominator@[j as int].v(), v0.enumerator@[j as int].v(), v0.denominator@[j as int].v(), c, d.v(), g.v());
@at after 1
  assert(c * d.v() > 0) by(nonlinear_arith) requires c > 0, d.v() > 0; c = c * d.v();
@rs
// entry i of w - v, over the product of the denominators
pub open spec fn dnum(v: rationalVector, w: rationalVector, i: int) -> int { w.enumerator@[i].v() * v.denominator@[i].v() - v.enumerator@[i].v() * w.denominator@[i].v() }
pub open spec fn dden(v: rationalVector, w: rationalVector, i: int) -> int { w.denominator@[i].v() * v.denominator@[i].v() }
pub open spec fn raywise(v: rationalVector, w: rationalVector, r: int, i: int, p: int, q: int) -> bool { q * (r * dden(v, w, i)) == p * dnum(v, w, i) }
// r is (p/q) (w - v)
pub open spec fn ray_of(v: rationalVector, w: rationalVector, r: Seq<Z>, n: int, p: int, q: int) -> bool { r.len() == n && p > 0 && q > 0 && forall|i: int| 0 <= i < n ==> raywise(v, w, #[trigger] r[i].v(), i, p, q) }
@ring cr_ring(wi, vi, wf, vf, ws, vs, wn, wd, vn, vd, L)
hyp wf*vd : wi*wd == wn*ws
hyp -1*vf*wd : vi*vd == vn*vs
hyp wn*vd : ws*wf == L
hyp -1*vn*wd : vs*vf == L
concl 1*((wf*wi-vf*vi)*(wd*vd)) == L*(wn*vd-vn*wd)
@ring ck_ring(g, r, x, d, p, e)
hyp d : g*x == r
hyp 1 : 1*(r*d) == p*e
concl g*(x*d) == p*e
@rs
pub proof fn fpos(l: int, s: int) requires l > 0, s > 0, dvd(s, l) ensures s * fdiv(l, s) == l, fdiv(l, s) > 0
{ ediv(l, s); let f = fdiv(l, s); assert(f > 0) by(nonlinear_arith) requires s * f == l, l > 0, s > 0; }
pub proof fn gdv(r0: Seq<Z>, g: int, n: nat, i: int) requires gcdof(g, r0, n), 0 <= i < n, g > 0 ensures g * fdiv(r0[i].v(), g) == r0[i].v() { assert(dvd(g, r0[i].v())); ediv(r0[i].v(), g); }
pub proof fn gpos(v: rationalVector, w: rationalVector, r: Seq<Z>, n: int, p: int, g: int, i: int)
    requires ray_of(v, w, r, n, p, 1), gcdof(g, r, n as nat), 0 <= i < n, dnum(v, w, i) != 0 ensures g != 0
{
    if g == 0 {
        assert(dvd(g, r[i].v())); let k = choose|k: int| #[trigger] (g * k) == r[i].v(); assert(r[i].v() == 0) by(nonlinear_arith) requires g * k == r[i].v(), g == 0;
        assert(raywise(v, w, r[i].v(), i, p, 1)); let x = r[i].v() * dden(v, w, i); assert(x == 0) by(nonlinear_arith) requires x == r[i].v() * dden(v, w, i), r[i].v() == 0;
        lemma_nz(p, dnum(v, w, i));
    }
}
pub proof fn gcd_first(a: Seq<Z>) ensures gcdof(zabs(a[0].v()), a, 1)
{ let x = a[0].v(); let g = zabs(x); let s = if x < 0 { -1int } else { 1int }; let c = Seq::new(1, |k: int| s); lemma_mul_small(s, x); assert(icomb(c, a, 0) == 0); assert(icomb(c, a, 1) == icomb(c, a, 0) + c[0] * a[0].v()); assert(icomb(c, a, 1) == g); assert(c.len() == 1nat);
  lemma_mul_small(g, s); assert forall|k: int| 0 <= k < 1 implies dvd(g, (#[trigger] a[k]).v()) by { assert(k == 0); assert(g * s == a[k].v()); } }
pub proof fn gcd_sgn(g2: int, g: int, x: int) requires is_gcd(g2, g, x) ensures is_gcd(g2, zabs(g), x), zabs(g2) == g2
{ if g < 0 {
    let k = choose|k: int| #[trigger] (g2 * k) == g; assert(g2 * (-k) == -g) by(nonlinear_arith) requires g2 * k == g;
    let (s, t) = choose|s: int, t: int| #[trigger] (s * g) + #[trigger] (t * x) == g2; assert((-s) * (-g) == s * g) by(nonlinear_arith); assert((-s) * (-g) + t * x == g2); } }
pub proof fn gcd_same(g: int, a: Seq<Z>, b: Seq<Z>, n: nat) requires g == 1, gcdof(g, a, n) ensures primitive(a, n) {}
@fn constructRay(rationalVector *, rationalVector *, int) as rv_ray heap
@requires hp.rationalVector@.dom().contains(v), rv_wf(hp.rationalVector@[v]), numOfVars == hp.rationalVector@[v].enumerator@.len()
@requires hp.rationalVector@.dom().contains(w), rv_wf(hp.rationalVector@[w]), numOfVars == hp.rationalVector@[w].enumerator@.len()
@requires exists|i: int| 0 <= i < numOfVars && #[trigger] dnum(hp.rationalVector@[v], hp.rationalVector@[w], i) != 0
@ensures hp == (Hp { rationalVector: hp.rationalVector, ..(hp0) }), hp.rationalVector@.dom() =~= hp0.rationalVector@.dom(), forall|x: usize| hp0.rationalVector@.dom().contains(x) && x != v && x != w ==> hp.rationalVector@[x] == hp0.rationalVector@[x]
@ensures rv_wf(hp.rationalVector@[v]), rv_wf(hp.rationalVector@[w])
@ensures exists|p: int, q: int| ray_of(hp0.rationalVector@[v], hp0.rationalVector@[w], ret@, numOfVars as int, p, q), primitive(ret@, numOfVars as nat)
@at ghost entry
  let ghost V = hp.rationalVector@[v]; let ghost W = hp.rationalVector@[w]; let ghost mut L = 0int; let ghost mut r0 = Seq::<Z>::empty(); let ghost mut gg = 0int; let ghost n = numOfVars as nat;
@at before 0
  L = common_scale.v(); fpos(L, v_scale.v()); fpos(L, w_scale.v());
@invariant 0
  0 <= i <= numOfVars, result@.len() == numOfVars, forall|k: int| 0 <= k < i ==> raywise(V, W, #[trigger] result@[k].v(), k, L, 1)
@loopdec 0 numOfVars - i
@at end 0
  let k = i as int;
  assert(scaled_at(v_int@[k].v(), v_scale.v(), V.enumerator@[k].v(), V.denominator@[k].v()));
  assert(scaled_at(w_int@[k].v(), w_scale.v(), W.enumerator@[k].v(), W.denominator@[k].v()));
  cr_ring(w_int@[k].v(), v_int@[k].v(), w_factor.v(), v_factor.v(), w_scale.v(), v_scale.v(), W.enumerator@[k].v(), W.denominator@[k].v(), V.enumerator@[k].v(), V.denominator@[k].v(), L);
@at after 0
  r0 = result@; gcd_first(r0); assert(ray_of(V, W, r0, numOfVars as int, L, 1));
@invariant 1
  1 <= i <= numOfVars, result@ == r0, gcdof(zabs(g.v()), r0, i as nat)
@loopdec 1 numOfVars - i
@at ghost begin 1
  let ghost g1 = g.v();
@at end 1
  gcd_sgn(g.v(), g1, r0[i as int].v()); gcd_step(zabs(g1), g.v(), r0, i as nat);
@at after /g = zz_abs/
  let ix = choose|i: int| 0 <= i < numOfVars && #[trigger] dnum(V, W, i) != 0; gpos(V, W, r0, numOfVars as int, L, g.v(), ix);
@invariant 2
  0 <= i <= numOfVars, result@.len() == numOfVars, g.v() > 0, gcdof(g.v(), r0, n), r0.len() == n, forall|k: int| 0 <= k < i ==> #[trigger] r0[k].v() == g.v() * result@[k].v(), forall|k: int| i <= k < n ==> #[trigger] result@[k] == r0[k]
@loopdec 2 numOfVars - i
@at begin 2
  gdv(r0, g.v(), n, i as int);
@at exit
  if g.v() == 1 { gcd_same(1, r0, r0, n); } else { gcd_prim(g.v(), r0, result@, n); 
    assert forall|i: int| 0 <= i < n implies raywise(V, W, #[trigger] result@[i].v(), i, L, g.v()) by { assert(raywise(V, W, r0[i].v(), i, L, 1)); ck_ring(g.v(), r0[i].v(), result@[i].v(), dden(V, W, i), L, dnum(V, W, i)); } 
    assert(ray_of(V, W, result@, numOfVars as int, L, g.v())); }
@end
