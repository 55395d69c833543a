// Poles of a knapsack's generating function and their Moebius weights: top-knapsack/TopKnapsack.cpp
@include arith.vc
@source top-knapsack/TopKnapsack.cpp
@rs
pub open spec fn ssort(s: Seq<Z>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).v() < (#[trigger] s[b]).v() }
pub open spec fn zin(s: Seq<Z>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v() == x }
#[verifier::external_body]
pub fn vz_bsearch(v: Vc<Z>, x: Z) -> (r: bool) requires ssort(v@) ensures r == zin(v@, x.v()) { unimplemented!() }
// ---- binomial coefficients
pub open spec fn binc(n: nat, k: nat) -> int decreases n { if k == 0 { 1 } else if n == 0 { 0 } else { binc((n - 1) as nat, k) + binc((n - 1) as nat, (k - 1) as nat) } }
pub open spec fn fac(n: nat) -> int decreases n { if n == 0 { 1 } else { n * fac((n - 1) as nat) } }
// n (n-1) ... (n-k+1)
pub open spec fn ff(n: int, k: nat) -> int decreases k { if k == 0 { 1 } else { ff(n, (k - 1) as nat) * (n - (k - 1)) } }
pub proof fn fac_pos(n: nat) ensures fac(n) >= 1 decreases n { if n > 0 { fac_pos((n - 1) as nat); let f = fac((n - 1) as nat); assert(n * f >= 1) by(nonlinear_arith) requires n >= 1, f >= 1; } }
pub proof fn ff_top(n: int, k: nat) requires k >= 1 ensures ff(n, k) == n * ff(n - 1, (k - 1) as nat) decreases k
{ if k == 1 { assert(ff(n, 1) == ff(n, 0) * n); assert(ff(n, 0) == 1); assert(ff(n - 1, 0) == 1); } else { let j = (k - 1) as nat; ff_top(n, j); let x = ff(n - 1, (j - 1) as nat); let y = n - j; assert((n * x) * y == n * (x * y)) by(nonlinear_arith); assert(ff(n - 1, j) == x * (n - 1 - (j - 1))); } }
pub proof fn ff_binc(n: nat, k: nat) ensures ff(n as int, k) == binc(n, k) * fac(k) decreases n
{
    if k == 0 { }
    else if n == 0 { ff_top(0, k); let x = ff(-1, (k - 1) as nat); assert(0 * x == 0); assert(binc(0, k) == 0); let y = fac(k); assert(0 * y == 0); }
    else {
        let m = (n - 1) as nat; let j = (k - 1) as nat; ff_binc(m, k); ff_binc(m, j); ff_top(n as int, k);
        let a = binc(m, k); let b = binc(m, j); let f = fac(j); let p = ff(m as int, j);
        assert(ff(m as int, k) == p * (m - (k - 1)));
        assert(fac(k) == k * f);
        assert(n * p == (a + b) * (k * f)) by(nonlinear_arith) requires p * (m - (k - 1)) == a * (k * f), p == b * f, n == m + 1;
    }
}
pub proof fn binc_full(n: nat) ensures binc(n, n) == 1, binc(n, (n + 1) as nat) == 0 decreases n
{ binc_over(n, (n + 1) as nat); if n > 0 { binc_full((n - 1) as nat); binc_over((n - 1) as nat, n); } }
pub proof fn binc_over(n: nat, k: nat) requires k > n ensures binc(n, k) == 0 decreases n { if n > 0 { binc_over((n - 1) as nat, k); binc_over((n - 1) as nat, (k - 1) as nat); } }
pub proof fn binc_sym(n: nat, k: nat) requires k <= n ensures binc(n, k) == binc(n, (n - k) as nat) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; binc_full(n); binc_full(m);
        if 0 < k < n { binc_sym(m, k); binc_sym(m, (k - 1) as nat); assert((m - k) as nat == ((n - k) as nat - 1) as nat); assert((m - (k - 1)) as nat == (n - k) as nat); }
    }
}
pub proof fn quot(a: int, n: nat, k: nat) requires a == ff(n as int, k) ensures fdiv(a, fac(k)) == binc(n, k), fac(k) >= 1
{ ff_binc(n, k); fac_pos(k); let f = fac(k); let c = binc(n, k); assert((c * f) / f == c) by(nonlinear_arith) requires f >= 1; }
// ---- greatest common divisors of sublists
pub proof fn gcd_unique(g: int, h: int, a: int, b: int) requires is_gcd(g, a, b), is_gcd(h, a, b) ensures g == h { gcd_div(g, h, a, b); gcd_div(h, g, a, b); dvd_anti(g, h); }
pub proof fn gcd_div(g: int, h: int, a: int, b: int) requires is_gcd(g, a, b), is_gcd(h, a, b) ensures dvd(h, g)
{ let (s, t) = choose|s: int, t: int| #[trigger] (s * a) + #[trigger] (t * b) == g; let k = choose|k: int| #[trigger] (h * k) == a; let l = choose|l: int| #[trigger] (h * l) == b;
  assert(h * (s * k + t * l) == g) by(nonlinear_arith) requires s * a + t * b == g, h * k == a, h * l == b; }
pub proof fn dvd_anti(g: int, h: int) requires g >= 0, h >= 0, dvd(g, h), dvd(h, g) ensures g == h
{ let k = choose|k: int| #[trigger] (g * k) == h; let l = choose|l: int| #[trigger] (h * l) == g;
  if g == 0 { assert(0 * k == 0); } else if h == 0 { assert(0 * l == 0); } else {
    assert(k >= 1) by(nonlinear_arith) requires g * k == h, g > 0, h > 0; assert(l >= 1) by(nonlinear_arith) requires h * l == g, g > 0, h > 0;
    assert(h >= g) by(nonlinear_arith) requires g * k == h, k >= 1, g > 0; assert(g >= h) by(nonlinear_arith) requires h * l == g, l >= 1, h > 0; } }
pub proof fn gcd_self(h: int, a: int) requires h >= 0, dvd(h, a) ensures is_gcd(h, h, a) { assert(h * 1 == h); assert(1 * h + 0 * a == h); }
pub proof fn gcd_pos(g: int, a: int, b: int) requires is_gcd(g, a, b), b > 0 ensures 0 < g <= b, a > 0 ==> g <= a
{ dvd_le(g, b); if a > 0 { dvd_le(g, a); } }
pub proof fn dvd_le(g: int, b: int) requires g >= 0, b > 0, dvd(g, b) ensures 0 < g <= b
{ let l = choose|l: int| #[trigger] (g * l) == b; if g == 0 { assert(0 * l == 0); } assert(l >= 1) by(nonlinear_arith) requires g * l == b, g > 0, b > 0; assert(g <= b) by(nonlinear_arith) requires g * l == b, l >= 1, g > 0; }
// g is the greatest common divisor of a nonempty sublist of the first n entries
pub open spec fn reach(a: Seq<Z>, n: nat, g: int) -> bool decreases n { n > 0 && (reach(a, (n - 1) as nat, g) || g == a[n - 1].v() || exists|h: int| reach(a, (n - 1) as nat, h) && #[trigger] is_gcd(g, h, a[n - 1].v())) }
pub open spec fn allpos(a: Seq<Z>) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).v() > 0 }
pub proof fn reach_close(a: Seq<Z>, n: nat, x: int, g: int) requires n < a.len(), a[n as int].v() > 0, x > 0, reach(a, n + 1, x), is_gcd(g, x, a[n as int].v()) ensures reach(a, n + 1, g)
{
    let b = a[n as int].v();
    if reach(a, n, x) { } else if x == b { assert(b * 1 == b); gcd_self(b, b); gcd_unique(g, b, b, b); }
    else { let h = choose|h: int| reach(a, n, h) && #[trigger] is_gcd(x, h, b); gcd_self(x, b); gcd_unique(g, x, x, b); }
}
pub proof fn reach_more(a: Seq<Z>, n: nat, m: nat, g: int) requires n <= m, reach(a, n, g) ensures reach(a, m, g) decreases m { if n < m { reach_more(a, n, (m - 1) as nat, g); } }
pub open spec fn allreach(a: Seq<Z>, n: nat, s: Seq<Z>) -> bool { forall|k: int| 0 <= k < s.len() ==> reach(a, n, (#[trigger] s[k]).v()) }
// there are not too many of them for an index of type int
pub open spec fn few(a: Seq<Z>, used: int) -> bool { forall|s: Seq<Z>| #[trigger] ssort(s) && allreach(a, a.len(), s) ==> s.len() + used < i32::MAX }
pub proof fn all_more(a: Seq<Z>, n: nat, m: nat, s: Seq<Z>) requires n <= m, allreach(a, n, s) ensures allreach(a, m, s) { assert forall|k: int| 0 <= k < s.len() implies reach(a, m, (#[trigger] s[k]).v()) by { reach_more(a, n, m, s[k].v()); } }
// o with g inserted before position p
pub open spec fn insat(o: Seq<Z>, p: int, g: Z) -> Seq<Z> { o.take(p).push(g).add(o.skip(p)) }
pub open spec fn above(o: Seq<Z>, p: int, g: int) -> bool { forall|k: int| p <= k < o.len() ==> (#[trigger] o[k]).v() > g }
pub proof fn ins_last(o: Seq<Z>, g: Z) ensures o.push(g) =~= insat(o, o.len() as int, g), above(o, o.len() as int, g.v()) { }
pub proof fn ins_step(o: Seq<Z>, p: int, g: Z) requires 1 <= p <= o.len() ensures insat(o, p, g).update(p, o[p - 1]).update(p - 1, g) =~= insat(o, p - 1, g), insat(o, p, g)[p] == g, insat(o, p, g)[p - 1] == o[p - 1], insat(o, p, g).len() == o.len() + 1 { }
pub proof fn ins_in(o: Seq<Z>, p: int, g: Z, x: int) requires 0 <= p <= o.len() ensures zin(insat(o, p, g), x) == (zin(o, x) || x == g.v())
{
    let q = insat(o, p, g);
    if zin(o, x) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).v() == x; if k < p { assert(q[k].v() == x); } else { assert(q[k + 1].v() == x); } }
    if x == g.v() { assert(q[p].v() == x); }
    if zin(q, x) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).v() == x; if k < p { assert(o[k].v() == x); } else if k > p { assert(o[k - 1].v() == x); } }
}
pub proof fn ins_sorted(o: Seq<Z>, p: int, g: Z) requires 0 <= p <= o.len(), ssort(o), above(o, p, g.v()), p > 0 ==> o[p - 1].v() < g.v() ensures ssort(insat(o, p, g)), insat(o, p, g).len() == o.len() + 1
{ let q = insat(o, p, g); assert forall|a: int, b: int| 0 <= a < b < q.len() implies (#[trigger] q[a]).v() < (#[trigger] q[b]).v() by {
    if b < p { assert(o[a].v() < o[b].v()); } else if b == p { if a < p - 1 { assert(o[a].v() < o[p - 1].v()); } } else { if a < p { assert(o[a].v() < o[b - 1].v()); } else if a > p { assert(o[a - 1].v() < o[b - 1].v()); } else { assert(o[b - 1].v() > g.v()); } } } }
pub open spec fn grown(o: Seq<Z>, q: Seq<Z>, g: Z) -> bool { exists|p: int| 0 <= p <= o.len() && q =~= #[trigger] insat(o, p, g) && above(o, p, g.v()) && (p > 0 ==> o[p - 1].v() < g.v()) }
// every gcd of an element of the first j and b is there
pub open spec fn closed(q: Seq<Z>, j: int, b: int) -> bool { forall|t: int, g: int| 0 <= t < j && #[trigger] is_gcd(g, (#[trigger] q[t]).v(), b) ==> zin(q, g) }
pub proof fn closed_same(o: Seq<Z>, j: int, b: int, g: Z) requires 0 <= j < o.len(), closed(o, j, b), is_gcd(g.v(), o[j].v(), b), zin(o, g.v()) ensures closed(o, j + 1, b)
{ assert forall|t: int, h: int| 0 <= t < j + 1 && #[trigger] is_gcd(h, (#[trigger] o[t]).v(), b) implies zin(o, h) by { if t == j { gcd_unique(g.v(), h, o[j].v(), b); } } }
pub proof fn closed_ins(o: Seq<Z>, q: Seq<Z>, j: int, b: int, g: Z) requires 0 <= j < o.len(), ssort(o), closed(o, j, b), is_gcd(g.v(), o[j].v(), b), !zin(o, g.v()), grown(o, q, g), o[j].v() > 0, b > 0
    ensures closed(q, j + 1, b), q.len() == o.len() + 1, q[j + 1] == o[j], ssort(q), g.v() > 0, forall|x: int| #[trigger] zin(q, x) == (zin(o, x) || x == g.v())
{
    let p = choose|p: int| 0 <= p <= o.len() && q =~= #[trigger] insat(o, p, g) && above(o, p, g.v()) && (p > 0 ==> o[p - 1].v() < g.v());
    gcd_pos(g.v(), o[j].v(), b); assert(o[j].v() != g.v());
    if p > j + 1 { assert(o[j].v() < o[p - 1].v()); } if p == j + 1 { assert(o[j].v() < g.v()); }
    ins_sorted(o, p, g);
    assert forall|x: int| #[trigger] zin(q, x) == (zin(o, x) || x == g.v()) by { ins_in(o, p, g, x); }
    assert forall|t: int, h: int| 0 <= t < j + 1 && #[trigger] is_gcd(h, (#[trigger] q[t]).v(), b) implies zin(q, h) by {
        if t < p { assert(q[t] == o[t]); assert(zin(o, h)); } else if t == p { gcd_self(g.v(), b); gcd_unique(h, g.v(), g.v(), b); assert(zin(q, g.v())); } else { assert(q[t] == o[t - 1]); assert(zin(o, h)); }
    }
}
pub proof fn grown_in(o: Seq<Z>, q: Seq<Z>, g: Z) requires ssort(o), grown(o, q, g) ensures ssort(q), q.len() == o.len() + 1, forall|x: int| #[trigger] zin(q, x) == (zin(o, x) || x == g.v())
{ let p = choose|p: int| 0 <= p <= o.len() && q =~= #[trigger] insat(o, p, g) && above(o, p, g.v()) && (p > 0 ==> o[p - 1].v() < g.v()); ins_sorted(o, p, g); assert forall|x: int| #[trigger] zin(q, x) == (zin(o, x) || x == g.v()) by { ins_in(o, p, g, x); } }
pub proof fn grown_reach(o: Seq<Z>, q: Seq<Z>, a: Seq<Z>, n: nat, g: Z) requires allreach(a, n, o), reach(a, n, g.v()), forall|x: int| #[trigger] zin(q, x) == (zin(o, x) || x == g.v()) ensures allreach(a, n, q)
{ assert forall|k: int| 0 <= k < q.len() implies reach(a, n, (#[trigger] q[k]).v()) by { assert(zin(q, q[k].v())); if q[k].v() != g.v() { let t = choose|t: int| 0 <= t < o.len() && (#[trigger] o[t]).v() == q[k].v(); } } }
pub open spec fn covers(q: Seq<Z>, a: Seq<Z>, n: nat) -> bool { forall|g: int| #[trigger] reach(a, n, g) ==> zin(q, g) }
pub proof fn round(q: Seq<Z>, a: Seq<Z>, n: nat) requires n < a.len(), covers(q, a, n), closed(q, q.len() as int, a[n as int].v()), zin(q, a[n as int].v()) ensures covers(q, a, n + 1)
{ let b = a[n as int].v(); assert forall|g: int| #[trigger] reach(a, n + 1, g) implies zin(q, g) by { if reach(a, n, g) || g == b { } else { let h = choose|h: int| reach(a, n, h) && #[trigger] is_gcd(g, h, b); assert(zin(q, h)); let t = choose|t: int| 0 <= t < q.len() && (#[trigger] q[t]).v() == h; assert(is_gcd(g, q[t].v(), b)); } } }
// how many entries g divides
pub open spec fn cnt(a: Seq<Z>, g: int, n: nat) -> int decreases n { if n == 0 { 0 } else { cnt(a, g, (n - 1) as nat) + if frem(a[n - 1].v(), g) == 0 { 1int } else { 0 } } }
// ---- Moebius weights
pub open spec fn inl(l: Seq<MobiusPair>, g: int) -> bool { exists|k: int| 0 <= k < l.len() && (#[trigger] l[k]).gcd.v() == g }
pub open spec fn ldist(l: Seq<MobiusPair>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).gcd.v() != (#[trigger] l[j]).gcd.v() }
pub open spec fn lpos(l: Seq<MobiusPair>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).gcd.v() > 0 }
pub open spec fn lwf(l: Seq<MobiusPair>) -> bool { ldist(l) && lpos(l) && l.len() < i32::MAX }
// entry j is a multiple of entry i
pub open spec fn mult(l: Seq<MobiusPair>, i: int, j: int) -> bool { frem(l[j].gcd.v(), l[i].gcd.v()) == 0 }
// the weights of the multiples of entry i among the first n, without i itself if skip
pub open spec fn musum(l: Seq<MobiusPair>, i: int, n: nat, skip: bool) -> int decreases n { if n == 0 { 0 } else { musum(l, i, (n - 1) as nat, skip) + if mult(l, i, n - 1) && !(skip && n - 1 == i) { l[n - 1].mu.v() } else { 0 } } }
pub open spec fn upv(l: Seq<MobiusPair>, i: int) -> bool { forall|j: int| 0 <= j < l.len() && #[trigger] mult(l, i, j) ==> l[j].mobiusValid }
pub open spec fn okl(l: Seq<MobiusPair>) -> bool { forall|i: int| #![trigger upv(l, i)] #![trigger l[i].mobiusValid] 0 <= i < l.len() && l[i].mobiusValid ==> upv(l, i) && musum(l, i, l.len(), false) == 1 }
// same divisors; valid weights stay
pub open spec fn kept(l: Seq<MobiusPair>, m: Seq<MobiusPair>) -> bool { l.len() == m.len() && (forall|k: int| 0 <= k < l.len() ==> (#[trigger] m[k]).gcd == l[k].gcd) && forall|k: int| 0 <= k < l.len() && l[k].mobiusValid ==> (#[trigger] m[k]) == l[k] }
pub proof fn kept_trans(a: Seq<MobiusPair>, b: Seq<MobiusPair>, c: Seq<MobiusPair>) requires kept(a, b), kept(b, c) ensures kept(a, c)
{ assert forall|k: int| 0 <= k < a.len() implies (#[trigger] c[k]).gcd == a[k].gcd by { assert(b[k].gcd == a[k].gcd); } assert forall|k: int| 0 <= k < a.len() && a[k].mobiusValid implies (#[trigger] c[k]) == a[k] by { assert(b[k] == a[k]); } }
pub proof fn mult_self(l: Seq<MobiusPair>, i: int) requires lpos(l), 0 <= i < l.len() ensures mult(l, i, i) { let g = l[i].gcd.v(); assert(g > 0); assert(g / g == 1) by(nonlinear_arith) requires g > 0; assert(g * 1 == g); }
pub proof fn mult_trans(l: Seq<MobiusPair>, i: int, j: int, k: int) requires lpos(l), 0 <= i < l.len(), 0 <= j < l.len(), 0 <= k < l.len(), mult(l, i, j), mult(l, j, k) ensures mult(l, i, k)
{ let a = l[i].gcd.v(); let b = l[j].gcd.v(); let c = l[k].gcd.v(); assert(a > 0 && b > 0 && c > 0); let x = b / a; let y = c / b; assert(a * x == b); assert(b * y == c); assert(a * (x * y) == c) by(nonlinear_arith) requires a * x == b, b * y == c; assert(dvd(a, c)); exact_div(c, a); }
pub proof fn mult_big(l: Seq<MobiusPair>, i: int, j: int) requires lpos(l), ldist(l), 0 <= i < l.len(), 0 <= j < l.len(), i != j, mult(l, i, j) ensures l[j].gcd.v() > l[i].gcd.v(), !mult(l, j, i)
{ let a = l[i].gcd.v(); let b = l[j].gcd.v(); assert(a > 0 && b > 0); if i < j { assert(a != b); } else { assert(b != a); } let x = b / a; assert(a * x == b); assert(dvd(a, b)); dvd_le(a, b);
  if mult(l, j, i) { let y = a / b; assert(b * y == a); assert(dvd(b, a)); dvd_le(b, a); } }
pub proof fn mus_keep(l: Seq<MobiusPair>, m: Seq<MobiusPair>, i: int, n: nat, skip: bool) requires kept(l, m), 0 <= i < l.len(), n <= l.len(), forall|j: int| 0 <= j < n && #[trigger] mult(l, i, j) && !(skip && j == i) ==> l[j].mobiusValid ensures musum(m, i, n, skip) == musum(l, i, n, skip) decreases n
{ if n > 0 { mus_keep(l, m, i, (n - 1) as nat, skip); let j = n - 1; assert(m[j].gcd == l[j].gcd); assert(m[i].gcd == l[i].gcd); assert(mult(m, i, j) == mult(l, i, j)); if mult(l, i, j) && !(skip && j == i) { assert(l[j].mobiusValid); assert(m[j] == l[j]); } } }
pub proof fn mus_skip(l: Seq<MobiusPair>, i: int, n: nat) requires lpos(l), 0 <= i < l.len(), n <= l.len() ensures musum(l, i, n, false) == musum(l, i, n, true) + if i < n { l[i].mu.v() } else { 0 } decreases n { mult_self(l, i); if n > 0 { mus_skip(l, i, (n - 1) as nat); } }
// storing the weight of i once all proper multiples have theirs
pub proof fn store(l: Seq<MobiusPair>, i: int, m: Seq<MobiusPair>) requires lwf(l), okl(l), 0 <= i < l.len(), m.len() == l.len(), m =~= l.update(i, m[i]), m[i].gcd == l[i].gcd, m[i].mobiusValid, m[i].mu.v() == 1 - musum(l, i, l.len(), true), forall|j: int| 0 <= j < l.len() && j != i && #[trigger] mult(l, i, j) ==> l[j].mobiusValid
    ensures okl(m), kept(l, m), lwf(m)
{
    if l[i].mobiusValid { assert(upv(l, i)); mus_skip(l, i, l.len()); assert(m[i].mu.v() == l[i].mu.v()); assert(m[i] == l[i]); assert(m =~= l); }
    else {
        assert(kept(l, m));
        assert(lpos(m)) by { assert forall|k: int| 0 <= k < m.len() implies (#[trigger] m[k]).gcd.v() > 0 by { assert(l[k].gcd.v() > 0); } }
        assert(ldist(m)) by { assert forall|a: int, b: int| 0 <= a < b < m.len() implies (#[trigger] m[a]).gcd.v() != (#[trigger] m[b]).gcd.v() by { assert(l[a].gcd.v() != l[b].gcd.v()); } }
        assert forall|k: int| #![trigger upv(m, k)] #![trigger m[k].mobiusValid] 0 <= k < m.len() && m[k].mobiusValid implies upv(m, k) && musum(m, k, m.len(), false) == 1 by {
            if k == i {
                assert forall|j: int| 0 <= j < m.len() && #[trigger] mult(m, i, j) implies m[j].mobiusValid by { assert(mult(l, i, j)); }
                mus_keep(l, m, i, l.len(), true); mus_skip(m, i, m.len());
            } else {
                assert(l[k].mobiusValid); assert(upv(l, k));
                if mult(l, k, i) { assert(l[i].mobiusValid); }
                assert forall|j: int| 0 <= j < m.len() && #[trigger] mult(m, k, j) implies m[j].mobiusValid by { assert(mult(l, k, j)); }
                assert forall|j: int| 0 <= j < l.len() && #[trigger] mult(l, k, j) && !(false && j == k) implies l[j].mobiusValid by { }
                mus_keep(l, m, k, l.len(), false);
            }
        }
    }
}
pub open spec fn lmax(l: Seq<MobiusPair>) -> int decreases l.len() { if l.len() == 0 { 0 } else { let r = lmax(l.drop_last()); let x = l.last().gcd.v(); if x > r { x } else { r } } }
pub proof fn lmax_ge(l: Seq<MobiusPair>, i: int) requires 0 <= i < l.len() ensures lmax(l) >= l[i].gcd.v() decreases l.len() { if i < l.len() - 1 { assert(l.drop_last()[i] == l[i]); lmax_ge(l.drop_last(), i); } }
pub proof fn lmax_eq(l: Seq<MobiusPair>, m: Seq<MobiusPair>) requires l.len() == m.len(), forall|k: int| 0 <= k < l.len() ==> (#[trigger] m[k]).gcd == l[k].gcd ensures lmax(l) == lmax(m) decreases l.len()
{ if l.len() > 0 { assert(m[l.len() - 1].gcd == l[l.len() - 1].gcd); assert forall|k: int| 0 <= k < l.len() - 1 implies (#[trigger] m.drop_last()[k]).gcd == l.drop_last()[k].gcd by { assert(m[k].gcd == l[k].gcd); } lmax_eq(l.drop_last(), m.drop_last()); } }
// the weights are those of the Moebius inversion over divisibility
pub open spec fn weights(l: Seq<MobiusPair>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] musum(l, i, l.len(), false) == 1 }
pub proof fn ml_push(l: Seq<MobiusPair>, m: Seq<MobiusPair>, p: MobiusPair) requires lwf(l), m =~= l.push(p), p.gcd.v() > 0, !inl(l, p.gcd.v()), l.len() < i32::MAX - 1
    ensures lwf(m), forall|g: int| #[trigger] inl(m, g) == (inl(l, g) || g == p.gcd.v())
{
    assert(lpos(m)) by { assert forall|k: int| 0 <= k < m.len() implies (#[trigger] m[k]).gcd.v() > 0 by { if k < l.len() { assert(l[k].gcd.v() > 0); } } }
    assert(ldist(m)) by { assert forall|a: int, b: int| 0 <= a < b < m.len() implies (#[trigger] m[a]).gcd.v() != (#[trigger] m[b]).gcd.v() by { if b < l.len() { assert(l[a].gcd.v() != l[b].gcd.v()); } else { assert(m[a] == l[a]); assert(l[a].gcd.v() != p.gcd.v()); } } }
    assert forall|g: int| #[trigger] inl(m, g) == (inl(l, g) || g == p.gcd.v()) by {
        if inl(l, g) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).gcd.v() == g; assert(m[k].gcd.v() == g); }
        if g == p.gcd.v() { assert(m[l.len() as int].gcd.v() == g); }
        if inl(m, g) { let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).gcd.v() == g; if k < l.len() { assert(l[k].gcd.v() == g); } }
    }
}
pub proof fn call_dec(l0: Seq<MobiusPair>, l1: Seq<MobiusPair>, i: int, j: int) requires kept(l0, l1), lwf(l1), 0 <= i < l1.len(), 0 <= j < l1.len(), i != j, mult(l1, i, j)
    ensures 0 <= lmax(l1) - l1[j].gcd.v() < lmax(l0) - l0[i].gcd.v()
{ lmax_eq(l0, l1); lmax_ge(l1, j); mult_big(l1, i, j); assert(l1[i].gcd == l0[i].gcd); }
pub open spec fn known(l: Seq<MobiusPair>, i: int, j: int) -> bool { forall|t: int| 0 <= t < j && t != i && #[trigger] mult(l, i, t) ==> l[t].mobiusValid }
pub proof fn rec_step(l0: Seq<MobiusPair>, l1: Seq<MobiusPair>, l2: Seq<MobiusPair>, i: int, j: int) requires kept(l0, l1), kept(l1, l2), 0 <= i < l1.len(), 0 <= j < l1.len(), known(l1, i, j), i != j && mult(l1, i, j) ==> l2[j].mobiusValid
    ensures kept(l0, l2), known(l2, i, j + 1), musum(l2, i, (j + 1) as nat, true) == musum(l1, i, j as nat, true) + if i != j && mult(l1, i, j) { l2[j].mu.v() } else { 0 }
{
    kept_trans(l0, l1, l2); mus_keep(l1, l2, i, j as nat, true); assert(l2[i].gcd == l1[i].gcd); assert(l2[j].gcd == l1[j].gcd); assert(mult(l2, i, j) == mult(l1, i, j));
    assert forall|t: int| 0 <= t < j + 1 && t != i && #[trigger] mult(l2, i, t) implies l2[t].mobiusValid by { assert(l2[t].gcd == l1[t].gcd); if t < j { assert(mult(l1, i, t)); assert(l1[t].mobiusValid); assert(l2[t] == l1[t]); } }
}
pub open spec fn samegcd(l: Seq<MobiusPair>, m: Seq<MobiusPair>) -> bool { l.len() == m.len() && forall|k: int| #![trigger m[k]] #![trigger l[k]] 0 <= k < l.len() ==> m[k].gcd == l[k].gcd }
pub open spec fn cleared(m: Seq<MobiusPair>, n: int) -> bool { forall|k: int| 0 <= k < n ==> !(#[trigger] m[k]).mobiusValid }
pub proof fn fresh(l: Seq<MobiusPair>, m: Seq<MobiusPair>) requires lwf(l), samegcd(l, m), cleared(m, m.len() as int) ensures lwf(m), okl(m)
{
    assert(lpos(m)) by { assert forall|k: int| 0 <= k < m.len() implies (#[trigger] m[k]).gcd.v() > 0 by { assert(l[k].gcd.v() > 0); } }
    assert(ldist(m)) by { assert forall|a: int, b: int| 0 <= a < b < m.len() implies (#[trigger] m[a]).gcd.v() != (#[trigger] m[b]).gcd.v() by { assert(l[a].gcd.v() != l[b].gcd.v()); } }
}
pub proof fn finish(m: Seq<MobiusPair>, one: int) requires okl(m), 0 <= one < m.len(), m[one].gcd.v() == 1, m[one].mobiusValid ensures weights(m)
{ assert(upv(m, one)); assert forall|i: int| 0 <= i < m.len() implies #[trigger] musum(m, i, m.len(), false) == 1 by { assert(mult(m, one, i)); assert(m[i].mobiusValid); assert(upv(m, i)); } }
pub proof fn closed_last(o: Seq<Z>, q: Seq<Z>, b: int, g: Z) requires ssort(o), closed(o, o.len() as int, b), g.v() == b, b > 0, grown(o, q, g) ensures closed(q, q.len() as int, b)
{ grown_in(o, q, g); assert forall|t: int, h: int| 0 <= t < q.len() && #[trigger] is_gcd(h, (#[trigger] q[t]).v(), b) implies zin(q, h) by {
    assert(zin(q, q[t].v())); assert(b * 1 == b); gcd_self(b, b); if q[t].v() == b { gcd_unique(h, b, b, b); } else { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).v() == q[t].v(); assert(is_gcd(h, o[k].v(), b)); } } }
pub proof fn reach_pos(a: Seq<Z>, n: nat, g: int) requires n <= a.len(), allpos(a), reach(a, n, g) ensures g > 0 decreases n
{ let b = a[n - 1].v(); assert(b > 0); if reach(a, (n - 1) as nat, g) { reach_pos(a, (n - 1) as nat, g); } else if g == b { } else { let h = choose|h: int| reach(a, (n - 1) as nat, h) && #[trigger] is_gcd(g, h, b); gcd_pos(g, h, b); } }
// the state of the scan of entry n after j entries of the list
pub open spec fn scan(q: Seq<Z>, a: Seq<Z>, n: int, j: int) -> bool { ssort(q) && closed(q, j, a[n].v()) && allreach(a, (n + 1) as nat, q) && covers(q, a, n as nat) && q.len() < i32::MAX }
pub proof fn scan_start(q: Seq<Z>, a: Seq<Z>, n: int) requires 0 <= n < a.len(), ssort(q), allreach(a, n as nat, q), covers(q, a, n as nat), q.len() < i32::MAX ensures scan(q, a, n, 0) { all_more(a, n as nat, (n + 1) as nat, q); }
pub proof fn scan_step(o: Seq<Z>, q: Seq<Z>, a: Seq<Z>, n: int, j: int, g: Z, used: int) requires 0 <= n < a.len(), allpos(a), few(a, used), used >= 0, scan(o, a, n, j), 0 <= j < o.len(), is_gcd(g.v(), o[j].v(), a[n].v()), if zin(o, g.v()) { q == o } else { grown(o, q, g) }
    ensures scan(q, a, n, j + 1), j + 1 <= q.len()
{
    assert(a[n].v() > 0);
    if zin(o, g.v()) { closed_same(o, j, a[n].v(), g); }
    else {
        reach_pos(a, (n + 1) as nat, o[j].v());
        closed_ins(o, q, j, a[n].v(), g); reach_close(a, n as nat, o[j].v(), g.v()); grown_reach(o, q, a, (n + 1) as nat, g); all_more(a, (n + 1) as nat, a.len(), q);
        assert(covers(q, a, n as nat)) by { assert forall|h: int| #[trigger] reach(a, n as nat, h) implies zin(q, h) by { assert(zin(o, h)); } }
    }
}
pub proof fn scan_end(o: Seq<Z>, q: Seq<Z>, a: Seq<Z>, n: int, used: int) requires 0 <= n < a.len(), allpos(a), few(a, used), used >= 0, scan(o, a, n, o.len() as int), if zin(o, a[n].v()) { q == o } else { grown(o, q, a[n]) }
    ensures ssort(q), covers(q, a, (n + 1) as nat), allreach(a, (n + 1) as nat, q), q.len() < i32::MAX
{
    assert(a[n].v() > 0); assert(reach(a, (n + 1) as nat, a[n].v()));
    if !zin(o, a[n].v()) {
        grown_in(o, q, a[n]); closed_last(o, q, a[n].v(), a[n]); grown_reach(o, q, a, (n + 1) as nat, a[n]); all_more(a, (n + 1) as nat, a.len(), q);
        assert(covers(q, a, n as nat)) by { assert forall|h: int| #[trigger] reach(a, n as nat, h) implies zin(q, h) by { assert(zin(o, h)); } }
        assert(zin(q, a[n].v()));
    }
    round(q, a, n as nat);
}
// the new value g is at position p of the list, everything behind it is bigger
pub open spec fn bubble(o: Seq<Z>, q: Seq<Z>, p: int, g: Z) -> bool { 0 <= p <= o.len() && q =~= insat(o, p, g) && above(o, p, g.v()) && q.len() == o.len() + 1 && q[p] == g && (p > 0 ==> q[p - 1] == o[p - 1]) }
pub proof fn bubble_start(o: Seq<Z>, q: Seq<Z>, g: Z) requires q =~= o.push(g) ensures bubble(o, q, o.len() as int, g) { ins_last(o, g); }
pub proof fn bubble_step(o: Seq<Z>, q: Seq<Z>, r: Seq<Z>, p: int, g: Z) requires ssort(o), bubble(o, q, p, g), p >= 1, o[p - 1].v() > g.v(), r =~= q.update(p, o[p - 1]).update(p - 1, g) ensures bubble(o, r, p - 1, g)
{ ins_step(o, p, g); assert(above(o, p - 1, g.v())); if p >= 2 { assert(r[p - 2] == o[p - 2]); } }
pub proof fn bubble_end(o: Seq<Z>, q: Seq<Z>, p: int, g: Z) requires ssort(o), bubble(o, q, p, g), !zin(o, g.v()), p > 0 ==> o[p - 1].v() <= g.v() ensures grown(o, q, g) { if p > 0 { assert(o[p - 1].v() != g.v()); } }
// g is one of the first n list entries that divide enough of a
pub open spec fn sel(o: Seq<Z>, a: Seq<Z>, n: int, m: int, g: int) -> bool { exists|t: int| 0 <= t < n && (#[trigger] o[t]).v() == g && cnt(a, g, a.len()) >= m }
pub open spec fn added(l0: Seq<MobiusPair>, l: Seq<MobiusPair>, o: Seq<Z>, a: Seq<Z>, n: int, m: int) -> bool { lwf(l) && l.len() <= l0.len() + n && forall|g: int| #[trigger] inl(l, g) == (inl(l0, g) || sel(o, a, n, m, g)) }
pub proof fn add_step(l0: Seq<MobiusPair>, l1: Seq<MobiusPair>, l2: Seq<MobiusPair>, o: Seq<Z>, a: Seq<Z>, n: int, m: int) requires 0 <= n < o.len(), added(l0, l1, o, a, n, m), lwf(l2), l2.len() <= l1.len() + 1, if cnt(a, o[n].v(), a.len()) >= m { forall|g: int| #[trigger] inl(l2, g) == (inl(l1, g) || g == o[n].v()) } else { l2 == l1 }
    ensures added(l0, l2, o, a, n + 1, m)
{ assert forall|g: int| #[trigger] inl(l2, g) == (inl(l0, g) || sel(o, a, n + 1, m, g)) by { assert(inl(l1, g) == (inl(l0, g) || sel(o, a, n, m, g))); assert(inl(l2, g) == inl(l2, g)); if sel(o, a, n + 1, m, g) { let t = choose|t: int| 0 <= t < n + 1 && (#[trigger] o[t]).v() == g && cnt(a, g, a.len()) >= m; if t < n { assert(sel(o, a, n, m, g)); } } if cnt(a, o[n].v(), a.len()) >= m && g == o[n].v() { assert(o[n].v() == g); } } }
pub proof fn add_done(l0: Seq<MobiusPair>, l: Seq<MobiusPair>, o: Seq<Z>, a: Seq<Z>, m: int) requires added(l0, l, o, a, o.len() as int, m), covers(o, a, a.len()), allreach(a, a.len(), o)
    ensures forall|g: int| #[trigger] inl(l, g) == (inl(l0, g) || (reach(a, a.len(), g) && cnt(a, g, a.len()) >= m))
{ assert forall|g: int| #[trigger] inl(l, g) == (inl(l0, g) || (reach(a, a.len(), g) && cnt(a, g, a.len()) >= m)) by { if reach(a, a.len(), g) { assert(zin(o, g)); } } }
@end
@struct MobiusPair from top-knapsack/TopKnapsack.h
@struct MobiusList from top-knapsack/TopKnapsack.h
@merge MobiusSeriesList MobiusList
@struct TopKnapsack from top-knapsack/TopKnapsack.h
@fn MobiusPair::MobiusPair(const ZZ &, const ZZ &) as mp_new
@ensures ret.gcd.v() == g.v(), ret.mu.v() == m.v(), !ret.mobiusValid
@fn TopKnapsack::binomial(int, int) as tk_binom static
@requires 0 <= k <= n < i32::MAX
@ensures ret.v() == binc(n as nat, k as nat)
@decreases k as nat
@at ghost entry
  proof { binc_full(n as nat); if k > 0 { let x = n as int; let y = k as int; assert(x / y >= 1) by(nonlinear_arith) requires x >= y, y > 0; if x / y < 2 { assert(x < 2 * y) by(nonlinear_arith) requires x / y < 2, y > 0; } } binc_sym(n as nat, k as nat); }
@invariant 0
  0 < k < n < i32::MAX, n - k <= i <= n, num.v() == ff(n as int, (n - i) as nat), denum.v() == 1
@loopdec 0 i - (n - k)
@invariant 1
  0 < k < n < i32::MAX, 1 <= i_2 <= k + 1, num.v() == ff(n as int, k as nat), denum.v() == fac((i_2 - 1) as nat)
@loopdec 1 k + 1 - i_2
@at end 1
  let m = i_2 as nat; let f = fac((m - 1) as nat); assert(fac(m) == m * f); assert(m * f == f * m) by(nonlinear_arith); assert(((i_2 + 1) - 1) as nat == m);
@at after 1
  quot(num.v(), n as nat, k as nat);
@fn MobiusList::insertGCD(const ZZ &) as ml_insert
@requires lwf(this.list@), v.v() > 0, this.list@.len() < i32::MAX - 1
@ensures lwf(this.list@), this.list@.len() <= this0.list@.len() + 1, forall|g: int| #[trigger] inl(this.list@, g) == (inl(this0.list@, g) || g == v.v())
@ensures this.list@.len() >= this0.list@.len(), forall|k: int| 0 <= k < this0.list@.len() ==> #[trigger] this.list@[k] == this0.list@[k]
@invariant 0
  0 <= i <= this.list@.len(), v == v0, this.list@ == this0.list@, lwf(this.list@), found ==> inl(this.list@, v.v()), !found ==> forall|k: int| 0 <= k < i ==> (#[trigger] this.list@[k]).gcd.v() != v.v()
@loopens 0 found || i == this.list@.len()
@loopdec 0 this.list@.len() - i
@at exit
  if !found { assert(!inl(this0.list@, v.v())); ml_push(this0.list@, this.list@, this.list@.last()); }
@fn MobiusList::computeMobius(int) as ml_rec
@requires lwf(this.list@), okl(this.list@), 0 <= i < this.list@.len()
@ensures lwf(this.list@), okl(this.list@), kept(this0.list@, this.list@), this.list@[i as int].mobiusValid
@decreases lmax(this.list@) - this.list@[i as int].gcd.v()
@at ghost entry
  let ghost mut l9 = this.list@;
@invariant 0
  i == i0, 0 <= i < this.list@.len(), 0 <= j <= this.list@.len(), lwf(this.list@), okl(this.list@), kept(this0.list@, this.list@), known(this.list@, i as int, j as int), sum.v() == musum(this.list@, i as int, j as nat, true), !this0.list@[i as int].mobiusValid
@loopdec 0 this.list@.len() - j
@at ghost begin 0
  let ghost l1 = this.list@;
  proof { assert(l1[i as int].gcd.v() > 0); if i != j && mult(l1, i as int, j as int) { call_dec(this0.list@, l1, i as int, j as int); } }
@at end 0
  rec_step(this0.list@, l1, this.list@, i as int, j as int);
@at after 0
  l9 = this.list@;
@at exit
  if !this0.list@[i as int].mobiusValid { store(l9, i as int, this.list@); kept_trans(this0.list@, l9, this.list@); }
@fn MobiusList::computeMobius() as ml_mobius
@requires lwf(this.list@)
@aborts !inl(this0.list@, 1)
@ensures inl(this0.list@, 1), this.list@.len() == this0.list@.len(), forall|k: int| 0 <= k < this.list@.len() ==> (#[trigger] this.list@[k]).gcd == this0.list@[k].gcd, weights(this.list@)
@invariant 0
  0 <= i <= this.list@.len(), lwf(this0.list@), samegcd(this0.list@, this.list@), cleared(this.list@, i as int), -1 <= indexOne < i, indexOne == -1 ==> forall|k: int| 0 <= k < i ==> (#[trigger] this0.list@[k]).gcd.v() != 1, indexOne >= 0 ==> this0.list@[indexOne as int].gcd.v() == 1
@loopdec 0 this.list@.len() - i
@at after 0
  fresh(this0.list@, this.list@);
@at exit
  assert(this0.list@[indexOne as int].gcd.v() == 1); finish(this.list@, indexOne as int);
@fn TopKnapsack::everyGCDFromEntireList(int) as tk_all
@requires allpos(this.alpha@), few(this.alpha@, this.gcds.list@.len() as int), lwf(this.gcds.list@), this.alpha@.len() < 0x3fff_ffff, this.N == this.alpha@.len() - 1, 0 <= k <= this.N
@ensures this.alpha == this0.alpha, lwf(this.gcds.list@)
@ensures forall|g: int| #[trigger] inl(this.gcds.list@, g) == (inl(this0.gcds.list@, g) || (reach(this.alpha@, this.alpha@.len(), g) && cnt(this.alpha@, g, this.alpha@.len()) >= this.N + 1 - k))
@at ghost entry
  let ghost a = this.alpha@; let ghost used = this.gcds.list@.len() as int; let ghost l0 = this.gcds.list@;
@invariant 0
  this == this0, a == this.alpha@, used == this.gcds.list@.len(), k == k0, allpos(a), few(a, used), a.len() < 0x3fff_ffff, 0 <= i <= a.len(), ssort(output@), covers(output@, a, i as nat), allreach(a, i as nat, output@), output@.len() < i32::MAX
@loopdec 0 a.len() - i
@at before 1
  scan_start(output@, a, i as int);
@invariant 1
  this == this0, a == this.alpha@, used == this.gcds.list@.len(), k == k0, allpos(a), few(a, used), a.len() < 0x3fff_ffff, 0 <= i < a.len(), 0 <= j <= output@.len(), scan(output@, a, i as int, j as int)
@loopdec 1 i32::MAX - j
@at ghost begin 1
  let ghost o1 = output@;
@at before 2
  bubble_start(o1, output@, g);
@invariant 2
  -1 <= i_2 < o1.len(), ssort(o1), bubble(o1, output@, i_2 + 1, g), o1.len() < i32::MAX, !zin(o1, g.v())
@loopdec 2 i_2 + 1
@at ghost begin 2
  let ghost q1 = output@;
@at end 2
  bubble_step(o1, q1, output@, i_2 + 1, g);
@at after 2
  bubble_end(o1, output@, i_2 + 1, g);
@at end 1
  scan_step(o1, output@, a, i as int, j as int, g, used);
@at ghost begin 0
  let ghost mut o2 = output@;
@at after 1
  o2 = output@;
@at before 3
  bubble_start(o2, output@, a[i as int]);
@invariant 3
  this == this0, a == this.alpha@, 0 <= i < a.len(), -1 <= i_3 < o2.len(), ssort(o2), bubble(o2, output@, i_3 + 1, a[i as int]), o2.len() < i32::MAX, !zin(o2, a[i as int].v())
@loopdec 3 i_3 + 1
@at ghost begin 3
  let ghost q2 = output@;
@at end 3
  bubble_step(o2, q2, output@, i_3 + 1, a[i as int]);
@at after 3
  bubble_end(o2, output@, i_3 + 1, a[i as int]);
@at end 0
  scan_end(o2, output@, a, i as int, used);
@invariant 4
  this.alpha == this0.alpha, this.N == this0.N, a == this.alpha@, k == k0, allpos(a), a.len() < 0x3fff_ffff, 0 <= i_4 <= output@.len(), covers(output@, a, a.len()), allreach(a, a.len(), output@), output@.len() + used < i32::MAX, used == l0.len(), added(l0, this.gcds.list@, output@, a, i_4 as int, this.N + 1 - k)
@loopdec 4 output@.len() - i_4
@at ghost begin 4
  let ghost l1 = this.gcds.list@;
  proof { reach_pos(a, a.len(), output@[i_4 as int].v()); }
@invariant 5
  this.alpha == this0.alpha, this.N == this0.N, a == this.alpha@, a.len() < 0x3fff_ffff, 0 <= i_4 < output@.len(), this.gcds.list@ == l1, 0 <= j_2 <= a.len(), 0 <= numDiv <= j_2, numDiv == cnt(a, output@[i_4 as int].v(), j_2 as nat), output@[i_4 as int].v() > 0
@loopdec 5 a.len() - j_2
@at end 4
  add_step(l0, l1, this.gcds.list@, output@, a, i_4 as int, this.N + 1 - k);
@at after 4
  add_done(l0, this.gcds.list@, output@, a, this.N + 1 - k);
