@rs
pub open spec fn icomb(c: Seq<int>, a: Seq<Z>, n: nat) -> int decreases n { if n == 0 { 0 } else { icomb(c, a, (n - 1) as nat) + c[n - 1] * a[n - 1].v() } }
// g is the greatest common divisor of the first n entries (0 when all are 0)
pub open spec fn gcdof(g: int, a: Seq<Z>, n: nat) -> bool {
    &&& g >= 0
    &&& forall|k: int| 0 <= k < n ==> dvd(g, (#[trigger] a[k]).v())
    &&& exists|c: Seq<int>| c.len() == n && #[trigger] icomb(c, a, n) == g
}
pub open spec fn primitive(a: Seq<Z>, n: nat) -> bool { gcdof(1, a, n) }
pub proof fn icomb_ext(c: Seq<int>, d: Seq<int>, a: Seq<Z>, s: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> #[trigger] d[k] == s * c[k] ensures icomb(d, a, n) == s * icomb(c, a, n) decreases n
{ if n > 0 { icomb_ext(c, d, a, s, (n - 1) as nat); let x = icomb(c, a, (n - 1) as nat); let y = c[n - 1]; let z = a[n - 1].v(); assert(d[n - 1] == s * y);
    assert(s * x + (s * y) * z == s * (x + y * z)) by(nonlinear_arith); } else { assert(s * 0 == 0); } }
pub proof fn dvd_trans(a: int, b: int, c: int) requires dvd(a, b), dvd(b, c) ensures dvd(a, c)
{ let k = choose|k: int| #[trigger] (a * k) == b; let l = choose|l: int| #[trigger] (b * l) == c; assert(a * (k * l) == (a * k) * l) by(nonlinear_arith); }
pub proof fn gcd_step(g: int, g2: int, a: Seq<Z>, n: nat)
    requires gcdof(g, a, n), is_gcd(g2, g, a[n as int].v()) ensures gcdof(g2, a, n + 1)
{
    let m = n + 1;
    assert forall|k: int| 0 <= k < m implies dvd(g2, (#[trigger] a[k]).v()) by { if k < n { dvd_trans(g2, g, a[k].v()); } }
    let c = choose|c: Seq<int>| c.len() == n && #[trigger] icomb(c, a, n) == g;
    let (s, t) = choose|s: int, t: int| #[trigger] (s * g) + #[trigger] (t * a[n as int].v()) == g2;
    let d = Seq::new(m as nat, |k: int| if k < n { s * c[k] } else { t });
    icomb_ext(c, d, a, s, n);
    assert(icomb(d, a, m) == g2);
}
pub proof fn icomb_div(c: Seq<int>, a: Seq<Z>, b: Seq<Z>, g: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v() == g * b[k].v() ensures icomb(c, a, n) == g * icomb(c, b, n) decreases n
{ if n > 0 { icomb_div(c, a, b, g, (n - 1) as nat); let x = icomb(c, b, (n - 1) as nat); let y = c[n - 1]; let z = b[n - 1].v(); assert(a[n - 1].v() == g * z);
    assert(g * x + y * (g * z) == g * (x + y * z)) by(nonlinear_arith); } else { assert(g * 0 == 0); } }
pub proof fn gcd_prim(g: int, a: Seq<Z>, b: Seq<Z>, n: nat)
    requires gcdof(g, a, n), g != 0, forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v() == g * b[k].v() ensures primitive(b, n)
{
    let c = choose|c: Seq<int>| c.len() == n && #[trigger] icomb(c, a, n) == g;
    icomb_div(c, a, b, g, n); ring_cancel(g, icomb(c, b, n), 1);
    assert forall|k: int| 0 <= k < n implies dvd(1, (#[trigger] b[k]).v()) by { assert(1 * b[k].v() == b[k].v()); }
}
pub proof fn exact_div(a: int, b: int) requires b > 0, dvd(b, a) ensures fdiv(a, b) * b == a, b * fdiv(a, b) == a, frem(a, b) == 0
{ let k = choose|k: int| #[trigger] (b * k) == a; assert(a / b == k) by(nonlinear_arith) requires b * k == a, b > 0; assert(k * b == a) by(nonlinear_arith) requires b * k == a; }
pub proof fn gcd_start(a: Seq<Z>) ensures gcdof(0, a, 0) { let c = Seq::<int>::empty(); assert(icomb(c, a, 0) == 0); }
