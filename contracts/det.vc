@rs
// ---- determinant theory for the row expansion mdet (proved, nothing assumed)
pub open spec fn sumf(f: spec_fn(int) -> int, n: nat) -> int decreases n { if n == 0 { 0 } else { sumf(f, (n - 1) as nat) + f(n - 1) } }
pub proof fn sum_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sumf(f, n) == sumf(g, n) decreases n
{ if n > 0 { sum_ext(f, g, (n - 1) as nat); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_add(f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i) + g(i) ensures sumf(h, n) == sumf(f, n) + sumf(g, n) decreases n
{ if n > 0 { sum_add(f, g, h, (n - 1) as nat); assert(h(n - 1) == f(n - 1) + g(n - 1)); } }
pub proof fn sum_neg(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == -f(i) ensures sumf(g, n) == -sumf(f, n) decreases n
{ if n > 0 { sum_neg(f, g, (n - 1) as nat); assert(g(n - 1) == -f(n - 1)); } }
pub proof fn sum_mul(c: int, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == c * f(i) ensures sumf(g, n) == c * sumf(f, n) decreases n
{ if n > 0 { sum_mul(c, f, g, (n - 1) as nat); assert(g(n - 1) == c * f(n - 1)); let x = sumf(f, (n - 1) as nat); let y = f(n - 1); assert(c * x + c * y == c * (x + y)) by(nonlinear_arith); } else { assert(c * 0 == 0); } }
pub proof fn sum_zero(f: spec_fn(int) -> int, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0 ensures sumf(f, n) == 0 decreases n
{ if n > 0 { sum_zero(f, (n - 1) as nat); assert(f(n - 1) == 0); } }
// exchange of a double sum
pub open spec fn rowf(F: spec_fn(int, int) -> int, n: nat) -> spec_fn(int) -> int { |i: int| sumf(|j: int| F(i, j), n) }
pub open spec fn trf(F: spec_fn(int, int) -> int) -> spec_fn(int, int) -> int { |i: int, j: int| F(j, i) }
pub proof fn sum_swap(F: spec_fn(int, int) -> int, a: nat, b: nat)
    ensures sumf(rowf(F, b), a) == sumf(rowf(trf(F), a), b) decreases a
{
    if a == 0 { assert forall|j: int| 0 <= j < b implies #[trigger] rowf(trf(F), 0)(j) == 0 by {} sum_zero(rowf(trf(F), 0), b); }
    else {
        let a1 = (a - 1) as nat; sum_swap(F, a1, b);
        let g = |j: int| F(a - 1, j);
        assert forall|j: int| 0 <= j < b implies #[trigger] rowf(trf(F), a)(j) == rowf(trf(F), a1)(j) + g(j) by {
            let h = |i: int| trf(F)(j, i); assert(rowf(trf(F), a)(j) == sumf(h, a)); assert(rowf(trf(F), a1)(j) == sumf(h, a1)); assert(h(a - 1) == F(a - 1, j)); }
        sum_add(rowf(trf(F), a1), g, rowf(trf(F), a), b);
        assert(rowf(F, b)(a - 1) == sumf(g, b));
    }
}
// an antisymmetric double sum vanishes
pub proof fn sum_anti(F: spec_fn(int, int) -> int, n: nat)
    requires forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] F(i, j) == -F(j, i) ensures sumf(rowf(F, n), n) == 0
{
    sum_swap(F, n, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] rowf(F, n)(i) == -rowf(trf(F), n)(i) by {
        let f = |j: int| F(i, j); let g = |j: int| trf(F)(i, j);
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == -g(j) by { assert(F(i, j) == -F(j, i)); }
        sum_neg(g, f, n);
    }
    sum_neg(rowf(trf(F), n), rowf(F, n), n);
}
// a sum over n-1 positions as a sum over n positions with position p skipped
pub open spec fn skipi(p: int, k: int) -> int { if k < p { k } else { k + 1 } }
pub open spec fn skipj(p: int, c: int) -> int { if c < p { c } else { c - 1 } }
pub proof fn sum_skip(f: spec_fn(int) -> int, g: spec_fn(int) -> int, p: int, n: nat, q: nat)
    requires 0 <= p, q <= n, forall|c: int| 0 <= c < n && c != p ==> #[trigger] g(c) == f(skipj(p, c)), g(p) == 0
    ensures sumf(g, q) == sumf(f, (if q <= p { q } else { (q - 1) as nat })) decreases q
{
    if q > 0 {
        sum_skip(f, g, p, n, (q - 1) as nat);
        let c = q - 1;
        if c != p { assert(g(c) == f(skipj(p, c))); }
    }
}
pub open spec fn sqm(m: Seq<Vc<Z>>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@.len() == m.len() }
pub open spec fn laplt(m: Seq<Vc<Z>>, t: int) -> int { sg(t) * (m[0]@[t].v() * mdet(minor(m, t))) }
pub proof fn lapl_sum(m: Seq<Vc<Z>>, j: nat) requires m.len() > 0, j <= m.len() ensures lapl(m, j) == sumf(|t: int| laplt(m, t), j) decreases j
{ if j > 0 { lapl_sum(m, (j - 1) as nat); } }
pub proof fn minor_sq(m: Seq<Vc<Z>>, t: int) requires sqm(m), 0 <= t < m.len() ensures sqm(minor(m, t)), minor(m, t).len() == m.len() - 1
{ assert forall|i: int| 0 <= i < m.len() - 1 implies (#[trigger] minor(m, t)[i])@.len() == m.len() - 1 by { assert(m[i + 1]@.len() == m.len()); } }
pub proof fn minor_at(m: Seq<Vc<Z>>, t: int, i: int, c: int) requires sqm(m), 0 <= t < m.len(), 0 <= i < m.len() - 1, 0 <= c < m.len() - 1
    ensures minor(m, t)[i]@[c] == m[i + 1]@[skipi(t, c)] { assert(m[i + 1]@.len() == m.len()); }
// m's row i is the sum of those of a and b; the other rows agree
pub open spec fn rowsum(m: Seq<Vc<Z>>, a: Seq<Vc<Z>>, b: Seq<Vc<Z>>, i: int) -> bool {
    &&& sqm(m) && sqm(a) && sqm(b) && m.len() == a.len() && m.len() == b.len()
    &&& forall|r: int| 0 <= r < m.len() && r != i ==> #[trigger] m[r] == a[r] && m[r] == b[r]
    &&& forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[i]@[k]).v() == a[i]@[k].v() + b[i]@[k].v()
}
pub proof fn det_add(m: Seq<Vc<Z>>, a: Seq<Vc<Z>>, b: Seq<Vc<Z>>, i: int)
    requires rowsum(m, a, b, i), 0 <= i < m.len() ensures mdet(m) == mdet(a) + mdet(b) decreases m.len()
{
    let n = m.len(); lapl_sum(m, n); lapl_sum(a, n); lapl_sum(b, n);
    let f = |t: int| laplt(a, t); let g = |t: int| laplt(b, t); let h = |t: int| laplt(m, t);
    assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == f(t) + g(t) by {
        minor_sq(m, t); minor_sq(a, t); minor_sq(b, t);
        let x = a[0]@[t].v(); let y = b[0]@[t].v(); let s = sg(t);
        if i == 0 {
            assert(minor(m, t) =~= minor(a, t)) by { assert forall|r: int| 0 <= r < n - 1 implies minor(m, t)[r] == minor(a, t)[r] by { assert(m[r + 1] == a[r + 1]); } }
            assert(minor(m, t) =~= minor(b, t)) by { assert forall|r: int| 0 <= r < n - 1 implies minor(m, t)[r] == minor(b, t)[r] by { assert(m[r + 1] == b[r + 1]); } }
            let d = mdet(minor(m, t));
            assert(m[0]@[t].v() == x + y);
            assert(s * ((x + y) * d) == s * (x * d) + s * (y * d)) by(nonlinear_arith);
        } else {
            assert(m[0] == a[0] && m[0] == b[0]);
            let M = minor(m, t); let A = minor(a, t); let B = minor(b, t);
            assert(rowsum(M, A, B, i - 1)) by {
                assert forall|r: int| 0 <= r < n - 1 && r != i - 1 implies #[trigger] M[r] == A[r] && M[r] == B[r] by { assert(m[r + 1] == a[r + 1] && m[r + 1] == b[r + 1]); }
                assert forall|k: int| 0 <= k < n - 1 implies (#[trigger] M[i - 1]@[k]).v() == A[i - 1]@[k].v() + B[i - 1]@[k].v() by { minor_at(m, t, i - 1, k); minor_at(a, t, i - 1, k); minor_at(b, t, i - 1, k); assert(m[i]@[skipi(t, k)].v() == a[i]@[skipi(t, k)].v() + b[i]@[skipi(t, k)].v()); }
            }
            det_add(M, A, B, i - 1);
            let u = mdet(A); let v = mdet(B);
            assert(s * (x * (u + v)) == s * (x * u) + s * (x * v)) by(nonlinear_arith);
        }
    }
    sum_add(f, g, h, n);
}
// two equal leading rows
pub open spec fn term2(m: Seq<Vc<Z>>, j: int, c: int) -> int { if j == c { 0 } else { sg(j) * (m[0]@[j].v() * (sg(skipj(j, c)) * (m[1]@[c].v() * mdet(minor(minor(m, j), skipj(j, c)))))) } }
pub proof fn sg_step(j: int) ensures sg(j + 1) == -sg(j) { }
pub proof fn minor2(m: Seq<Vc<Z>>, j: int, c: int)
    requires sqm(m), m.len() >= 2, 0 <= j < c < m.len() ensures minor(minor(m, j), skipj(j, c)) == minor(minor(m, c), skipj(c, j))
{
    let n = m.len(); minor_sq(m, j); minor_sq(m, c); let A = minor(minor(m, j), c - 1); let B = minor(minor(m, c), j);
    minor_sq(minor(m, j), c - 1); minor_sq(minor(m, c), j);
    assert(A =~= B) by { assert forall|r: int| 0 <= r < n - 2 implies A[r] == B[r] by {
        assert(A[r]@ =~= B[r]@) by { assert(A[r]@.len() == n - 2); assert(B[r]@.len() == n - 2);
            assert forall|k: int| 0 <= k < n - 2 implies A[r]@[k] == B[r]@[k] by { minor_at(minor(m, j), c - 1, r, k); minor_at(minor(m, c), j, r, k); minor_at(m, j, r + 1, skipi(c - 1, k)); minor_at(m, c, r + 1, skipi(j, k)); } } } }
}
pub proof fn det_eq01(m: Seq<Vc<Z>>)
    requires sqm(m), m.len() >= 2, m[0] == m[1] ensures mdet(m) == 0
{
    let n = m.len(); let F = |j: int, c: int| term2(m, j, c); let h = |t: int| laplt(m, t);
    lapl_sum(m, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] h(j) == rowf(F, n)(j) by {
        minor_sq(m, j); let M = minor(m, j); lapl_sum(M, (n - 1) as nat);
        let f = |k: int| laplt(M, k);
        let g = |c: int| if c == j { 0 } else { sg(skipj(j, c)) * (m[1]@[c].v() * mdet(minor(M, skipj(j, c)))) };
        assert forall|c: int| 0 <= c < n && c != j implies #[trigger] g(c) == f(skipj(j, c)) by { minor_at(m, j, 0, skipj(j, c)); assert(skipi(j, skipj(j, c)) == c); }
        sum_skip(f, g, j, n, n);
        assert(mdet(M) == sumf(g, n));
        let co = sg(j) * m[0]@[j].v(); let e = |c: int| F(j, c); let x = sumf(g, n);
        assert forall|c: int| 0 <= c < n implies #[trigger] e(c) == co * g(c) by {
            let s = sg(j); let u = m[0]@[j].v(); let w = g(c);
            assert(s * (u * w) == (s * u) * w) by(nonlinear_arith); if c == j { assert(co * 0 == 0); } }
        sum_mul(co, g, e, n);
        let s = sg(j); let u = m[0]@[j].v(); assert(s * (u * x) == (s * u) * x) by(nonlinear_arith);
    }
    sum_ext(h, rowf(F, n), n);
    assert forall|j: int, c: int| 0 <= j < n && 0 <= c < n implies #[trigger] F(j, c) == -F(c, j) by {
        if j < c { minor2(m, j, c); term2_anti(m, j, c); } else if c < j { minor2(m, c, j); term2_anti(m, c, j); }
    }
    sum_anti(F, n);
}
pub proof fn term2_anti(m: Seq<Vc<Z>>, j: int, c: int)
    requires j < c, m[0] == m[1], minor(minor(m, j), skipj(j, c)) == minor(minor(m, c), skipj(c, j)) ensures term2(m, j, c) == -term2(m, c, j)
{
    sg_step(c - 1); let d = mdet(minor(minor(m, j), skipj(j, c))); let p = m[0]@[j].v(); let q = m[0]@[c].v(); let s = sg(j); let t = sg(c - 1);
    assert(sg(c) == -t);
    assert(s * (p * (t * (q * d))) == -((-t) * (q * (s * (p * d))))) by(nonlinear_arith);
}
// transposing two rows
pub proof fn det_terms_zero(m: Seq<Vc<Z>>, n: nat)
    requires m.len() == n, n > 0, forall|t: int| 0 <= t < n ==> mdet(#[trigger] minor(m, t)) == 0 ensures mdet(m) == 0
{
    lapl_sum(m, n); let h = |t: int| laplt(m, t);
    assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == 0 by { assert(mdet(minor(m, t)) == 0); let x = m[0]@[t].v(); assert(x * 0 == 0); assert(sg(t) * 0 == 0); }
    sum_zero(h, n);
}
pub open spec fn vadd(a: Vc<Z>, b: Vc<Z>) -> Vc<Z> { Vc { g: Ghost(Seq::new(a@.len(), |k: int| mkz(a@[k].v() + b@[k].v()))) } }
// if determinants with equal rows i, k vanish then exchanging the rows negates
pub proof fn det_swap_from(m: Seq<Vc<Z>>, i: int, k: int)
    requires sqm(m), 0 <= i < k < m.len(), forall|x: Seq<Vc<Z>>| #![trigger mdet(x)] sqm(x) && x.len() == m.len() && x[i] == x[k] ==> mdet(x) == 0
    ensures mdet(m.update(i, m[k]).update(k, m[i])) == -mdet(m)
{
    let a = m[i]; let b = m[k]; let s = vadd(a, b); let n = m.len();
    assert(a@.len() == n && b@.len() == n && s@.len() == n);
    let ss = m.update(i, s).update(k, s); let as_ = m.update(k, s); let bs = m.update(i, b).update(k, s);
    let aa = m.update(k, a); let bb = m.update(i, b); let ba = m.update(i, b).update(k, a);
    upd_sq(m, i, s); upd_sq(m.update(i, s), k, s); upd_sq(m, k, s); upd_sq(m, i, b); upd_sq(m.update(i, b), k, s); upd_sq(m, k, a); upd_sq(m.update(i, b), k, a);
    assert(rowsum(ss, as_, bs, i)); det_add(ss, as_, bs, i);
    assert(rowsum(as_, aa, m, k)); det_add(as_, aa, m, k);
    assert(rowsum(bs, ba, bb, k)); det_add(bs, ba, bb, k);
    assert(mdet(ss) == 0); assert(mdet(aa) == 0); assert(mdet(bb) == 0);
}
pub proof fn upd_sq(m: Seq<Vc<Z>>, i: int, v: Vc<Z>) requires sqm(m), 0 <= i < m.len(), v@.len() == m.len() ensures sqm(m.update(i, v)), m.update(i, v).len() == m.len() {}
pub proof fn det_eqrows(m: Seq<Vc<Z>>, i: int, k: int)
    requires sqm(m), 0 <= i < k < m.len(), m[i] == m[k] ensures mdet(m) == 0 decreases m.len(), k - i
{
    let n = m.len();
    if i > 0 {
        assert forall|t: int| 0 <= t < n implies mdet(#[trigger] minor(m, t)) == 0 by { minor_sq(m, t); assert(minor(m, t)[i - 1] == minor(m, t)[k - 1]); det_eqrows(minor(m, t), i - 1, k - 1); }
        det_terms_zero(m, n);
    } else if k == 1 { det_eq01(m); }
    else {
        // exchange rows k-1 and k, both below the first row
        let w = m.update(k - 1, m[k]).update(k, m[k - 1]);
        upd_sq(m, k - 1, m[k]); upd_sq(m.update(k - 1, m[k]), k, m[k - 1]);
        assert forall|x: Seq<Vc<Z>>| #![trigger mdet(x)] sqm(x) && x.len() == n && x[k - 1] == x[k] implies mdet(x) == 0 by { det_eqrows(x, k - 1, k); }
        det_swap_from(m, k - 1, k);
        assert(w[0] == w[k - 1]);
        det_eqrows(w, 0, k - 1);
    }
}
pub proof fn det_swap(m: Seq<Vc<Z>>, i: int, k: int)
    requires sqm(m), 0 <= i < k < m.len() ensures mdet(m.update(i, m[k]).update(k, m[i])) == -mdet(m)
{
    assert forall|x: Seq<Vc<Z>>| #![trigger mdet(x)] sqm(x) && x.len() == m.len() && x[i] == x[k] implies mdet(x) == 0 by { det_eqrows(x, i, k); }
    det_swap_from(m, i, k);
}
// ---- replacing a row by a combination of rows
pub open spec fn combv(a: Seq<Z>, F: Seq<Vc<Z>>, q: nat, n: nat) -> Vc<Z> { Vc { g: Ghost(Seq::new(n, |j: int| mkz(dotcol(a, F, j, q)))) } }
pub open spec fn scalev(c: int, v: Vc<Z>) -> Vc<Z> { Vc { g: Ghost(Seq::new(v@.len(), |j: int| mkz(c * v@[j].v()))) } }
pub proof fn det_scalev(m: Seq<Vc<Z>>, i: int, c: int, v: Vc<Z>) requires sqm(m), 0 <= i < m.len(), v@.len() == m.len() ensures mdet(m.update(i, scalev(c, v))) == c * mdet(m.update(i, v))
{ let a = m.update(i, scalev(c, v)); let b = m.update(i, v); upd_sq(m, i, v); upd_sq(m, i, scalev(c, v)); 
  assert forall|r: int| 0 <= r < a.len() implies (#[trigger] a[r])@.len() == a.len() && b[r]@.len() == a.len() by { assert(b[r]@.len() == b.len()); }
  assert(rowscaled(a, b, i, c)); det_scale(a, b, i, c); }
pub proof fn det_comb(m: Seq<Vc<Z>>, F: Seq<Vc<Z>>, i: int, a: Seq<Z>, q: nat)
    requires sqm(m), sqm(F), F.len() == m.len(), 0 <= i < m.len(), q <= m.len()
    ensures mdet(m.update(i, combv(a, F, q, m.len()))) == sumf(|k: int| a[k].v() * mdet(m.update(i, F[k])), q) decreases q
{
    let n = m.len(); let f = |k: int| a[k].v() * mdet(m.update(i, F[k])); let cq = combv(a, F, q, n);
    upd_sq(m, i, cq);
    if q == 0 {
        let M = m.update(i, cq); let z = scalev(0, cq);
        assert(z =~= cq) by { assert(z@ =~= cq@) by { assert forall|k: int| 0 <= k < n implies z@[k] == cq@[k] by { assert(dotcol(a, F, k, 0) == 0); assert(0 * cq@[k].v() == 0); } } }
        det_scalev(m, i, 0, cq); assert(0 * mdet(m.update(i, cq)) == 0);
    } else {
        let p = (q - 1) as nat; let cp = combv(a, F, p, n); let x = a[q - 1].v(); let r = scalev(x, F[q - 1]);
        det_comb(m, F, i, a, p);
        assert(F[q - 1]@.len() == n);
        upd_sq(m, i, cp); upd_sq(m, i, r);
        let M = m.update(i, cq); let A = m.update(i, cp); let B = m.update(i, r);
        assert(rowsum(M, A, B, i)) by { assert forall|k: int| 0 <= k < n implies (#[trigger] M[i]@[k]).v() == A[i]@[k].v() + B[i]@[k].v() by { assert(dotcol(a, F, k, q) == dotcol(a, F, k, p) + a[q - 1].v() * F[q - 1]@[k].v()); } }
        det_add(M, A, B, i); det_scalev(m, i, x, F[q - 1]);
        assert(f(q - 1) == x * mdet(m.update(i, F[q - 1])));
    }
}
// Cramer: if d*w is the combination a of the rows, replacing row i by w gives a_i/d times the determinant
pub proof fn cramer(m: Seq<Vc<Z>>, w: Vc<Z>, a: Seq<Z>, d: int, i: int)
    requires sqm(m), 0 <= i < m.len(), w@.len() == m.len(), forall|j: int| 0 <= j < m.len() ==> d * (#[trigger] w@[j]).v() == dotcol(a, m, j, m.len())
    ensures d * mdet(m.update(i, w)) == a[i].v() * mdet(m)
{
    let n = m.len();
    det_scalev(m, i, d, w);
    let c = combv(a, m, n, n);
    assert(scalev(d, w) =~= c) by { assert(scalev(d, w)@ =~= c@) by { assert forall|j: int| 0 <= j < n implies scalev(d, w)@[j] == c@[j] by { assert(d * w@[j].v() == dotcol(a, m, j, n)); } } }
    det_comb(m, m, i, a, n);
    let f = |k: int| a[k].v() * mdet(m.update(i, m[k])); let D = mdet(m);
    let g = |k: int| if k == i { a[i].v() * D } else { 0 };
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by {
        let M = m.update(i, m[k]); assert(m[k]@.len() == n); upd_sq(m, i, m[k]);
        if k == i { assert(M =~= m); } else if k < i { det_eqrows(M, k, i); assert(a[k].v() * 0 == 0); } else { det_eqrows(M, i, k); assert(a[k].v() * 0 == 0); }
    }
    sum_ext(f, g, n); sum_one(i, a[i].v() * D, g, n);
}
pub proof fn sum_one(i: int, x: int, g: spec_fn(int) -> int, n: nat) requires 0 <= i, forall|k: int| 0 <= k < n ==> #[trigger] g(k) == (if k == i { x } else { 0 }) ensures sumf(g, n) == (if i < n { x } else { 0 }) decreases n
{ if n > 0 { sum_one(i, x, g, (n - 1) as nat); assert(g(n - 1) == (if n - 1 == i { x } else { 0 })); } }
