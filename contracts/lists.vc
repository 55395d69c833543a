@source cone.cpp
@struct rationalVector from rational.cpp
@struct listVector
@struct Vertex
@struct listCone
@ptr heap listVector
@ptr heap listCone
@ptr heap Vertex
@ptr heap rationalVector
@rs
pub open spec fn at(ns: Seq<usize>, k: int) -> usize { if 0 <= k < ns.len() { ns[k] } else { 0 } }
pub open spec fn disj(a: Seq<usize>, b: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j] }
pub proof fn at_drop(a: Seq<usize>, i: int) requires a.len() > 0, i >= 0 ensures at(a.drop_first(), i) == at(a, i + 1) {}
pub proof fn at_add(a: Seq<usize>, b: Seq<usize>, i: int) requires i >= 0 ensures at(a + b, i) == (if i < a.len() { a[i] } else { at(b, i - a.len()) }) {}
// ns are the nodes of the null-terminated list p, all allocated and distinct
pub open spec fn chain_lv(m: Map<usize, listVector>, p: usize, ns: Seq<usize>) -> bool {
    &&& p == at(ns, 0)
    &&& ns.no_duplicates()
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] ns[i] != 0 && m.dom().contains(ns[i]) && m[ns[i]].rest == at(ns, i + 1)
}
pub open spec fn is_lv(m: Map<usize, listVector>, p: usize) -> bool { exists|ns: Seq<usize>| chain_lv(m, p, ns) }
pub open spec fn nodes_lv(m: Map<usize, listVector>, p: usize) -> Seq<usize> { choose|ns: Seq<usize>| chain_lv(m, p, ns) }
pub proof fn drop_lv(m: Map<usize, listVector>, p: usize, a: Seq<usize>) requires chain_lv(m, p, a), a.len() > 0
    ensures a[0] == p, p != 0, m.dom().contains(p), chain_lv(m, m[p].rest, a.drop_first()), a == seq![p] + a.drop_first()
{
    let a1 = a.drop_first(); assert(a[0] != 0);
    assert forall|i: int| 0 <= i < a1.len() implies #[trigger] a1[i] != 0 && m.dom().contains(a1[i]) && m[a1[i]].rest == at(a1, i + 1) by { assert(a[i + 1] != 0); at_drop(a, i + 1); }
    at_drop(a, 0); assert(a =~= seq![p] + a1);
}
pub proof fn uniq_lv(m: Map<usize, listVector>, p: usize, a: Seq<usize>, b: Seq<usize>)
    requires chain_lv(m, p, a), chain_lv(m, p, b) ensures a == b decreases a.len()
{
    hide(chain_lv);
    if a.len() == 0 { reveal(chain_lv); if b.len() > 0 { assert(b[0] != 0); } assert(a =~= b); }
    else { drop_lv(m, p, a); if b.len() == 0 { reveal(chain_lv); } drop_lv(m, p, b); uniq_lv(m, m[p].rest, a.drop_first(), b.drop_first()); }
}
pub proof fn def_lv(m: Map<usize, listVector>, p: usize, ns: Seq<usize>)
    requires chain_lv(m, p, ns) ensures is_lv(m, p), nodes_lv(m, p) == ns
{ assert(is_lv(m, p)); uniq_lv(m, p, ns, nodes_lv(m, p)); }
pub proof fn get_lv(m: Map<usize, listVector>, p: usize)
    requires is_lv(m, p) ensures chain_lv(m, p, nodes_lv(m, p)), p == 0 ==> nodes_lv(m, p).len() == 0, p != 0 ==> nodes_lv(m, p).len() > 0 && nodes_lv(m, p)[0] == p
{ let ns = choose|ns: Seq<usize>| chain_lv(m, p, ns); def_lv(m, p, ns); if p == 0 && ns.len() > 0 { assert(ns[0] != 0); } }
// a heap that agrees on the nodes has the same list
pub proof fn frame_lv(m: Map<usize, listVector>, m2: Map<usize, listVector>, p: usize)
    requires is_lv(m, p), forall|i: int| 0 <= i < nodes_lv(m, p).len() ==> m2.dom().contains(#[trigger] nodes_lv(m, p)[i]) && m2[nodes_lv(m, p)[i]] == m[nodes_lv(m, p)[i]]
    ensures is_lv(m2, p), nodes_lv(m2, p) == nodes_lv(m, p)
{ get_lv(m, p); assert(chain_lv(m2, p, nodes_lv(m, p))) by { 
    let ns = nodes_lv(m, p);
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] ns[i] != 0 && m2.dom().contains(ns[i]) && m2[ns[i]].rest == at(ns, i + 1) by { assert(m[ns[i]].rest == at(ns, i + 1)); }
  } def_lv(m2, p, nodes_lv(m, p)); }
pub proof fn tail_lv(m: Map<usize, listVector>, p: usize)
    requires is_lv(m, p), p != 0
    ensures m.dom().contains(p), is_lv(m, m[p].rest), nodes_lv(m, p) == seq![p] + nodes_lv(m, m[p].rest), !nodes_lv(m, m[p].rest).contains(p)
{
    get_lv(m, p); let a = nodes_lv(m, p); let a1 = a.drop_first();
    assert(a[0] != 0);
    assert forall|i: int| 0 <= i < a1.len() implies #[trigger] a1[i] != 0 && m.dom().contains(a1[i]) && m[a1[i]].rest == at(a1, i + 1) by { assert(a[i + 1] != 0); }
    assert(a1.no_duplicates());
    def_lv(m, m[p].rest, a1);
    assert(a =~= seq![p] + a1);
    assert(!a1.contains(p)) by { if a1.contains(p) { let j = choose|j: int| 0 <= j < a1.len() && a1[j] == p; assert(a[j + 1] == a[0]); } }
}
pub proof fn cons_lv(m: Map<usize, listVector>, p: usize)
    requires p != 0, m.dom().contains(p), is_lv(m, m[p].rest), !nodes_lv(m, m[p].rest).contains(p)
    ensures is_lv(m, p), nodes_lv(m, p) == seq![p] + nodes_lv(m, m[p].rest)
{
    let q = m[p].rest; get_lv(m, q); let a1 = nodes_lv(m, q); let a = seq![p] + a1;
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 0 && m.dom().contains(a[i]) && m[a[i]].rest == at(a, i + 1) by { if i > 0 { assert(a[i] == a1[i - 1]); } }
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        if i == 0 { assert(a[j] == a1[j - 1]); assert(a1.contains(a1[j - 1])); } else if j == 0 { assert(a[i] == a1[i - 1]); assert(a1.contains(a1[i - 1])); } else { assert(a[i] == a1[i-1] && a[j] == a1[j-1]); } } }
    def_lv(m, p, a);
}

// ns are the nodes of the null-terminated list p, all allocated and distinct
pub open spec fn chain_lc(m: Map<usize, listCone>, p: usize, ns: Seq<usize>) -> bool {
    &&& p == at(ns, 0)
    &&& ns.no_duplicates()
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] ns[i] != 0 && m.dom().contains(ns[i]) && m[ns[i]].rest == at(ns, i + 1)
}
pub open spec fn is_lc(m: Map<usize, listCone>, p: usize) -> bool { exists|ns: Seq<usize>| chain_lc(m, p, ns) }
pub open spec fn nodes_lc(m: Map<usize, listCone>, p: usize) -> Seq<usize> { choose|ns: Seq<usize>| chain_lc(m, p, ns) }
pub proof fn drop_lc(m: Map<usize, listCone>, p: usize, a: Seq<usize>) requires chain_lc(m, p, a), a.len() > 0
    ensures a[0] == p, p != 0, m.dom().contains(p), chain_lc(m, m[p].rest, a.drop_first()), a == seq![p] + a.drop_first()
{
    let a1 = a.drop_first(); assert(a[0] != 0);
    assert forall|i: int| 0 <= i < a1.len() implies #[trigger] a1[i] != 0 && m.dom().contains(a1[i]) && m[a1[i]].rest == at(a1, i + 1) by { assert(a[i + 1] != 0); at_drop(a, i + 1); }
    at_drop(a, 0); assert(a =~= seq![p] + a1);
}
pub proof fn uniq_lc(m: Map<usize, listCone>, p: usize, a: Seq<usize>, b: Seq<usize>)
    requires chain_lc(m, p, a), chain_lc(m, p, b) ensures a == b decreases a.len()
{
    hide(chain_lc);
    if a.len() == 0 { reveal(chain_lc); if b.len() > 0 { assert(b[0] != 0); } assert(a =~= b); }
    else { drop_lc(m, p, a); if b.len() == 0 { reveal(chain_lc); } drop_lc(m, p, b); uniq_lc(m, m[p].rest, a.drop_first(), b.drop_first()); }
}
pub proof fn def_lc(m: Map<usize, listCone>, p: usize, ns: Seq<usize>)
    requires chain_lc(m, p, ns) ensures is_lc(m, p), nodes_lc(m, p) == ns
{ assert(is_lc(m, p)); uniq_lc(m, p, ns, nodes_lc(m, p)); }
pub proof fn get_lc(m: Map<usize, listCone>, p: usize)
    requires is_lc(m, p) ensures chain_lc(m, p, nodes_lc(m, p)), p == 0 ==> nodes_lc(m, p).len() == 0, p != 0 ==> nodes_lc(m, p).len() > 0 && nodes_lc(m, p)[0] == p
{ let ns = choose|ns: Seq<usize>| chain_lc(m, p, ns); def_lc(m, p, ns); if p == 0 && ns.len() > 0 { assert(ns[0] != 0); } }
// a heap that agrees on the nodes has the same list
pub proof fn frame_lc(m: Map<usize, listCone>, m2: Map<usize, listCone>, p: usize)
    requires is_lc(m, p), forall|i: int| 0 <= i < nodes_lc(m, p).len() ==> m2.dom().contains(#[trigger] nodes_lc(m, p)[i]) && m2[nodes_lc(m, p)[i]] == m[nodes_lc(m, p)[i]]
    ensures is_lc(m2, p), nodes_lc(m2, p) == nodes_lc(m, p)
{ get_lc(m, p); assert(chain_lc(m2, p, nodes_lc(m, p))) by { 
    let ns = nodes_lc(m, p);
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] ns[i] != 0 && m2.dom().contains(ns[i]) && m2[ns[i]].rest == at(ns, i + 1) by { assert(m[ns[i]].rest == at(ns, i + 1)); }
  } def_lc(m2, p, nodes_lc(m, p)); }
pub proof fn tail_lc(m: Map<usize, listCone>, p: usize)
    requires is_lc(m, p), p != 0
    ensures m.dom().contains(p), is_lc(m, m[p].rest), nodes_lc(m, p) == seq![p] + nodes_lc(m, m[p].rest), !nodes_lc(m, m[p].rest).contains(p)
{
    get_lc(m, p); let a = nodes_lc(m, p); let a1 = a.drop_first();
    assert(a[0] != 0);
    assert forall|i: int| 0 <= i < a1.len() implies #[trigger] a1[i] != 0 && m.dom().contains(a1[i]) && m[a1[i]].rest == at(a1, i + 1) by { assert(a[i + 1] != 0); }
    assert(a1.no_duplicates());
    def_lc(m, m[p].rest, a1);
    assert(a =~= seq![p] + a1);
    assert(!a1.contains(p)) by { if a1.contains(p) { let j = choose|j: int| 0 <= j < a1.len() && a1[j] == p; assert(a[j + 1] == a[0]); } }
}
pub proof fn cons_lc(m: Map<usize, listCone>, p: usize)
    requires p != 0, m.dom().contains(p), is_lc(m, m[p].rest), !nodes_lc(m, m[p].rest).contains(p)
    ensures is_lc(m, p), nodes_lc(m, p) == seq![p] + nodes_lc(m, m[p].rest)
{
    let q = m[p].rest; get_lc(m, q); let a1 = nodes_lc(m, q); let a = seq![p] + a1;
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 0 && m.dom().contains(a[i]) && m[a[i]].rest == at(a, i + 1) by { if i > 0 { assert(a[i] == a1[i - 1]); } }
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        if i == 0 { assert(a[j] == a1[j - 1]); assert(a1.contains(a1[j - 1])); } else if j == 0 { assert(a[i] == a1[i - 1]); assert(a1.contains(a1[i - 1])); } else { assert(a[i] == a1[i-1] && a[j] == a1[j-1]); } } }
    def_lc(m, p, a);
}

pub open spec fn lset(m: Map<usize, listVector>, p: usize) -> Set<usize> { nodes_lv(m, p).to_set() }
pub open spec fn vals(m: Map<usize, listVector>, p: usize) -> Seq<(Vc<Z>, i32)> { nodes_lv(m, p).map_values(|q: usize| (m[q].first, m[q].index_hint)) }
pub open spec fn lv_out(m: Map<usize, listVector>, p: usize) -> Map<usize, listVector> { m.remove_keys(nodes_lv(m, p).to_set()) }
// lists not touched by removing the nodes in s
pub proof fn rem_lv(m: Map<usize, listVector>, s: Set<usize>, p: usize)
    requires is_lv(m, p), lset(m, p).disjoint(s) ensures is_lv(m.remove_keys(s), p), nodes_lv(m.remove_keys(s), p) == nodes_lv(m, p), lset(m.remove_keys(s), p) == lset(m, p), vals(m.remove_keys(s), p) == vals(m, p)
{
    get_lv(m, p); let ns = nodes_lv(m, p); let m2 = m.remove_keys(s);
    assert forall|i: int| 0 <= i < ns.len() implies m2.dom().contains(#[trigger] ns[i]) && m2[ns[i]] == m[ns[i]] by { assert(ns[i] != 0); assert(lset(m, p).contains(ns[i])); }
    frame_lv(m, m2, p);
    assert(vals(m2, p) =~= vals(m, p)) by { assert forall|i: int| 0 <= i < ns.len() implies vals(m2, p)[i] == vals(m, p)[i] by { assert(m2[ns[i]] == m[ns[i]]); } }
}
pub open spec fn keeps(m: Map<usize, listVector>, m2: Map<usize, listVector>, s: Set<usize>) -> bool {
    forall|q: usize| #[trigger] is_lv(m, q) && lset(m, q).disjoint(s) ==> is_lv(m2, q) && lset(m2, q) == lset(m, q) && nodes_lv(m2, q) == nodes_lv(m, q) && vals(m2, q) == vals(m, q)
}
pub proof fn keeps_rem(m: Map<usize, listVector>, s: Set<usize>) ensures keeps(m, m.remove_keys(s), s)
{ assert forall|q: usize| #[trigger] is_lv(m, q) && lset(m, q).disjoint(s) implies is_lv(m.remove_keys(s), q) && lset(m.remove_keys(s), q) == lset(m, q) && nodes_lv(m.remove_keys(s), q) == nodes_lv(m, q) && vals(m.remove_keys(s), q) == vals(m, q) by { rem_lv(m, s, q); } }
pub proof fn free_step_lv(m: Map<usize, listVector>, p: usize)
    requires is_lv(m, p), p != 0
    ensures m.dom().contains(p), is_lv(m.remove(p), m[p].rest), lv_out(m.remove(p), m[p].rest) == lv_out(m, p), nodes_lv(m.remove(p), m[p].rest) == nodes_lv(m, m[p].rest), nodes_lv(m, p).len() == nodes_lv(m, m[p].rest).len() + 1
{
    tail_lv(m, p); let q = m[p].rest; let T = nodes_lv(m, q); get_lv(m, q);
    assert forall|i: int| 0 <= i < T.len() implies m.remove(p).dom().contains(#[trigger] T[i]) && m.remove(p)[T[i]] == m[T[i]] by { assert(T[i] != 0); assert(T.contains(T[i])); }
    frame_lv(m, m.remove(p), q);
    let N = nodes_lv(m, p);
    assert forall|x: usize| N.to_set().contains(x) <==> (x == p || T.to_set().contains(x)) by {
        if N.contains(x) { let i = choose|i: int| 0 <= i < N.len() && N[i] == x; if i > 0 { assert(T[i - 1] == x); } }
        if T.contains(x) { let i = choose|i: int| 0 <= i < T.len() && T[i] == x; assert(N[i + 1] == x); }
        assert(N[0] == p);
    }
    assert(lv_out(m.remove(p), q) =~= lv_out(m, p));
}
pub proof fn free_end_lv(m: Map<usize, listVector>) ensures is_lv(m, 0), nodes_lv(m, 0).len() == 0, lv_out(m, 0) == m
{ let e = Seq::<usize>::empty(); assert(chain_lv(m, 0, e)); def_lv(m, 0, e); assert(lv_out(m, 0) =~= m); }
// result of copying: node i of the copy carries the data of node i of the original
pub open spec fn same_lv(m: Map<usize, listVector>, a: Seq<usize>, m2: Map<usize, listVector>, b: Seq<usize>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] m[a[i]]).first == m2[b[i]].first && m[a[i]].index_hint == m2[b[i]].index_hint
}
// m2 extends m by fresh nodes fs only
pub open spec fn ext_lv(m: Map<usize, listVector>, m2: Map<usize, listVector>, fs: Seq<usize>) -> bool {
    &&& forall|q: usize| #[trigger] m2.dom().contains(q) <==> m.dom().contains(q) || fs.contains(q)
    &&& forall|q: usize| #[trigger] m.dom().contains(q) ==> m2[q] == m[q] && !fs.contains(q)
}
pub open spec fn others(hp: Hp, h0: Hp) -> bool { hp.listCone@ == h0.listCone@ && hp.Vertex@ == h0.Vertex@ && hp.rationalVector@ == h0.rationalVector@ }
pub open spec fn len32(n: nat) -> bool { n <= 0x7fff_fffe }

pub open spec fn submap<T>(m: Map<usize, T>, m2: Map<usize, T>) -> bool { forall|q: usize| #[trigger] m.dom().contains(q) ==> m2.dom().contains(q) && m2[q] == m[q] }
// every list of a heap is the same list of any larger heap
pub proof fn sub_lv(m: Map<usize, listVector>, m2: Map<usize, listVector>, p: usize)
    requires submap(m, m2), is_lv(m, p) ensures is_lv(m2, p), nodes_lv(m2, p) == nodes_lv(m, p), vals(m2, p) == vals(m, p), lset(m2, p) == lset(m, p), lset(m, p).subset_of(m.dom())
{
    get_lv(m, p); let ns = nodes_lv(m, p);
    assert forall|i: int| 0 <= i < ns.len() implies m2.dom().contains(#[trigger] ns[i]) && m2[ns[i]] == m[ns[i]] by { assert(ns[i] != 0); }
    frame_lv(m, m2, p); assert(vals(m2, p) =~= vals(m, p)) by { assert forall|i: int| 0 <= i < ns.len() implies vals(m2, p)[i] == vals(m, p)[i] by { assert(ns[i] != 0); } }
    assert forall|q: usize| lset(m, p).contains(q) implies m.dom().contains(q) by { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == q; assert(ns[i] != 0); }
}
pub open spec fn sep(a: Set<usize>, b: Set<usize>) -> bool { a.disjoint(b) && b.disjoint(a) }
pub proof fn ext_sub(m: Map<usize, listVector>, m2: Map<usize, listVector>, fs: Seq<usize>) requires ext_lv(m, m2, fs) ensures submap(m, m2), sep(fs.to_set(), m.dom())
{ assert forall|q: usize| #[trigger] m.dom().contains(q) implies m2.dom().contains(q) && m2[q] == m[q] && !fs.contains(q) by { assert(m2.dom().contains(q) <==> m.dom().contains(q) || fs.contains(q)); } }
pub open spec fn grow_lv(m: Map<usize, listVector>, m2: Map<usize, listVector>) -> bool { forall|q: usize| #[trigger] is_lv(m, q) ==> is_lv(m2, q) && nodes_lv(m2, q) == nodes_lv(m, q) && vals(m2, q) == vals(m, q) && lset(m2, q) == lset(m, q) && lset(m2, q).subset_of(m.dom()) }
pub proof fn all_sub(m: Map<usize, listVector>, m2: Map<usize, listVector>) requires submap(m, m2) ensures grow_lv(m, m2)
{ assert forall|q: usize| #[trigger] is_lv(m, q) implies is_lv(m2, q) && nodes_lv(m2, q) == nodes_lv(m, q) && vals(m2, q) == vals(m, q) && lset(m2, q) == lset(m, q) && lset(m2, q).subset_of(m.dom()) by { sub_lv(m, m2, q); } }
pub open spec fn cp_lv(m0: Map<usize, listVector>, ns: Seq<usize>, m: Map<usize, listVector>, r: usize, out: Seq<usize>) -> bool {
    &&& out.len() <= ns.len() && chain_lv(m, r, out) && ext_lv(m0, m, out)
    &&& forall|i: int| 0 <= i < out.len() ==> m0[ns[i]].first == (#[trigger] m[out[i]]).first && m0[ns[i]].index_hint == m[out[i]].index_hint
}
pub proof fn cp_lv_use(m0: Map<usize, listVector>, ns: Seq<usize>, m: Map<usize, listVector>, r: usize, out: Seq<usize>)
    requires cp_lv(m0, ns, m, r, out), exists|p: usize| chain_lv(m0, p, ns), at(ns, out.len() as int) != 0
    ensures out.len() < ns.len(), m0.dom().contains(ns[out.len() as int]), m.dom().contains(ns[out.len() as int]), m[ns[out.len() as int]] == m0[ns[out.len() as int]],
       !out.contains(ns[out.len() as int]), out.len() > 0 ==> out.last() != 0 && m.dom().contains(out.last())
{
    assert(ns[out.len() as int] != 0); if out.len() > 0 { assert(out[out.len() - 1] != 0); }
}
pub open spec fn upd_lv(h1: Map<usize, listVector>, out1: Seq<usize>, h2: Map<usize, listVector>, n: usize) -> bool {
    &&& n != 0 && !h1.dom().contains(n) && h2.dom() =~= h1.dom().insert(n) && h2[n].rest == 0
    &&& forall|q: usize| #[trigger] h1.dom().contains(q) && !(out1.len() > 0 && q == out1.last()) ==> h2[q] == h1[q]
    &&& out1.len() > 0 ==> h2[out1.last()] == (listVector { rest: n, ..h1[out1.last()] })
}
pub proof fn cp_chain_lv(h1: Map<usize, listVector>, r1: usize, out1: Seq<usize>, h2: Map<usize, listVector>, r2: usize, n: usize)
    requires chain_lv(h1, r1, out1), upd_lv(h1, out1, h2, n), r2 == (if out1.len() == 0 { n } else { r1 })
    ensures chain_lv(h2, r2, out1.push(n)), forall|q: usize| out1.push(n).contains(q) <==> out1.contains(q) || q == n,
       forall|i: int| 0 <= i < out1.len() ==> h2[#[trigger] out1[i]].first == h1[out1[i]].first && h2[out1[i]].index_hint == h1[out1[i]].index_hint
{
    let out = out1.push(n); let k = out1.len() as int;
    assert forall|i: int| 0 <= i < k implies #[trigger] out1[i] != n && h1.dom().contains(out1[i]) && out1[i] != 0 by { assert(out1[i] != 0); }
    assert(out.no_duplicates());
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] != 0 && h2.dom().contains(out[i]) && h2[out[i]].rest == at(out, i + 1) by {
        if i < k { assert(out1[i] != 0); assert(h1[out1[i]].rest == at(out1, i + 1)); if i + 1 < k { assert(out1[i] != out1[k - 1]); assert(out1[i + 1] == out[i + 1]); } else { assert(out1[i] == out1.last()); } }
    }
    assert forall|q: usize| out.contains(q) <==> out1.contains(q) || q == n by {
        if out1.contains(q) { let i = choose|i: int| 0 <= i < k && out1[i] == q; assert(out[i] == q); }
        if q == n { assert(out[k] == q); }
        if out.contains(q) && q != n { let i = choose|i: int| 0 <= i < out.len() && out[i] == q; assert(out1[i] == q); }
    }
    assert(chain_lv(h2, r2, out));
}
pub proof fn cp_step_lv(m0: Map<usize, listVector>, l0: usize, ns: Seq<usize>, h1: Map<usize, listVector>, r1: usize, out1: Seq<usize>, h2: Map<usize, listVector>, r2: usize, n: usize)
    requires cp_lv(m0, ns, h1, r1, out1), chain_lv(m0, l0, ns), out1.len() < ns.len(), upd_lv(h1, out1, h2, n),
        h2[n].first == m0[ns[out1.len() as int]].first, h2[n].index_hint == m0[ns[out1.len() as int]].index_hint,
        r2 == (if out1.len() == 0 { n } else { r1 })
    ensures cp_lv(m0, ns, h2, r2, out1.push(n)), m0[ns[out1.len() as int]].rest == at(ns, out1.len() as int + 1)
{
    let out = out1.push(n); let k = out1.len() as int;
    assert(ns[k] != 0);
    cp_chain_lv(h1, r1, out1, h2, r2, n);
    if k > 0 { assert(out1.contains(out1.last())); }
    assert forall|q: usize| #[trigger] m0.dom().contains(q) implies h2[q] == m0[q] && !out.contains(q) by { assert(h1.dom().contains(q)); }
    assert forall|q: usize| #[trigger] h2.dom().contains(q) <==> m0.dom().contains(q) || out.contains(q) by { assert(h1.dom().contains(q) <==> m0.dom().contains(q) || out1.contains(q)); }
    assert forall|i: int| 0 <= i < out.len() implies m0[ns[i]].first == (#[trigger] h2[out[i]]).first && m0[ns[i]].index_hint == h2[out[i]].index_hint by {
        if i < k { assert(out[i] == out1[i]); assert(m0[ns[i]].first == h1[out1[i]].first && m0[ns[i]].index_hint == h1[out1[i]].index_hint); }
    }
}
pub proof fn cp_start_lv(m0: Map<usize, listVector>, ns: Seq<usize>) ensures cp_lv(m0, ns, m0, 0, Seq::<usize>::empty()) {}
pub proof fn cp_end_lv(m0: Map<usize, listVector>, l0: usize, ns: Seq<usize>, m: Map<usize, listVector>, r: usize, out: Seq<usize>)
    requires cp_lv(m0, ns, m, r, out), chain_lv(m0, l0, ns), ns == nodes_lv(m0, l0), at(ns, out.len() as int) == 0
    ensures is_lv(m, r), ext_lv(m0, m, nodes_lv(m, r)), vals(m, r) == vals(m0, l0), submap(m0, m), grow_lv(m0, m), sep(lset(m, r), m0.dom())
{
    def_lv(m, r, out);
    assert(out.len() == ns.len()) by { if out.len() < ns.len() { assert(ns[out.len() as int] != 0); } }
    assert(vals(m, r) =~= vals(m0, l0)) by { assert forall|i: int| 0 <= i < ns.len() implies vals(m, r)[i] == vals(m0, l0)[i] by { assert(m0[ns[i]].first == m[out[i]].first); } }
    ext_sub(m0, m, out); all_sub(m0, m);
}

@fn lengthListVector(const listVector *) as lv_length heap
@requires is_lv(hp.listVector@, LIST), len32(nodes_lv(hp.listVector@, LIST).len())
@ensures ret == nodes_lv(hp.listVector@, LIST).len(), hp == hp0
@at before 0
  get_lv(hp.listVector@, LIST);
@invariant 0
  is_lv(hp.listVector@, LIST), len + nodes_lv(hp.listVector@, LIST).len() == nodes_lv(hp.listVector@, LIST0).len(), len >= 0
@loopdec 0 nodes_lv(hp.listVector@, LIST).len()
@at begin 0
  tail_lv(hp.listVector@, LIST);
@at after 0
  get_lv(hp.listVector@, LIST);

@fn appendVectorToListVector(const vec_ZZ &, listVector *) as lv_append heap
@ensures ret != 0, !hp0.listVector@.dom().contains(ret), others(hp, hp0)
@ensures hp.listVector@ =~= hp0.listVector@.insert(ret, listVector { first: v, rest: REST, index_hint: -1i32 })

@fn freeListVector(listVector *) as lv_free heap
@requires is_lv(hp.listVector@, p)
@ensures hp.listVector@ == hp0.listVector@.remove_keys(lset(hp0.listVector@, p)), others(hp, hp0), keeps(hp0.listVector@, hp.listVector@, lset(hp0.listVector@, p))
@invariant 0
  is_lv(hp.listVector@, p), lv_out(hp.listVector@, p) == lv_out(hp0.listVector@, p0), others(hp, hp0)
@loopdec 0 nodes_lv(hp.listVector@, p).len()
@at begin 0
  free_step_lv(hp.listVector@, p);
@at after 0
  free_end_lv(hp.listVector@); keeps_rem(old(hp).listVector@, lset(old(hp).listVector@, p0));

@fn copyListVector(listVector *) as lv_copy heap
@requires is_lv(hp.listVector@, l)
@ensures is_lv(hp.listVector@, ret), others(hp, hp0), ext_lv(hp0.listVector@, hp.listVector@, nodes_lv(hp.listVector@, ret))
@ensures vals(hp.listVector@, ret) == vals(hp0.listVector@, l), submap(hp0.listVector@, hp.listVector@), grow_lv(hp0.listVector@, hp.listVector@), sep(lset(hp.listVector@, ret), hp0.listVector@.dom())
@at ghost head
  hide(cp_lv); hide(is_lv); hide(nodes_lv); hide(vals); hide(lset); hide(chain_lv); hide(ext_lv); hide(grow_lv); hide(submap); hide(sep);
@at ghost entry
  let ghost m0 = hp.listVector@; let ghost ns = nodes_lv(m0, l); let ghost mut out = Seq::<usize>::empty();
  proof { get_lv(m0, l); cp_start_lv(m0, ns); reveal(chain_lv); }
@invariant 0
  cp_lv(m0, ns, hp.listVector@, result, out), l == at(ns, out.len() as int), others(hp, hp0),
  rest_p == (if out.len() == 0 { 0 } else { out.last() })
@loopdec 0 ns.len() - out.len()
@at ghost begin 0
  let ghost h1 = hp.listVector@; let ghost r1 = result; let ghost out1 = out;
  proof { cp_lv_use(m0, ns, h1, r1, out1); }
@at end 0
  cp_step_lv(m0, l0, ns, h1, r1, out1, hp.listVector@, result, rest_p);
  out = out1.push(rest_p);
@at after 0
  cp_end_lv(m0, l0, ns, hp.listVector@, result, out);

@rs
pub open spec fn grows(h: Hp, h2: Hp) -> bool { submap(h.listVector@, h2.listVector@) && submap(h.listCone@, h2.listCone@) && submap(h.Vertex@, h2.Vertex@) && submap(h.rationalVector@, h2.rationalVector@) }
pub ghost struct CV { pub coefficient: i32, pub determinant: Z, pub dual_determinant: Z, pub facet_divisors: Vc<Z>, pub lps: Vc<Z>, pub index_hint: i32, pub vertex: rationalVector, pub ehrhart: Vc<Z>,
    pub rays: Seq<(Vc<Z>, i32)>, pub facets: Seq<(Vc<Z>, i32)>, pub points: Seq<(Vc<Z>, i32)>, pub subspace: Seq<(Vc<Z>, i32)>, pub equalities: Seq<(Vc<Z>, i32)> }
pub open spec fn coneval(h: Hp, c: usize) -> CV { let k = h.listCone@[c]; let m = h.listVector@; CV { coefficient: k.coefficient, determinant: k.determinant, dual_determinant: k.dual_determinant,
    facet_divisors: k.facet_divisors, lps: k.lattice_points_scalar_products, index_hint: k.index_hint, vertex: h.rationalVector@[h.Vertex@[k.vertex].vertex], ehrhart: h.Vertex@[k.vertex].ehrhart_vertex,
    rays: vals(m, k.rays), facets: vals(m, k.facets), points: vals(m, k.latticePoints), subspace: vals(m, k.subspace_generators), equalities: vals(m, k.equalities) } }
pub open spec fn cone_lists(h: Hp, c: usize) -> bool { let k = h.listCone@[c]; let m = h.listVector@;
    h.listCone@.dom().contains(c) && is_lv(m, k.rays) && is_lv(m, k.facets) && is_lv(m, k.latticePoints) && is_lv(m, k.subspace_generators) && is_lv(m, k.equalities) }
pub open spec fn cone_wf(h: Hp, c: usize) -> bool { let k = h.listCone@[c];
    c != 0 && cone_lists(h, c) && k.vertex != 0 && h.Vertex@.dom().contains(k.vertex) && h.rationalVector@.dom().contains(h.Vertex@[k.vertex].vertex) }
// the vector lists of one cone do not share nodes
pub open spec fn cone_sep(h: Hp, c: usize) -> bool { let k = h.listCone@[c]; let m = h.listVector@;
    &&& sep(lset(m, k.rays), lset(m, k.facets)) && sep(lset(m, k.rays), lset(m, k.latticePoints)) && sep(lset(m, k.rays), lset(m, k.subspace_generators)) && sep(lset(m, k.rays), lset(m, k.equalities))
    &&& sep(lset(m, k.facets), lset(m, k.latticePoints)) && sep(lset(m, k.facets), lset(m, k.subspace_generators)) && sep(lset(m, k.facets), lset(m, k.equalities))
    &&& sep(lset(m, k.latticePoints), lset(m, k.subspace_generators)) && sep(lset(m, k.latticePoints), lset(m, k.equalities)) && sep(lset(m, k.subspace_generators), lset(m, k.equalities)) }
pub open spec fn lvset(h: Hp, c: usize) -> Set<usize> { let k = h.listCone@[c]; let m = h.listVector@;
    lset(m, k.rays).union(lset(m, k.facets)).union(lset(m, k.latticePoints)).union(lset(m, k.subspace_generators)).union(lset(m, k.equalities)) }
// cone c of h owns nothing that h0 already had
pub open spec fn cone_fresh(h0: Hp, h: Hp, c: usize) -> bool { let k = h.listCone@[c]; let m = h.listVector@;
    &&& !h0.listCone@.dom().contains(c) && !h0.Vertex@.dom().contains(k.vertex) && !h0.rationalVector@.dom().contains(h.Vertex@[k.vertex].vertex)
    &&& sep(lset(m, k.rays), h0.listVector@.dom()) && sep(lset(m, k.facets), h0.listVector@.dom()) && sep(lset(m, k.latticePoints), h0.listVector@.dom()) && sep(lset(m, k.subspace_generators), h0.listVector@.dom()) && sep(lset(m, k.equalities), h0.listVector@.dom()) }
pub proof fn grow_cone(h: Hp, h2: Hp, c: usize)
    requires grows(h, h2), cone_wf(h, c) ensures cone_wf(h2, c), coneval(h2, c) == coneval(h, c), cone_sep(h, c) ==> cone_sep(h2, c), lvset(h2, c) == lvset(h, c), h2.listCone@[c] == h.listCone@[c]
{ let k = h.listCone@[c]; let m = h.listVector@; let m2 = h2.listVector@; sub_lv(m, m2, k.rays); sub_lv(m, m2, k.facets); sub_lv(m, m2, k.latticePoints); sub_lv(m, m2, k.subspace_generators); sub_lv(m, m2, k.equalities); }

@fn createListCone() as lc_create heap
@ensures ret != 0, !hp0.listCone@.dom().contains(ret), hp.listCone@ =~= hp0.listCone@.insert(ret, hp.listCone@[ret])
@ensures hp.listVector@ == hp0.listVector@, hp.Vertex@ == hp0.Vertex@, hp.rationalVector@ == hp0.rationalVector@
@ensures ({ let k = hp.listCone@[ret]; k.coefficient == 1 && k.vertex == 0 && k.rays == 0 && k.facets == 0 && k.latticePoints == 0 && k.subspace_generators == 0 && k.equalities == 0 && k.rest == 0 && k.index_hint == -1 && k.determinant.v() == 0 && k.dual_determinant.v() == 0 && k.facet_divisors@.len() == 0 && k.lattice_points_scalar_products@.len() == 0 })

@fn lengthListCone(listCone *) as lc_length heap
@requires is_lc(hp.listCone@, LIST), len32(nodes_lc(hp.listCone@, LIST).len())
@ensures ret == nodes_lc(hp.listCone@, LIST).len(), hp == hp0
@at before 0
  get_lc(hp.listCone@, LIST);
@invariant 0
  is_lc(hp.listCone@, LIST), len + nodes_lc(hp.listCone@, LIST).len() == nodes_lc(hp.listCone@, LIST0).len(), len >= 0
@loopdec 0 nodes_lc(hp.listCone@, LIST).len()
@at begin 0
  tail_lc(hp.listCone@, LIST);
@at after 0
  get_lc(hp.listCone@, LIST);

@fn freeCone(listCone *) as lc_free1 heap
@requires cone != 0, cone_lists(hp, cone), cone_sep(hp, cone)
@requires ({ let v = hp.listCone@[cone].vertex; v != 0 ==> hp.Vertex@.dom().contains(v) && (hp.Vertex@[v].vertex != 0 ==> hp.rationalVector@.dom().contains(hp.Vertex@[v].vertex)) })
@ensures hp.listCone@ == hp0.listCone@.remove(cone), hp.listVector@ =~= hp0.listVector@.remove_keys(lvset(hp0, cone))
@ensures hp.Vertex@ =~= (if hp0.listCone@[cone].vertex == 0 { hp0.Vertex@ } else { hp0.Vertex@.remove(hp0.listCone@[cone].vertex) })
@ensures hp.rationalVector@ =~= (if hp0.listCone@[cone].vertex == 0 || hp0.Vertex@[hp0.listCone@[cone].vertex].vertex == 0 { hp0.rationalVector@ } else { hp0.rationalVector@.remove(hp0.Vertex@[hp0.listCone@[cone].vertex].vertex) })
@at ghost head
  hide(is_lv); hide(nodes_lv); hide(lset); hide(vals); hide(at); hide(chain_lv);

@fn ambient_cone_dimension(const listCone *) as lc_dim heap
@requires cone != 0 ==> cone_wf(hp, cone) && hp.rationalVector@[hp.Vertex@[hp.listCone@[cone].vertex].vertex].enumerator@.len() <= i32::MAX
@ensures ret == (if cone == 0 { 0 } else { coneval(hp, cone).vertex.enumerator@.len() as int }), hp == hp0

@fn appendListCones(listCone *, listCone *) as lc_append heap
@requires is_lc(hp.listCone@, A), is_lc(hp.listCone@, B), disj(nodes_lc(hp.listCone@, A), nodes_lc(hp.listCone@, B))
@ensures is_lc(hp.listCone@, ret), nodes_lc(hp.listCone@, ret) == nodes_lc(hp0.listCone@, A) + nodes_lc(hp0.listCone@, B)
@ensures hp.listVector@ == hp0.listVector@, hp.Vertex@ == hp0.Vertex@, hp.rationalVector@ == hp0.rationalVector@, hp.listCone@.dom() == hp0.listCone@.dom()
@ensures forall|q: usize| #[trigger] hp0.listCone@.dom().contains(q) ==> hp.listCone@[q] == (listCone { rest: hp.listCone@[q].rest, ..(hp0.listCone@[q]) })
@at ghost entry
  let ghost m0 = hp.listCone@; let ghost na = nodes_lc(m0, A); let ghost nb = nodes_lc(m0, B); let ghost mut gk: int = 0;
  proof { get_lc(m0, A); get_lc(m0, B); assert(A == 0 ==> na + nb =~= nb); if na.len() > 0 { assert(na[0] != 0); } }
@invariant 0
  0 <= gk < na.len(), C == na[gk], C != 0, hp.listCone@ == m0, m0.dom().contains(C), m0[C].rest == at(na, gk + 1), hp == hp0
@loopdec 0 na.len() - gk
@at end 0
  gk = gk + 1; assert(na[gk] != 0);
@at after /st_listCone/
  assert(gk == na.len() - 1) by { if gk + 1 < na.len() { assert(na[gk + 1] != 0); } }
  app_lc(m0, A, B, hp.listCone@, C);
@rs
pub proof fn app_disj(a: Seq<usize>, b: Seq<usize>) requires disj(a, b) ensures forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j] {}
pub proof fn app_lc(m0: Map<usize, listCone>, a: usize, b: usize, m: Map<usize, listCone>, c: usize)
    requires is_lc(m0, a), is_lc(m0, b), disj(nodes_lc(m0, a), nodes_lc(m0, b)), a != 0, c == nodes_lc(m0, a).last(), m == m0.insert(c, listCone { rest: b, ..m0[c] })
    ensures is_lc(m, a), nodes_lc(m, a) == nodes_lc(m0, a) + nodes_lc(m0, b)
{
    get_lc(m0, a); get_lc(m0, b); app_chain_lc(m0, a, b, nodes_lc(m0, a), nodes_lc(m0, b), m, c); def_lc(m, a, nodes_lc(m0, a) + nodes_lc(m0, b));
}
pub proof fn app_chain_lc(m0: Map<usize, listCone>, a: usize, b: usize, na: Seq<usize>, nb: Seq<usize>, m: Map<usize, listCone>, c: usize)
    requires chain_lc(m0, a, na), chain_lc(m0, b, nb), disj(na, nb), na.len() > 0, c == na.last(), m == m0.insert(c, listCone { rest: b, ..m0[c] }) ensures chain_lc(m, a, na + nb)
{
    hide(at); let n = na + nb;
    app_disj(na, nb);
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != 0 && m.dom().contains(n[i]) && m[n[i]].rest == at(n, i + 1) by {
        at_add(na, nb, i + 1);
        if i < na.len() { assert(na[i] != 0); assert(m0[na[i]].rest == at(na, i + 1)); if i + 1 < na.len() { assert(na[i] != na[na.len() - 1]); reveal(at); } }
        else { let j = i - na.len(); assert(nb[j] != 0); assert(na[na.len() - 1] != nb[j]); assert(m0[nb[j]].rest == at(nb, j + 1)); }
    }
    assert(n.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by {
        if i < na.len() { if j >= na.len() { assert(na[i] != nb[j - na.len()]); } } else if j < na.len() { assert(na[j] != nb[i - na.len()]); } } }
    at_add(na, nb, 0); reveal(at);
}
pub proof fn grow_cones(h: Hp, h2: Hp) requires grows(h, h2) ensures allcones(h, h2)
{ assert forall|c: usize| #[trigger] cone_wf(h, c) implies cone_wf(h2, c) && coneval(h2, c) == coneval(h, c) && (cone_sep(h, c) ==> cone_sep(h2, c)) by { grow_cone(h, h2, c); } }
pub open spec fn allcones(h: Hp, h2: Hp) -> bool { forall|c: usize| #[trigger] cone_wf(h, c) ==> cone_wf(h2, c) && coneval(h2, c) == coneval(h, c) && (cone_sep(h, c) ==> cone_sep(h2, c)) }

@fn copyCone(const listCone *) as lc_copy1 heap
@requires cone_wf(hp, cone)
@ensures ret != 0, hp.listCone@[ret].rest == 0, cone_wf(hp, ret), cone_sep(hp, ret), cone_fresh(hp0, hp, ret)
@ensures coneval(hp, ret) == coneval(hp0, cone)
@ensures grows(hp0, hp), allcones(hp0, hp)
@at ghost head
  hide(is_lv); hide(nodes_lv); hide(lset); hide(vals); hide(at); hide(chain_lv); hide(allcones); hide(ext_lv);
@at before /return/
  assert(grows(hp0, hp)); grow_cones(hp0, hp);

@rs
pub open spec fn cones_wf(h: Hp, l: usize) -> bool { is_lc(h.listCone@, l) && forall|i: int| 0 <= i < nodes_lc(h.listCone@, l).len() ==> cone_wf(h, #[trigger] nodes_lc(h.listCone@, l)[i]) }
pub open spec fn copied(h0: Hp, ns: Seq<usize>, h: Hp, out: Seq<usize>) -> bool {
    out.len() == ns.len() && forall|i: int| 0 <= i < ns.len() ==> #[trigger] coneval(h, out[i]) == coneval(h0, ns[i]) && cone_wf(h, out[i]) && cone_sep(h, out[i]) && cone_fresh(h0, h, out[i])
}
pub proof fn sub_lc(m: Map<usize, listCone>, m2: Map<usize, listCone>, p: usize)
    requires submap(m, m2), is_lc(m, p) ensures is_lc(m2, p), nodes_lc(m2, p) == nodes_lc(m, p)
{ get_lc(m, p); let ns = nodes_lc(m, p); assert forall|i: int| 0 <= i < ns.len() implies m2.dom().contains(#[trigger] ns[i]) && m2[ns[i]] == m[ns[i]] by { assert(ns[i] != 0); } frame_lc(m, m2, p); }
pub open spec fn setrest(h: Hp, h2: Hp, c: usize, r: usize) -> bool {
    h2.listVector@ == h.listVector@ && h2.Vertex@ == h.Vertex@ && h2.rationalVector@ == h.rationalVector@ && h.listCone@.dom().contains(c) && h2.listCone@ == h.listCone@.insert(c, listCone { rest: r, ..h.listCone@[c] })
}
pub proof fn copy_step(h0: Hp, cone: usize, h1: Hp, cp: usize, h2: Hp, r2: usize, h3: Hp)
    requires cones_wf(h0, cone), cone != 0, grows(h0, h1), cone_wf(h1, cp), cone_sep(h1, cp), cone_fresh(h0, h1, cp), coneval(h1, cp) == coneval(h0, cone), h1.listCone@.dom().contains(cp),
        grows(h1, h2), is_lc(h2.listCone@, r2), copied(h1, nodes_lc(h1.listCone@, h0.listCone@[cone].rest), h2, nodes_lc(h2.listCone@, r2)),
        setrest(h2, h3, cp, r2)
    ensures is_lc(h3.listCone@, cp), copied(h0, nodes_lc(h0.listCone@, cone), h3, nodes_lc(h3.listCone@, cp)), grows(h0, h3)
{
    tail_lc(h0.listCone@, cone); let q = h0.listCone@[cone].rest; sub_lc(h0.listCone@, h1.listCone@, q);
    let out2 = nodes_lc(h2.listCone@, r2); get_lc(h2.listCone@, r2);
    let t = nodes_lc(h0.listCone@, q);
    assert forall|i: int| 0 <= i < out2.len() implies h3.listCone@.dom().contains(#[trigger] out2[i]) && h3.listCone@[out2[i]] == h2.listCone@[out2[i]] by { assert(out2[i] != 0); assert(coneval(h2, out2[i]) == coneval(h1, t[i])); }
    frame_lc(h2.listCone@, h3.listCone@, r2);
    assert(!out2.contains(cp)) by { if out2.contains(cp) { let i = choose|i: int| 0 <= i < out2.len() && out2[i] == cp; assert(coneval(h2, out2[i]) == coneval(h1, t[i])); } }
    cons_lc(h3.listCone@, cp);
    let n = nodes_lc(h3.listCone@, cp); let n0 = nodes_lc(h0.listCone@, cone);
    assert(n =~= seq![cp] + out2); assert(n0 =~= seq![cone] + t);
    assert(grows(h0, h3)) by { assert forall|x: usize| #[trigger] h0.listCone@.dom().contains(x) implies h3.listCone@.dom().contains(x) && h3.listCone@[x] == h0.listCone@[x] by { assert(h1.listCone@.dom().contains(x)); assert(h2.listCone@.dom().contains(x)); }
        assert forall|x: usize| #[trigger] h0.listVector@.dom().contains(x) implies h3.listVector@.dom().contains(x) && h3.listVector@[x] == h0.listVector@[x] by { assert(h1.listVector@.dom().contains(x)); }
        assert forall|x: usize| #[trigger] h0.Vertex@.dom().contains(x) implies h3.Vertex@.dom().contains(x) && h3.Vertex@[x] == h0.Vertex@[x] by { assert(h1.Vertex@.dom().contains(x)); }
        assert forall|x: usize| #[trigger] h0.rationalVector@.dom().contains(x) implies h3.rationalVector@.dom().contains(x) && h3.rationalVector@[x] == h0.rationalVector@[x] by { assert(h1.rationalVector@.dom().contains(x)); } }
    assert forall|i: int| 0 <= i < n0.len() implies #[trigger] coneval(h3, n[i]) == coneval(h0, n0[i]) && cone_wf(h3, n[i]) && cone_sep(h3, n[i]) && cone_fresh(h0, h3, n[i]) by {
        if i == 0 {
            grow_cone(h1, h2, cp);
            let k = h1.listCone@[cp];
            assert(cone_fresh(h0, h3, cp)) by { assert(h2.listCone@[cp] == k); let m1 = h1.listVector@; let m2 = h2.listVector@;
                sub_lv(m1, m2, k.rays); sub_lv(m1, m2, k.facets); sub_lv(m1, m2, k.latticePoints); sub_lv(m1, m2, k.subspace_generators); sub_lv(m1, m2, k.equalities); }
        } else {
            let o = out2[i - 1]; let c0 = t[i - 1];
            assert(coneval(h2, o) == coneval(h1, c0));
            assert(n0[i] == c0); grow_cone(h0, h1, c0);
            assert(cone_fresh(h1, h2, o));
            fresh_mono(h0, h1, h2, o);
        }
    }
}
pub proof fn fresh_mono(h0: Hp, h1: Hp, h2: Hp, o: usize) requires grows(h0, h1), cone_fresh(h1, h2, o) ensures cone_fresh(h0, h2, o)
{
    assert(forall|x: usize| h0.listVector@.dom().contains(x) ==> h1.listVector@.dom().contains(x));
    assert(forall|x: usize| h0.listCone@.dom().contains(x) ==> h1.listCone@.dom().contains(x));
    assert(forall|x: usize| h0.Vertex@.dom().contains(x) ==> h1.Vertex@.dom().contains(x));
    assert(forall|x: usize| h0.rationalVector@.dom().contains(x) ==> h1.rationalVector@.dom().contains(x));
}
pub proof fn copy_end(h: Hp, ns: Seq<usize>) requires ns.len() == 0 ensures is_lc(h.listCone@, 0), copied(h, ns, h, nodes_lc(h.listCone@, 0)), grows(h, h)
{ let e = Seq::<usize>::empty(); assert(chain_lc(h.listCone@, 0, e)); def_lc(h.listCone@, 0, e); }
pub proof fn copy_pre(h0: Hp, cone: usize, h1: Hp) requires cones_wf(h0, cone), cone != 0
    ensures h0.listCone@.dom().contains(cone), cone_wf(h0, cone), nodes_lc(h0.listCone@, cone).len() > nodes_lc(h0.listCone@, h0.listCone@[cone].rest).len(), 
        grows(h0, h1) ==> cones_wf(h1, h0.listCone@[cone].rest) && nodes_lc(h1.listCone@, h0.listCone@[cone].rest) == nodes_lc(h0.listCone@, h0.listCone@[cone].rest)
{
    tail_lc(h0.listCone@, cone); let q = h0.listCone@[cone].rest; let n0 = nodes_lc(h0.listCone@, cone); assert(n0[0] == cone);
    if grows(h0, h1) { sub_lc(h0.listCone@, h1.listCone@, q); let t = nodes_lc(h0.listCone@, q);
        assert forall|i: int| 0 <= i < t.len() implies cone_wf(h1, #[trigger] t[i]) by { assert(n0[i + 1] == t[i]); grow_cone(h0, h1, t[i]); } }
}

pub proof fn copy_nil(h: Hp, l: usize) requires cones_wf(h, l), l == 0 ensures is_lc(h.listCone@, 0), copied(h, nodes_lc(h.listCone@, 0), h, nodes_lc(h.listCone@, 0)), grows(h, h)
{ get_lc(h.listCone@, l); copy_end(h, nodes_lc(h.listCone@, 0)); }
pub proof fn copy_pre2(h: Hp, c: usize) ensures cone_wf(h, c) ==> h.listCone@.dom().contains(c) && c != 0 {}
pub proof fn copy_pre3(h1: Hp, h2: Hp, c: usize) requires grows(h1, h2), h1.listCone@.dom().contains(c) ensures h2.listCone@.dom().contains(c), h2.listCone@[c] == h1.listCone@[c] {}

@fn copyListCone(const listCone *) as lc_copy heap
@requires cones_wf(hp, cone)
@ensures is_lc(hp.listCone@, ret), copied(hp0, nodes_lc(hp0.listCone@, cone), hp, nodes_lc(hp.listCone@, ret)), grows(hp0, hp)
@decreases nodes_lc(hp.listCone@, cone).len()
@at ghost head
  hide(copied); hide(cones_wf); hide(cone_wf); hide(cone_sep); hide(cone_fresh); hide(coneval); hide(allcones);
@at ghost entry
  let ghost h0 = hp; let ghost mut h1 = hp; let ghost mut h2 = hp; let ghost mut cp = 0usize; let ghost mut r2 = 0usize;
  proof { if cone == 0 { copy_nil(h0, cone); } else { copy_pre(h0, cone, h0); copy_pre2(h0, cone); } }
@at call lc_copy1
  h1 = hp; cp = $ret; copy_pre(h0, cone, h1); copy_pre2(h1, cp);
@at call lc_copy
  h2 = hp; r2 = $ret; copy_pre3(h1, h2, cp);
@at before /return copyList/
  copy_step(h0, cone, h1, cp, h2, r2, hp);

@source ramon.cpp
@fn createVector(int) as lv_createvec
@requires numOfVars >= 0
@ensures ret@.len() == numOfVars

@fn createListVector(vec_ZZ) as lv_create heap
@ensures ret != 0, !hp0.listVector@.dom().contains(ret), others(hp, hp0)
@ensures hp.listVector@ =~= hp0.listVector@.insert(ret, listVector { first: v, rest: 0, index_hint: -1i32 })

@fn removeListVector(listVector *) as lv_remove heap
@requires is_lv(hp.listVector@, p), p != 0
@ensures is_lv(hp.listVector@, p), others(hp, hp0), hp.listVector@[p].first == hp0.listVector@[p].first
@ensures nodes_lv(hp.listVector@, p) == (if nodes_lv(hp0.listVector@, p).len() < 2 { nodes_lv(hp0.listVector@, p) } else { nodes_lv(hp0.listVector@, p).remove(1) })
@ensures hp.listVector@ =~= (if nodes_lv(hp0.listVector@, p).len() < 2 { hp0.listVector@ } else { hp0.listVector@.insert(p, listVector { rest: at(nodes_lv(hp0.listVector@, p), 2), ..(hp0.listVector@[p]) }).remove(nodes_lv(hp0.listVector@, p)[1]) })
@at ghost entry
  let ghost m0 = hp.listVector@; let ghost ns = nodes_lv(m0, p);
  proof { get_lv(m0, p); assert(ns[0] == p); assert(m0[p].rest == at(ns, 1)); if ns.len() >= 2 { assert(ns[1] != 0); assert(m0[ns[1]].rest == at(ns, 2)); assert(ns[0] != ns[1]); } }
@at after /st_listVector/
  assert(hp.listVector@[p].rest == at(ns, 2));
@at exit
  if ns.len() >= 2 { rem2_lv(m0, p, hp.listVector@); }
@rs
pub proof fn rem2_lv(m0: Map<usize, listVector>, p: usize, m: Map<usize, listVector>)
    requires is_lv(m0, p), nodes_lv(m0, p).len() >= 2, m =~= m0.insert(p, listVector { rest: at(nodes_lv(m0, p), 2), ..m0[p] }).remove(nodes_lv(m0, p)[1])
    ensures is_lv(m, p), nodes_lv(m, p) == nodes_lv(m0, p).remove(1)
{
    get_lv(m0, p); let ns = nodes_lv(m0, p); let n = ns.remove(1);
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != 0 && m.dom().contains(n[i]) && m[n[i]].rest == at(n, i + 1) by {
        if i == 0 { assert(n[0] == ns[0]); assert(ns[0] != ns[1]); } else { assert(n[i] == ns[i + 1]); assert(ns[i + 1] != 0); assert(ns[i + 1] != ns[1]); assert(ns[i + 1] != ns[0]); assert(m0[ns[i + 1]].rest == at(ns, i + 2)); }
    }
    assert(n.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by {
        let a = if i == 0 { 0 } else { i + 1 }; let b = if j == 0 { 0 } else { j + 1 }; assert(ns[a] != ns[b]); } }
    assert(chain_lv(m, p, n)); def_lv(m, p, n);
}

@fn updateBasis(listVector *, listVector *) as lv_update heap
@requires v != 0, endBasis != 0, v != endBasis, hp.listVector@.dom().contains(v), hp.listVector@.dom().contains(endBasis)
@ensures ret == v, others(hp, hp0), hp.listVector@ =~= hp0.listVector@.insert(endBasis, listVector { rest: v, ..(hp0.listVector@[endBasis]) }).insert(v, listVector { rest: 0, ..(hp0.listVector@[v]) })

@rs
pub open spec fn eqn(a: Vc<Z>, b: Vc<Z>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] a@[i]).v() == b@[i].v() }
pub open spec fn in_lv(m: Map<usize, listVector>, p: usize, v: Vc<Z>, n: int) -> bool { exists|i: int| 0 <= i < nodes_lv(m, p).len() && eqn(v, (#[trigger] m[nodes_lv(m, p)[i]]).first, n) }
pub open spec fn long_lv(m: Map<usize, listVector>, p: usize, n: int) -> bool { forall|i: int| 0 <= i < nodes_lv(m, p).len() ==> (#[trigger] m[nodes_lv(m, p)[i]]).first@.len() >= n }
pub proof fn in_step(m: Map<usize, listVector>, p: usize, v: Vc<Z>, n: int)
    requires is_lv(m, p) ensures p == 0 ==> !in_lv(m, p, v, n), p != 0 ==> m.dom().contains(p) && is_lv(m, m[p].rest) && nodes_lv(m, p).len() == nodes_lv(m, m[p].rest).len() + 1 && (in_lv(m, p, v, n) <==> eqn(v, m[p].first, n) || in_lv(m, m[p].rest, v, n)), 
       p != 0 && long_lv(m, p, n) ==> m[p].first@.len() >= n && long_lv(m, m[p].rest, n)
{
    get_lv(m, p);
    if p != 0 { tail_lv(m, p); let a = nodes_lv(m, p); let t = nodes_lv(m, m[p].rest);
        assert(m[a[0]] == m[p]);
        if in_lv(m, p, v, n) { let i = choose|i: int| 0 <= i < a.len() && eqn(v, (#[trigger] m[a[i]]).first, n); if i > 0 { assert(m[t[i - 1]] == m[a[i]]); } }
        if in_lv(m, m[p].rest, v, n) { let i = choose|i: int| 0 <= i < t.len() && eqn(v, (#[trigger] m[t[i]]).first, n); assert(m[a[i + 1]] == m[t[i]]); }
        if long_lv(m, p, n) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] m[t[i]]).first@.len() >= n by { assert(m[a[i + 1]] == m[t[i]]); } }
    }
}

@fn isVectorEqualToVector(vec_ZZ, vec_ZZ, int) as v_eq
@requires numOfVars <= v@.len(), numOfVars <= w@.len()
@ensures ret == (if eqn(v, w, numOfVars as int) { 1int } else { 0 })
@invariant 0
  0 <= i, i <= numOfVars || numOfVars < 0, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).v() == w@[k].v()
@loopdec 0 numOfVars - i

@fn isVectorInListVector(vec_ZZ, listVector *, int) as lv_in3 heap
@requires is_lv(hp.listVector@, LIST), numOfVars <= v@.len(), long_lv(hp.listVector@, LIST, numOfVars as int)
@ensures ret == (if in_lv(hp.listVector@, LIST, v, numOfVars as int) { 1int } else { 0 }), hp == hp0
@invariant 0
  is_lv(hp.listVector@, LIST), in_lv(hp.listVector@, LIST0, v, numOfVars as int) == in_lv(hp.listVector@, LIST, v, numOfVars as int), long_lv(hp.listVector@, LIST, numOfVars as int)
@loopdec 0 nodes_lv(hp.listVector@, LIST).len()
@at begin 0
  in_step(hp.listVector@, LIST, v, numOfVars as int);
@at after 0
  in_step(hp.listVector@, LIST, v, numOfVars as int);

@fn isVectorInListVector(const vec_ZZ &, listVector *) as lv_in heap
@requires is_lv(hp.listVector@, list), v@.len() <= i32::MAX, long_lv(hp.listVector@, list, v@.len() as int)
@ensures ret == (if in_lv(hp.listVector@, list, v, v@.len() as int) { 1int } else { 0 }), hp == hp0
@invariant 0
  is_lv(hp.listVector@, tmp_list), in_lv(hp.listVector@, list, v, numOfVars as int) == in_lv(hp.listVector@, tmp_list, v, numOfVars as int), long_lv(hp.listVector@, tmp_list, numOfVars as int)
@loopdec 0 nodes_lv(hp.listVector@, tmp_list).len()
@at begin 0
  in_step(hp.listVector@, tmp_list, v, numOfVars as int);
@at after 0
  in_step(hp.listVector@, tmp_list, v, numOfVars as int);

@rs
pub open spec fn dim_lv(m: Map<usize, listVector>, p: usize, n: int) -> bool { forall|i: int| 0 <= i < nodes_lv(m, p).len() ==> (#[trigger] m[nodes_lv(m, p)[i]]).first@.len() == n }
pub open spec fn allin(m: Map<usize, listVector>, p: usize, q: usize) -> bool { forall|i: int| 0 <= i < nodes_lv(m, p).len() ==> in_lv(m, q, (#[trigger] m[nodes_lv(m, p)[i]]).first, m[nodes_lv(m, p)[i]].first@.len() as int) }
pub proof fn allin_step(m: Map<usize, listVector>, p: usize, q: usize, n: int)
    requires is_lv(m, p), dim_lv(m, p, n)
    ensures p == 0 ==> allin(m, p, q), p != 0 ==> m.dom().contains(p) && is_lv(m, m[p].rest) && dim_lv(m, m[p].rest, n) && m[p].first@.len() == n && nodes_lv(m, p).len() == nodes_lv(m, m[p].rest).len() + 1 && (allin(m, p, q) <==> in_lv(m, q, m[p].first, m[p].first@.len() as int) && allin(m, m[p].rest, q))
{
    get_lv(m, p);
    if p != 0 { tail_lv(m, p); let a = nodes_lv(m, p); let t = nodes_lv(m, m[p].rest); assert(m[a[0]] == m[p]);
      assert forall|i: int| 0 <= i < t.len() implies (#[trigger] m[t[i]]) == m[a[i + 1]] by {}
      assert(allin(m, p, q) ==> allin(m, m[p].rest, q));
      if allin(m, m[p].rest, q) && in_lv(m, q, m[p].first, m[p].first@.len() as int) { assert forall|i: int| 0 <= i < a.len() implies in_lv(m, q, (#[trigger] m[a[i]]).first, m[a[i]].first@.len() as int) by { if i > 0 { assert(m[t[i - 1]] == m[a[i]]); } } }
      assert forall|i: int| 0 <= i < t.len() implies (#[trigger] m[t[i]]).first@.len() == n by { assert(m[a[i + 1]] == m[t[i]]); } }
}

@fn isEqual(listVector *, listVector *) as lv_equal heap
@requires is_lv(hp.listVector@, first), is_lv(hp.listVector@, second), len32(nodes_lv(hp.listVector@, first).len()), len32(nodes_lv(hp.listVector@, second).len())
@requires nodes_lv(hp.listVector@, first).len() > 0 ==> exists|n: int| 0 <= n <= i32::MAX && dim_lv(hp.listVector@, first, n) && dim_lv(hp.listVector@, second, n)
@ensures ret == (if nodes_lv(hp.listVector@, first).len() == nodes_lv(hp.listVector@, second).len() && allin(hp.listVector@, first, second) { 1int } else { 0 }), hp == hp0
@at ghost head
  hide(is_lv); hide(nodes_lv); hide(chain_lv); hide(in_lv); hide(allin); hide(eqn);
@at ghost entry
  let ghost m = hp.listVector@;
  let ghost dn = choose|n: int| 0 <= n <= i32::MAX && dim_lv(m, first, n) && dim_lv(m, second, n);
  proof { if nodes_lv(m, first).len() == 0 { assert(dim_lv(m, first, dn)); } else { assert(dim_lv(m, second, dn) && 0 <= dn <= i32::MAX); } }
@invariant 0
  hp == hp0, hp.listVector@ == m, is_lv(m, tmp_list), dim_lv(m, tmp_list, dn), allin(m, first, second) == allin(m, tmp_list, second), nodes_lv(m, tmp_list).len() <= nodes_lv(m, first).len()
@loopdec 0 nodes_lv(m, tmp_list).len()
@at begin 0
  allin_step(m, tmp_list, second, dn);
  assert(nodes_lv(m, first).len() > 0);
  assert(long_lv(m, second, dn)) by { assert forall|i: int| 0 <= i < nodes_lv(m, second).len() implies (#[trigger] m[nodes_lv(m, second)[i]]).first@.len() >= dn by { assert(m[nodes_lv(m, second)[i]].first@.len() == dn); } }
@at after 0
  allin_step(m, tmp_list, second, dn);
@end
