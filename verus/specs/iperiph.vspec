@@ crate ibcx_interface
@@ file periphery.rs
@@ raw
pub open spec fn hop_of(s: Seq<char>, r: SwapRoute) -> bool { parses_to(splitc(s, ',').first(), r.pool_id as int) && r.token_denom@ == splitc(s, ',').last() }
pub open spec fn swap_info_of(a: SwapInfoCompact, r: SwapInfo) -> bool {
    ((r.0).0.0).0@ == splitc(a.key@, ',').first() && ((r.0).0.0).1@ == splitc(a.key@, ',').last() && (r.0).1.0@.len() == a.routes@.len()
        && forall|i: int| 0 <= i < a.routes@.len() ==> #[trigger] hop_of(a.routes@[i]@, (r.0).1.0@[i])
}
pub open spec fn mentions(s: Seq<SwapInfo>, id: u64) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < ((s[i].0).1).0@.len() && #[trigger] (((s[i].0).1).0@[j]).pool_id == id }
pub open spec fn ids_in(r: SwapRoutes) -> Seq<u64> { r.0@.map_values(|x: SwapRoute| x.pool_id) }
pub open spec fn ids_flat(infos: Seq<SwapInfo>, m: Seq<VxIter<u64>>) -> bool { m.len() == infos.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i]@ =~= ids_in((infos[i].0).1) }
pub open spec fn ids_set(infos: Seq<SwapInfo>, p: Seq<u64>) -> bool { p.no_duplicates() && forall|id: u64| p.contains(id) <==> #[trigger] mentions(infos, id) }
pub proof fn lemma_join_has(infos: Seq<SwapInfo>, m: Seq<VxIter<u64>>, id: u64)
    requires ids_flat(infos, m),
    ensures vx_join(m).contains(id) <==> mentions(infos, id),
    decreases m.len(),
{
    if m.len() == 0 { } else {
        let im = infos.drop_last(); let n = (m.len() - 1) as int; let last = ids_in((infos[n].0).1);
        lemma_join_has(im, m.drop_last(), id);
        let a = vx_join(m.drop_last()); let b = m.last().vx_seq();
        assert(b =~= last);
        assert(vx_join(m) == a + b);
        if (a + b).contains(id) {
            let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == id;
            if k < a.len() { assert(a[k] == id); assert(a.contains(id)); let (i, j) = choose|i: int, j: int| 0 <= i < im.len() && 0 <= j < ((im[i].0).1).0@.len() && #[trigger] (((im[i].0).1).0@[j]).pool_id == id; assert((((infos[i].0).1).0@[j]).pool_id == id); }
            else { let j = k - a.len(); assert(b[j] == id); assert((((infos[n].0).1).0@[j]).pool_id == id); }
        }
        if mentions(infos, id) {
            let (i, j) = choose|i: int, j: int| 0 <= i < infos.len() && 0 <= j < ((infos[i].0).1).0@.len() && #[trigger] (((infos[i].0).1).0@[j]).pool_id == id;
            if i < n { assert((((im[i].0).1).0@[j]).pool_id == id); assert(mentions(im, id)); let k = choose|k: int| 0 <= k < a.len() && a[k] == id; assert((a + b)[k] == id); }
            else { assert(last[j] == id); assert(b[j] == id); assert((a + b)[a.len() + j] == id); }
        }
    }
}
pub proof fn lemma_ids_collected(infos: Seq<SwapInfo>, m: Seq<VxIter<u64>>, s: HashSet<u64>)
    requires ids_flat(infos, m), <HashSet<u64> as VxCollect<u64>>::collects(vx_join(m), s),
    ensures ids_set(infos, s.order()),
{
    crate::vxstd::ax_hashset(s);
    let ks = crate::vxstd::vx_keysof(s.order());
    assert(ks =~= s.order());
    let js = vx_join(m).map_values(|k: u64| crate::vxstd::VxKey::vx_k(&k));
    assert(js =~= vx_join(m));
    assert forall|id: u64| s.order().contains(id) <==> #[trigger] mentions(infos, id) by { lemma_join_has(infos, m, id); assert(ks.to_set().contains(id) <==> js.to_set().contains(id)); }
}
pub proof fn lemma_ids_sorted(infos: Seq<SwapInfo>, p: Seq<u64>, q: Seq<u64>)
    requires ids_set(infos, p), vx_perm(p, q), forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] <= q[j],
    ensures ids_set(infos, q), forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j],
{
    let w = choose|w: Seq<int>| #[trigger] vx_perm_by(p, q, w);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { assert(q[i] == p[w[i]] && q[j] == p[w[j]]); assert(w[i] != w[j]); }
    assert forall|id: u64| q.contains(id) <==> #[trigger] mentions(infos, id) by {
        if q.contains(id) { let k = choose|k: int| 0 <= k < q.len() && q[k] == id; assert(p[w[k]] == id); assert(p.contains(id)); }
        if p.contains(id) { let k = choose|k: int| 0 <= k < p.len() && p[k] == id; vx_perm_onto(p, q, w, k); let i = choose|i: int| 0 <= i < w.len() && w[i] == k; assert(q[i] == p[k]); }
    }
}
pub proof fn vx_perm_onto(p: Seq<u64>, q: Seq<u64>, w: Seq<int>, k: int)
    requires vx_perm_by(p, q, w), 0 <= k < p.len(),
    ensures exists|i: int| 0 <= i < w.len() && w[i] == k,
{
    if forall|i: int| 0 <= i < w.len() ==> w[i] != k {
        let ws = w.to_set(); let full = vstd::set_lib::set_int_range(0, p.len() as int);
        w.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, p.len() as int);
        assert(ws.subset_of(full.remove(k))) by { assert forall|x: int| ws.contains(x) implies full.remove(k).contains(x) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; } }
        vstd::set_lib::lemma_len_subset(ws, full.remove(k));
    }
}
@@ fn extract_pool_ids(swap_info)
@props T01
@ens[T01] forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j]
@ens[T01] forall|id: u64| r@.contains(id) <==> #[trigger] mentions(swap_info@, id)
@closure flat_map.0 |v: SwapInfo| -> (q: VxIter<u64>) ensures q@ =~= ids_in((v.0).1)
@closure map.0 |r: SwapRoute| -> (q: u64) ensures q == r.pool_id
@start let ghost si0 = swap_info@;
@tail {
    let (m, s) = choose|m: Seq<VxIter<u64>>, s: HashSet<u64>| #![trigger vx_join(m), s.order()] ids_flat(si0, m) && <HashSet<u64> as VxCollect<u64>>::collects(vx_join(m), s) && vx_perm(s.order(), $r@);
    assert(ids_flat(si0, m) && <HashSet<u64> as VxCollect<u64>>::collects(vx_join(m), s) && vx_perm(s.order(), $r@));
    lemma_ids_collected(si0, m, s); lemma_ids_sorted(si0, s.order(), $r@);
}
@@ fn SwapInfoCompact::new(key, routes)
@props T01
@ens[T01] r.key@ == key@ && r.routes@.len() == routes@.len() && forall|i: int| 0 <= i < routes@.len() ==> (#[trigger] r.routes@[i])@ == routes@[i]@
@closure map.0 |v: &&str| -> (q: String) ensures q@ == v@
@@ implraw SwapInfo@From<SwapInfoCompact>
open spec fn vx_from_spec(a: SwapInfoCompact, r: Self) -> bool { swap_info_of(a, r) }
@@ fn SwapInfo@From<SwapInfoCompact>::from(v)
@props T01
@closure map.0 |v: String| -> (q: SwapRoute) ensures hop_of(v@, q)
@@ implraw Vec<SwapInfo>@From<SwapInfosCompact>
open spec fn vx_from_spec(a: SwapInfosCompact, r: Self) -> bool { r@.len() == a.0@.len() && forall|i: int| 0 <= i < r@.len() ==> #[trigger] swap_info_of(a.0@[i], r@[i]) }
@@ fn Vec<SwapInfo>@From<SwapInfosCompact>::from(vs)
@props T01
@closure map.0 |v: SwapInfoCompact| -> (q: SwapInfo) ensures swap_info_of(v, q)
@@ fn SwapInfosCompact::new(infos)
@props T01
@ens[T01] r.0@.len() == infos@.len() && forall|i: int| 0 <= i < infos@.len() ==> (#[trigger] r.0@[i]).key@ == infos@[i].0@ && r.0@[i].routes@.len() == infos@[i].1@.len() && forall|j: int| 0 <= j < infos@[i].1@.len() ==> (#[trigger] r.0@[i].routes@[j])@ == infos@[i].1@[j]@
@closure map.0 |vx_c0: &(&str, &[&str])| -> (q: SwapInfoCompact) ensures q.key@ == vx_c0.0@ && q.routes@.len() == vx_c0.1@.len() && forall|j: int| 0 <= j < vx_c0.1@.len() ==> (#[trigger] q.routes@[j])@ == vx_c0.1@[j]@
