verus! {
// L01 as theorems over what the listing queries answer (listed_s / listed_u / listed_f and page_len): a page that
// starts behind an entry is the rest of the full listing, and following the cursor shows every entry exactly once.
pub mod lthm {
use vstd::prelude::*;
use crate::cs::*;
use crate::vx::*;
use crate::cosmwasm_std::Order;
broadcast use crate::vx::ax_str_lt_total;

pub open spec fn before_s(asc: bool, a: Seq<char>, b: Seq<char>) -> bool { if asc { str_lt(a, b) } else { str_lt(b, a) } }
pub open spec fn ordered_s(asc: bool, s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> before_s(asc, s[i], s[j]) }
pub open spec fn before_u(asc: bool, a: u64, b: u64) -> bool { if asc { a < b } else { b < a } }
pub open spec fn ordered_u(asc: bool, s: Seq<u64>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> before_u(asc, s[i], s[j]) }
// strictly ordered lists with the same members are the same list
proof fn l_same_s(asc: bool, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires ordered_s(asc, a), ordered_s(asc, b), forall|k: Seq<char>| #[trigger] a.contains(k) <==> b.contains(k)
    ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a[0])); assert(b.contains(a[0]));
        assert(b.contains(b[0])); assert(a.contains(b[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        if a[0] != b[0] { assert(before_s(asc, b[0], b[j])); assert(before_s(asc, a[0], a[i])); assert(false); }
        let x = a.skip(1); let y = b.skip(1);
        assert(ordered_s(asc, x)) by { assert forall|p: int, q: int| #![trigger x[p], x[q]] 0 <= p < q < x.len() implies before_s(asc, x[p], x[q]) by { assert(before_s(asc, a[p + 1], a[q + 1])); } }
        assert(ordered_s(asc, y)) by { assert forall|p: int, q: int| #![trigger y[p], y[q]] 0 <= p < q < y.len() implies before_s(asc, y[p], y[q]) by { assert(before_s(asc, b[p + 1], b[q + 1])); } }
        assert forall|k: Seq<char>| #[trigger] x.contains(k) <==> y.contains(k) by {
            if x.contains(k) { let p = choose|p: int| 0 <= p < x.len() && x[p] == k; assert(a[p + 1] == k); assert(a.contains(k)); assert(before_s(asc, a[0], a[p + 1]));
                let q = choose|q: int| 0 <= q < b.len() && b[q] == k; assert(q != 0); assert(y[q - 1] == k); }
            if y.contains(k) { let p = choose|p: int| 0 <= p < y.len() && y[p] == k; assert(b[p + 1] == k); assert(b.contains(k)); assert(before_s(asc, b[0], b[p + 1]));
                assert(a.contains(k)); let q = choose|q: int| 0 <= q < a.len() && a[q] == k; assert(q != 0); assert(x[q - 1] == k); }
        }
        l_same_s(asc, x, y);
        assert(a =~= seq![a[0]] + x); assert(b =~= seq![b[0]] + y);
    }
}
proof fn l_same_u(asc: bool, a: Seq<u64>, b: Seq<u64>)
    requires ordered_u(asc, a), ordered_u(asc, b), forall|k: u64| #[trigger] a.contains(k) <==> b.contains(k)
    ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a[0])); assert(b.contains(a[0]));
        assert(b.contains(b[0])); assert(a.contains(b[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        if a[0] != b[0] { assert(before_u(asc, b[0], b[j])); assert(before_u(asc, a[0], a[i])); assert(false); }
        let x = a.skip(1); let y = b.skip(1);
        assert(ordered_u(asc, x)) by { assert forall|p: int, q: int| #![trigger x[p], x[q]] 0 <= p < q < x.len() implies before_u(asc, x[p], x[q]) by { assert(before_u(asc, a[p + 1], a[q + 1])); } }
        assert(ordered_u(asc, y)) by { assert forall|p: int, q: int| #![trigger y[p], y[q]] 0 <= p < q < y.len() implies before_u(asc, y[p], y[q]) by { assert(before_u(asc, b[p + 1], b[q + 1])); } }
        assert forall|k: u64| #[trigger] x.contains(k) <==> y.contains(k) by {
            if x.contains(k) { let p = choose|p: int| 0 <= p < x.len() && x[p] == k; assert(a[p + 1] == k); assert(a.contains(k)); assert(before_u(asc, a[0], a[p + 1]));
                let q = choose|q: int| 0 <= q < b.len() && b[q] == k; assert(q != 0); assert(y[q - 1] == k); }
            if y.contains(k) { let p = choose|p: int| 0 <= p < y.len() && y[p] == k; assert(b[p + 1] == k); assert(b.contains(k)); assert(before_u(asc, b[0], b[p + 1]));
                assert(a.contains(k)); let q = choose|q: int| 0 <= q < a.len() && a[q] == k; assert(q != 0); assert(x[q - 1] == k); }
        }
        l_same_u(asc, x, y);
        assert(a =~= seq![a[0]] + x); assert(b =~= seq![b[0]] + y);
    }
}
pub open spec fn cur_lo<K>(asc: bool, c: K) -> Option<(K, bool)> { if asc { Some((c, true)) } else { None } }
pub open spec fn cur_hi<K>(asc: bool, c: K) -> Option<(K, bool)> { if asc { None } else { Some((c, true)) } }
// the listing behind the n-th entry of the whole listing is the rest of it
pub proof fn l01_rest_s(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(Seq<char>) -> VKey, o: Order, all: Seq<Seq<char>>, n: int, ks: Seq<Seq<char>>)
    requires listed_s(st, key, None, None, o, all), 1 <= n <= all.len(), listed_s(st, key, cur_lo(o is Ascending, all[n - 1]), cur_hi(o is Ascending, all[n - 1]), o, ks)
    ensures ks == all.skip(n)
{
    let asc = o is Ascending; let c = all[n - 1]; let rest = all.skip(n);
    assert(ordered_s(asc, ks)); assert(ordered_s(asc, all));
    assert(ordered_s(asc, rest)) by { assert forall|p: int, q: int| #![trigger rest[p], rest[q]] 0 <= p < q < rest.len() implies before_s(asc, rest[p], rest[q]) by { assert(before_s(asc, all[p + n], all[q + n])); } }
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> rest.contains(k) by {
        if ks.contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(st.dom().contains(key(ks[i]))); assert(before_s(asc, c, k));
            assert(all.contains(k)); let j = choose|j: int| 0 <= j < all.len() && all[j] == k;
            if j < n - 1 { assert(before_s(asc, all[j], all[n - 1])); }
            assert(j >= n); assert(rest[j - n] == k);
        }
        if rest.contains(k) {
            let j = choose|j: int| 0 <= j < rest.len() && rest[j] == k; assert(all[j + n] == k);
            assert(st.dom().contains(key(all[j + n]))); assert(before_s(asc, all[n - 1], all[j + n]));
        }
    }
    l_same_s(asc, ks, rest);
}
pub proof fn l01_rest_u(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(u64) -> VKey, o: Order, all: Seq<u64>, n: int, ks: Seq<u64>)
    requires listed_u(st, key, None, None, o, all), 1 <= n <= all.len(), listed_u(st, key, cur_lo(o is Ascending, all[n - 1]), cur_hi(o is Ascending, all[n - 1]), o, ks)
    ensures ks == all.skip(n)
{
    let asc = o is Ascending; let c = all[n - 1]; let rest = all.skip(n);
    assert(ordered_u(asc, ks)); assert(ordered_u(asc, all));
    assert(ordered_u(asc, rest)) by { assert forall|p: int, q: int| #![trigger rest[p], rest[q]] 0 <= p < q < rest.len() implies before_u(asc, rest[p], rest[q]) by { assert(before_u(asc, all[p + n], all[q + n])); } }
    assert forall|k: u64| #[trigger] ks.contains(k) <==> rest.contains(k) by {
        if ks.contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(st.dom().contains(key(ks[i]))); assert(before_u(asc, c, k));
            assert(all.contains(k)); let j = choose|j: int| 0 <= j < all.len() && all[j] == k;
            if j < n - 1 { assert(before_u(asc, all[j], all[n - 1])); }
            assert(j >= n); assert(rest[j - n] == k);
        }
        if rest.contains(k) {
            let j = choose|j: int| 0 <= j < rest.len() && rest[j] == k; assert(all[j + n] == k);
            assert(st.dom().contains(key(all[j + n]))); assert(before_u(asc, all[n - 1], all[j + n]));
        }
    }
    l_same_u(asc, ks, rest);
}
pub proof fn l01_rest_f<T>(st: vstd::prelude::Map<VKey, Val>, ns: Seq<char>, f: spec_fn(T) -> bool, o: Order, all: Seq<u64>, n: int, ks: Seq<u64>)
    requires listed_f::<T>(st, ns, f, None, None, o, all), 1 <= n <= all.len(), listed_f::<T>(st, ns, f, cur_lo(o is Ascending, all[n - 1]), cur_hi(o is Ascending, all[n - 1]), o, ks)
    ensures ks == all.skip(n)
{
    let asc = o is Ascending; let c = all[n - 1]; let rest = all.skip(n);
    assert(ordered_u(asc, ks)); assert(ordered_u(asc, all));
    assert(ordered_u(asc, rest)) by { assert forall|p: int, q: int| #![trigger rest[p], rest[q]] 0 <= p < q < rest.len() implies before_u(asc, rest[p], rest[q]) by { assert(before_u(asc, all[p + n], all[q + n])); } }
    assert forall|k: u64| #[trigger] ks.contains(k) <==> rest.contains(k) by {
        if ks.contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(sel::<T>(st, ns, f, ks[i])); assert(before_u(asc, c, k));
            assert(all.contains(k)); let j = choose|j: int| 0 <= j < all.len() && all[j] == k;
            if j < n - 1 { assert(before_u(asc, all[j], all[n - 1])); }
            assert(j >= n); assert(rest[j - n] == k);
        }
        if rest.contains(k) {
            let j = choose|j: int| 0 <= j < rest.len() && rest[j] == k; assert(all[j + n] == k);
            assert(sel::<T>(st, ns, f, all[j + n])); assert(before_u(asc, all[n - 1], all[j + n]));
        }
    }
    l_same_u(asc, ks, rest);
}
// pages: what a client sees that asks with limit l, then always behind the last entry it was shown
pub open spec fn walk<K>(all: Seq<K>, l: int, shown: int, pages: Seq<Seq<K>>) -> bool decreases pages.len() {
    if pages.len() == 0 { true } else { pages[0] == all.skip(shown).take(if l <= all.len() - shown { l } else { all.len() - shown }) && walk(all, l, shown + pages[0].len(), pages.skip(1)) }
}
pub open spec fn joined<K>(pages: Seq<Seq<K>>) -> Seq<K> decreases pages.len() { if pages.len() == 0 { Seq::empty() } else { pages[0] + joined(pages.skip(1)) } }
// after enough pages the client has seen the whole listing, in order, each entry once
pub proof fn l01_walk<K>(all: Seq<K>, l: int, shown: int, pages: Seq<Seq<K>>)
    requires l >= 1, 0 <= shown <= all.len(), walk(all, l, shown, pages), pages.len() * l >= all.len() - shown
    ensures joined(pages) == all.skip(shown) decreases pages.len()
{
    if pages.len() == 0 { assert(all.skip(shown) =~= Seq::<K>::empty()); }
    else {
        let p = pages[0]; let k = if l <= all.len() - shown { l } else { all.len() - shown };
        assert(p.len() == k);
        assert((pages.len() - 1) * l == pages.len() * l - l) by(nonlinear_arith);
        if l > all.len() - shown { assert((pages.len() - 1) * l >= 0) by(nonlinear_arith) requires pages.len() >= 1, l >= 1; }
        l01_walk(all, l, shown + k, pages.skip(1));
        assert(p + all.skip(shown + k) =~= all.skip(shown));
    }
}
}
}
