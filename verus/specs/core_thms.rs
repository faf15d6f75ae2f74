verus! {
// The listed properties as theorems over the contracts of the entry points.
pub mod thm {
use vstd::prelude::*;
use crate::vx::*;
use crate::cs::*;
use crate::cosmwasm_std::{Decimal, Uint128, QuerierWrapper};
use crate::ibcx_core::state::*;
use crate::ibcx_interface::core::{ExecuteMsg, GovMsg, RebalanceMsg, RebalanceTradeMsg, QueryMsg, SimulateMintResponse, SimulateBurnResponse};

// ---------- obligations, in 1e-18 tokens
pub open spec fn fees_held(st: St, d: Seq<char>) -> int { match s_fee(st).streaming_fee { Some(s) => ct(coinsv(s.collected@), d), None => 0 } }
pub open spec fn in_reserve(st: St, d: Seq<char>) -> int { if s_rebon(st) && d == s_cfg(st).reserve_denom@ { usum(s_res(st)) } else { 0 } }
pub open spec fn owed(st: St, d: Seq<char>) -> int { (ut(s_idx(st), d) + in_reserve(st, d)) * s_sup(st) + fees_held(st, d) * e18() }

// ---------- flows of tokens `d` caused by one message; a swap exchanges the pair it was set up for
pub open spec fn msg_flow(m: MsgV, d: Seq<char>, from: Seq<char>, to: Seq<char>, x: int) -> bool {
    match m {
        MsgV::Send { to: _, amount } => x == -ct(amount, d),
        MsgV::SwapOut { sender, routes, max, tout } => exists|n: int, k: int| max == #[trigger] int_str(n) && tout == #[trigger] oc(to, k) && x == (if d == from { -n } else { 0int }) + (if d == to { k } else { 0int }),
        MsgV::SwapIn { sender, routes, tin, min } => exists|n: int, k: int| min == #[trigger] int_str(n) && tin == #[trigger] oc(from, k) && x == (if d == from { -k } else { 0int }) + (if d == to { n } else { 0int }),
        _ => x == 0,
    }
}
pub open spec fn isum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() } }
pub open spec fn flows_are(ms: Seq<MsgV>, d: Seq<char>, from: Seq<char>, to: Seq<char>, xs: Seq<int>) -> bool { xs.len() == ms.len() && forall|i: int| 0 <= i < ms.len() ==> msg_flow(ms[i], d, from, to, #[trigger] xs[i]) }
// the pair a trade is for
pub open spec fn pair_of(st: St, m: ExecuteMsg) -> (Seq<char>, Seq<char>) {
    match m {
        ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { target_denom, .. })) => (target_denom@, s_cfg(st).reserve_denom@),
        ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { target_denom, .. })) => (s_cfg(st).reserve_denom@, target_denom@),
        _ => (Seq::empty(), Seq::empty()),
    }
}
// payments in tokens and messages out cover the change of the obligations
pub open spec fn covered_change(st0: St, st1: St, funds: Seq<CoinV>, ms: Seq<MsgV>, d: Seq<char>, p: (Seq<char>, Seq<char>)) -> bool {
    exists|xs: Seq<int>| #[trigger] flows_are(ms, d, p.0, p.1, xs) && owed(st1, d) - owed(st0, d) <= (ct(funds, d) + isum(xs)) * e18()
}

// ---------- sums
pub proof fn l_nonneg_view(u: Units) ensures nonneg(u@), forall|d: Seq<char>| #[trigger] ut(u@, d) >= 0, usum(u@) >= 0
{
    assert forall|d: Seq<char>| #[trigger] ut(u@, d) >= 0 by { l_ut_nonneg(u@, d); }
    l_usum_nonneg(u@);
}
pub proof fn l_ut_nonneg(s: U, d: Seq<char>) requires nonneg(s) ensures ut(s, d) >= 0 decreases s.len() { if s.len() > 0 { assert(s[s.len() - 1].1 >= 0); l_ut_nonneg(s.drop_last(), d); } }
pub proof fn l_usum_nonneg(s: U) requires nonneg(s) ensures usum(s) >= 0 decreases s.len() { if s.len() > 0 { assert(s[s.len() - 1].1 >= 0); l_usum_nonneg(s.drop_last()); } }
pub proof fn l_ct_coins_nonneg(s: Seq<Coin>, d: Seq<char>) ensures ct(coinsv(s), d) >= 0 decreases s.len() { if s.len() > 0 { l_ct_coins_nonneg(s.drop_last(), d); assert(coinsv(s).drop_last() =~= coinsv(s.drop_last())); } }
// the charge for `n` tokens covers their share of every asset
pub proof fn l_charges(s: U, n: int, d: Seq<char>) requires nonneg(s), n >= 0 ensures ct(charges(s, n), d) * e18() >= n * ut(s, d) decreases s.len()
{
    if s.len() > 0 {
        l_charges(s.drop_last(), n, d);
        let u = s.last().1; let c = charge(u, n);
        assert(s[s.len() - 1].1 >= 0);
        assert(charges(s, n).drop_last() =~= charges(s.drop_last(), n));
        l_ceil_up(u, n);
        let a = ct(charges(s.drop_last(), n), d); let b = ut(s.drop_last(), d);
        assert((a + c) * e18() == a * e18() + c * e18()) by(nonlinear_arith);
        assert(n * (b + u) == n * b + n * u) by(nonlinear_arith);
    }
}
pub proof fn l_ceil_up(u: int, n: int) requires u >= 0, n >= 0 ensures charge(u, n) * e18() >= n * u, charge(u, n) >= 1
{ let e = e18(); let p = n * u; assert(p == e * (p / e) + p % e && 0 <= p % e < e) by(nonlinear_arith) requires e > 0; let c = mceil(n, u, e); assert(c * e >= p) by(nonlinear_arith) requires p == e * (p / e) + p % e, p % e < e, c == (if p % e == 0 { p / e } else { p / e + 1 }); assert(charge(u, n) >= c); assert(charge(u, n) * e >= c * e) by(nonlinear_arith) requires charge(u, n) >= c, e > 0; }
// what is paid for `n` tokens is at most their share of every asset
pub proof fn l_pays(s: U, n: int, d: Seq<char>) requires nonneg(s), n >= 0 ensures ct(pays(s, n), d) * e18() <= n * ut(s, d) decreases s.len()
{
    if s.len() > 0 {
        l_pays(s.drop_last(), n, d);
        let u = s.last().1; let c = pay(u, n);
        assert(s[s.len() - 1].1 >= 0);
        assert(pays(s, n).drop_last() =~= pays(s.drop_last(), n));
        l_floor_down(n, u, e18());
        let a = ct(pays(s.drop_last(), n), d); let b = ut(s.drop_last(), d);
        assert((a + c) * e18() == a * e18() + c * e18()) by(nonlinear_arith);
        assert(n * (b + u) == n * b + n * u) by(nonlinear_arith);
    }
}
pub proof fn l_floor_down(a: int, b: int, c: int) requires c > 0 ensures mfloor(a, b, c) * c <= a * b { let p = a * b; assert(p == c * (p / c) + p % c && 0 <= p % c) by(nonlinear_arith) requires c > 0; assert(c * (p / c) == (p / c) * c) by(nonlinear_arith); }
pub proof fn l_ceil_over(a: int, b: int, c: int) requires c > 0 ensures mceil(a, b, c) * c >= a * b
{ let p = a * b; assert(p == c * (p / c) + p % c && 0 <= p % c < c) by(nonlinear_arith) requires c > 0; let q = mceil(a, b, c); assert(q * c >= p) by(nonlinear_arith) requires p == c * (p / c) + p % c, p % c < c, c > 0, q == (if p % c == 0 { p / c } else { p / c + 1 }); }
// the fees that accrue are at most the units given up
pub proof fn l_fees(s: U, rate: int, sup: int, d: Seq<char>) requires nonneg(s), rate >= 0, sup >= 0
    ensures ct(fees_of(s, rate, sup), d) * e18() <= sup * (ut(s, d) - ut(units_left(s, rate), d)) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        l_fees(t, rate, sup, d);
        let u = s.last().1; let f = fee_unit(u, rate); let c = pay(f, sup);
        assert(fees_of(s, rate, sup).drop_last() =~= fees_of(t, rate, sup));
        assert(units_left(s, rate).drop_last() =~= units_left(t, rate));
        l_floor_down(sup, f, e18());
        let a = ct(fees_of(t, rate, sup), d); let b = ut(t, d) - ut(units_left(t, rate), d);
        assert((a + c) * e18() == a * e18() + c * e18()) by(nonlinear_arith);
        assert(sup * (b + f) == sup * b + sup * f) by(nonlinear_arith);
    }
}
pub proof fn l_ct_remove(s: Seq<CoinV>, j: int, d: Seq<char>) requires 0 <= j < s.len() ensures ct(s.remove(j), d) == ct(s, d) - if s[j].denom == d { s[j].amount } else { 0 } decreases s.len()
{
    if j == s.len() - 1 { assert(s.remove(j) =~= s.drop_last()); }
    else { l_ct_remove(s.drop_last(), j, d); assert(s.remove(j).drop_last() =~= s.drop_last().remove(j)); assert(s.remove(j).last() == s.last()); }
}
pub proof fn l_ct_perm(a: Seq<CoinV>, b: Seq<CoinV>, p: Seq<int>, d: Seq<char>) requires vx_perm_by(a, b, p) ensures ct(a, d) == ct(b, d) decreases b.len()
{
    if b.len() > 0 {
        let n = b.len() - 1; let j = p[n];
        let a2 = a.remove(j); let b2 = b.drop_last();
        let p2 = Seq::new(n as nat, |i: int| if p[i] > j { p[i] - 1 } else { p[i] });
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] p2[i] < n by { assert(p[i] != p[n]); assert(0 <= p[i] < p.len()); }
        assert forall|i: int, k: int| 0 <= i < k < n implies p2[i] != p2[k] by { assert(p[i] != p[k]); assert(p[i] != p[n]); assert(p[k] != p[n]); }
        assert forall|i: int| 0 <= i < n implies #[trigger] b2[i] == a2[p2[i]] by { assert(b[i] == a[p[i]]); assert(p[i] != p[n]); assert(0 <= p[i] < p.len()); }
        l_ct_perm(a2, b2, p2, d);
        assert(b[n] == a[p[n]]);
        l_ct_remove(a, j, d);
    }
}
pub proof fn l_ct_permuted(a: Seq<CoinV>, b: Seq<CoinV>, d: Seq<char>) requires vx_perm(a, b) ensures ct(a, d) == ct(b, d) { let p = choose|p: Seq<int>| #[trigger] vx_perm_by(a, b, p); l_ct_perm(a, b, p, d); }
pub proof fn l_ct_one(d0: Seq<char>, n: int, d: Seq<char>) ensures ct(one_cv(d0, n), d) == if d0 == d { n } else { 0 } { assert(one_cv(d0, n).drop_last() =~= Seq::<CoinV>::empty()); assert(ct(Seq::<CoinV>::empty(), d) == 0); }
pub proof fn l_isum1(x: int) ensures isum(seq![x]) == x { assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(isum(Seq::<int>::empty()) == 0); }
pub proof fn l_isum_zero(xs: Seq<int>, k: int) requires 0 <= k <= xs.len(), forall|i: int| 0 <= i < k ==> xs[i] == 0 ensures isum(xs.take(k)) == 0 decreases k
{ if k > 0 { l_isum_zero(xs, k - 1); assert(xs.take(k).drop_last() =~= xs.take(k - 1)); } }
pub proof fn l_usum_update(s: U, i: int, x: (Seq<char>, int)) requires 0 <= i < s.len() ensures usum(s.update(i, x)) == usum(s) + x.1 - s[i].1 decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() == s.drop_last()); } else { assert(t.drop_last() == s.drop_last().update(i, x)); l_usum_update(s.drop_last(), i, x); }
}
pub proof fn l_add(a: U, d: Seq<char>, v: int, b: U) requires add_post(a, d, v, b) ensures usum(b) == usum(a) + v, forall|e: Seq<char>| #[trigger] ut(b, e) == ut(a, e) + if e == d { v } else { 0 }, nodup(a) ==> nodup(b), inu(a, d) ==> b.len() == a.len()
{
    if inu(a, d) {
        let i = choose|i: int| #[trigger] is_first(a, d, i) && b == a.update(i, (d, a[i].1 + v));
        l_usum_update(a, i, (d, a[i].1 + v));
        assert forall|e: Seq<char>| #[trigger] ut(b, e) == ut(a, e) + if e == d { v } else { 0 } by { l_ut_update(a, i, (d, a[i].1 + v), e); }
        if nodup(a) { assert forall|x: int, y: int| 0 <= x < y < b.len() implies (#[trigger] b[x]).0 != (#[trigger] b[y]).0 by { assert(a[x].0 != a[y].0); } }
    } else {
        assert(b.drop_last() =~= a);
        assert forall|e: Seq<char>| #[trigger] ut(b, e) == ut(a, e) + if e == d { v } else { 0 } by { l_ut_push(a, (d, v), e); }
        if nodup(a) { assert forall|x: int, y: int| 0 <= x < y < b.len() implies (#[trigger] b[x]).0 != (#[trigger] b[y]).0 by { assert(a[x].0 != d); if y < a.len() { assert(a[x].0 != a[y].0); } } }
    }
}
pub proof fn l_sub(a: U, d: Seq<char>, v: int, b: U) requires sub_post(a, d, v, b) ensures usum(b) == usum(a) - v, forall|e: Seq<char>| #[trigger] ut(b, e) == ut(a, e) - if e == d { v } else { 0 }, nodup(a) ==> nodup(b)
{
    let i = choose|i: int| #[trigger] is_first(a, d, i) && a[i].1 >= v && b == a.update(i, (d, a[i].1 - v));
    l_usum_update(a, i, (d, a[i].1 - v));
    assert forall|e: Seq<char>| #[trigger] ut(b, e) == ut(a, e) - if e == d { v } else { 0 } by { l_ut_update(a, i, (d, a[i].1 - v), e); }
    if nodup(a) { assert forall|x: int, y: int| 0 <= x < y < b.len() implies (#[trigger] b[x]).0 != (#[trigger] b[y]).0 by { assert(a[x].0 != a[y].0); } }
}
pub proof fn l_uadd_is(a: U, d: Seq<char>, v: int) ensures add_post(a, d, v, uadd(a, d, v)) { if inu(a, d) { l_first(a, d); assert(is_first(a, d, ufirst(a, d))); } }
pub proof fn l_spread_nodup(a: U, infl: U, x: int, tw: int) requires nodup(a) ensures nodup(spread(a, infl, x, tw)) decreases infl.len()
{ if infl.len() > 0 { let s = share(x, infl[0].1, tw); l_uadd_is(a, infl[0].0, s); l_add(a, infl[0].0, s, uadd(a, infl[0].0, s)); l_spread_nodup(uadd(a, infl[0].0, s), infl.skip(1), x - s, tw - infl[0].1); } }
pub proof fn l_drop_zero_same(s: U, d: Seq<char>) ensures ut(drop_zero(s), d) == ut(s, d) decreases s.len() { if s.len() > 0 { l_drop_zero_same(s.drop_last(), d); if s.last().1 != 0 { l_ut_push(drop_zero(s.drop_last()), s.last(), d); } } }
pub proof fn l_drop_zero_in(s: U, i: int) requires 0 <= i < drop_zero(s).len() ensures exists|j: int| 0 <= j < s.len() && s[j] == drop_zero(s)[i] decreases s.len()
{
    let t = s.drop_last();
    if s.last().1 != 0 && i == drop_zero(t).len() { assert(s[s.len() - 1] == drop_zero(s)[i]); }
    else { l_drop_zero_in(t, i); let j = choose|j: int| 0 <= j < t.len() && t[j] == drop_zero(t)[i]; assert(s[j] == drop_zero(s)[i]); }
}
pub proof fn l_drop_zero_nodup(s: U) requires nodup(s) ensures nodup(drop_zero(s)) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|x: int, y: int| 0 <= x < y < t.len() implies (#[trigger] t[x]).0 != (#[trigger] t[y]).0 by { assert(s[x].0 != s[y].0); }
        l_drop_zero_nodup(t);
        if s.last().1 != 0 {
            let z = drop_zero(t);
            assert forall|x: int, y: int| 0 <= x < y < z.len() + 1 implies (#[trigger] z.push(s.last())[x]).0 != (#[trigger] z.push(s.last())[y]).0 by {
                if y == z.len() { l_drop_zero_in(t, x); let j = choose|j: int| 0 <= j < t.len() && t[j] == z[x]; assert(s[j].0 != s[s.len() - 1].0); } else { assert(z[x].0 != z[y].0); }
            }
        }
    }
}
pub proof fn l_usum_zero(s: U) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == 0 ensures usum(s) == 0 decreases s.len() { if s.len() > 0 { assert(s[s.len() - 1].1 == 0); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).1 == 0 by { assert(s[i].1 == 0); } l_usum_zero(s.drop_last()); } }

// ---------- C03: fully collateralised
pub proof fn c03_accrual(st0: St, st1: St, now: int, d: Seq<char>)
    requires accr_post(st0, st1, now)
    ensures owed(st1, d) <= owed(st0, d)
{
    crate::ibcx_core::vx_keys();
    let sup = s_sup(st0);
    assert(s_sup(st1) == sup);
    assert(in_reserve(st1, d) == in_reserve(st0, d));
    match s_fee(st0).streaming_fee {
        None => {}
        Some(s0) => {
            let s1 = s_fee(st1).streaming_fee->0;
            if !no_collect(s0, now) {
                let rate = frate(s0, now); let u = s_idx(st0);
                l_nonneg_view(dec::<Units>(st0[k_idx()]));
                l_fees(u, rate, sup, d);
                let c0 = fees_held(st0, d); let c1 = fees_held(st1, d); let df = ct(fees_of(u, rate, sup), d);
                assert(c1 == c0 + df);
                let a0 = ut(u, d); let a1 = ut(units_left(u, rate), d); let r = in_reserve(st0, d);
                assert((a1 + r) * sup + (c0 + df) * e18() <= (a0 + r) * sup + c0 * e18()) by(nonlinear_arith) requires df * e18() <= sup * (a0 - a1);
            }
        }
    }
}
proof fn c03_mint(st0: St, st1: St, env: Env, info: MessageInfo, amount: int, receiver: Option<String>, refund_to: Option<String>, ms: Seq<MsgV>, d: Seq<char>, p: (Seq<char>, Seq<char>))
    requires mint_post(st0, st1, env, info, amount, receiver, refund_to, ms), d != s_cfg(st0).index_denom@, amount >= 0
    ensures covered_change(st0, st1, coinsv(info.funds@), ms, d, p)
{
    crate::ibcx_core::vx_keys();
    let (rcv, rto, refund) = choose|rcv: Seq<char>, rto: Seq<char>, refund: Seq<CoinV>| #[trigger] mint_ok(st0, env, info, amount, receiver, refund_to, ms, rcv, rto, refund);
    let f = s_fee(st0); let funds = coinsv(info.funds@); let u = s_idx(st0); let idn = s_cfg(st0).index_denom@;
    let k = ms.len() as int;
    let xs = Seq::new(ms.len(), |i: int| if i == k - 1 { -ct(refund, d) } else { 0int });
    l_ct_one(idn, amount - x_mint_fee(f, amount), d); l_ct_one(idn, x_mint_fee(f, amount), d);
    assert forall|i: int| 0 <= i < ms.len() implies msg_flow(ms[i], d, p.0, p.1, #[trigger] xs[i]) by {}
    assert(flows_are(ms, d, p.0, p.1, xs));
    l_isum_zero(xs, k - 1);
    assert(xs.take(k - 1) =~= xs.drop_last());
    assert(isum(xs) == -ct(refund, d));
    l_nonneg_view(dec::<Units>(st0[k_idx()]));
    l_charges(u, amount, d);
    assert(s_idx(st1) == u && in_reserve(st0, d) == 0 && in_reserve(st1, d) == 0 && fees_held(st1, d) == fees_held(st0, d));
    let a = ut(u, d); let s = s_sup(st0);
    assert((a + 0) * (s + amount) - (a + 0) * s == amount * a) by(nonlinear_arith);
    assert(ct(funds, d) + isum(xs) == ct(charges(u, amount), d));
}
proof fn c03_burn(st0: St, st1: St, env: Env, info: MessageInfo, redeem_to: Option<String>, ms: Seq<MsgV>, d: Seq<char>, p: (Seq<char>, Seq<char>))
    requires burn_post(st0, st1, env, info, redeem_to, ms), d != s_cfg(st0).index_denom@
    ensures covered_change(st0, st1, coinsv(info.funds@), ms, d, p)
{
    crate::ibcx_core::vx_keys();
    let f = s_fee(st0); let funds = coinsv(info.funds@); let u = s_idx(st0); let idn = s_cfg(st0).index_denom@;
    let paid = info.funds@[0].amount.v as int; let b = paid - x_burn_fee(f, paid);
    let (to, out) = choose|to: Seq<char>, out: Seq<CoinV>| #[trigger] burn_ok(st0, env, info, redeem_to, ms, paid, to, out);
    let k = ms.len() as int;
    let xs = Seq::new(ms.len(), |i: int| if i == k - 1 { -ct(out, d) } else { 0int });
    l_ct_one(idn, x_burn_fee(f, paid), d); l_ct_one(idn, paid, d);
    assert(funds =~= one_cv(idn, paid));
    assert forall|i: int| 0 <= i < ms.len() implies msg_flow(ms[i], d, p.0, p.1, #[trigger] xs[i]) by {}
    assert(flows_are(ms, d, p.0, p.1, xs));
    l_isum_zero(xs, k - 1);
    assert(xs.take(k - 1) =~= xs.drop_last());
    l_ct_permuted(pays(u, b), out, d);
    l_nonneg_view(dec::<Units>(st0[k_idx()]));
    l_pays(u, b, d);
    assert(s_idx(st1) == u && in_reserve(st0, d) == 0 && in_reserve(st1, d) == 0 && fees_held(st1, d) == fees_held(st0, d));
    let a = ut(u, d); let s = s_sup(st0); let o = ct(out, d);
    assert((a + 0) * (s - b) - (a + 0) * s == -(b * a)) by(nonlinear_arith);
    assert((0 - o) * e18() == -(o * e18())) by(nonlinear_arith);
    assert(ct(funds, d) == 0);
    assert(isum(xs) == -o);
}
proof fn c03_same(st0: St, st1: St, funds: Seq<CoinV>, ms: Seq<MsgV>, d: Seq<char>, p: (Seq<char>, Seq<char>))
    requires ms == Seq::<MsgV>::empty(), owed(st1, d) <= owed(st0, d), ct(funds, d) >= 0
    ensures covered_change(st0, st1, funds, ms, d, p)
{ let xs = Seq::<int>::empty(); assert(flows_are(ms, d, p.0, p.1, xs)); assert(isum(xs) == 0); assert((ct(funds, d) + 0) * e18() >= 0) by(nonlinear_arith) requires ct(funds, d) >= 0; }
proof fn c03_payout(st0: St, st1: St, funds: Seq<CoinV>, ms: Seq<MsgV>, to: Seq<char>, amt: Seq<CoinV>, d: Seq<char>, p: (Seq<char>, Seq<char>))
    requires ms == seq![m_send(to, amt)], owed(st1, d) == owed(st0, d) - ct(amt, d) * e18(), ct(funds, d) >= 0
    ensures covered_change(st0, st1, funds, ms, d, p)
{
    let xs = seq![-ct(amt, d)]; l_isum1(-ct(amt, d));
    assert(flows_are(ms, d, p.0, p.1, xs));
    let a = ct(funds, d); let b = ct(amt, d);
    assert(-(b * e18()) <= (a - b) * e18()) by(nonlinear_arith) requires a >= 0;
}
proof fn c03_gov(st0: St, st1: St, env: Env, info: MessageInfo, m: GovMsg, ms: Seq<MsgV>, d: Seq<char>, p: (Seq<char>, Seq<char>))
    requires gov_post(st0, st1, env, info, m, ms)
    ensures covered_change(st0, st1, coinsv(info.funds@), ms, d, p)
{
    let funds = coinsv(info.funds@);
    l_ct_coins_nonneg(info.funds@, d);
    crate::ibcx_core::vx_keys();
    match m {
        GovMsg::UpdateFeeStrategy(f) => {
            let f0 = s_fee(st0);
            assert(ct(Seq::<CoinV>::empty(), d) == 0);
            assert(s_idx(st1) == s_idx(st0) && s_sup(st1) == s_sup(st0));
            if s_fee(st1).streaming_fee is Some { assert(coinsv(s_fee(st1).streaming_fee->0.collected@) =~= Seq::<CoinV>::empty()); }
            assert(fees_held(st1, d) == 0);
            if f0.streaming_fee is Some && f0.streaming_fee->0.collected@.len() > 0 {
                c03_payout(st0, st1, funds, ms, f0.collector@, coinsv(f0.streaming_fee->0.collected@), d, p);
            } else {
                if f0.streaming_fee is Some { assert(coinsv(f0.streaming_fee->0.collected@) =~= Seq::<CoinV>::empty()); }
                c03_same(st0, st1, funds, ms, d, p);
            }
        }
        _ => { assert(s_idx(st1) == s_idx(st0) && s_sup(st1) == s_sup(st0) && s_fee(st1) == s_fee(st0) && in_reserve(st1, d) == in_reserve(st0, d)); c03_same(st0, st1, funds, ms, d, p); }
    }
}
proof fn c03_reb(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, m: RebalanceMsg, ms: Seq<MsgV>, d: Seq<char>)
    requires reb_post(st0, st1, q, env, info, m, ms)
    ensures covered_change(st0, st1, coinsv(info.funds@), ms, d, pair_of(st0, ExecuteMsg::Rebalance(m)))
{
    let funds = coinsv(info.funds@); let p = pair_of(st0, ExecuteMsg::Rebalance(m));
    l_ct_coins_nonneg(info.funds@, d);
    crate::ibcx_core::vx_keys();
    let s = s_sup(st0); let rd = s_cfg(st0).reserve_denom@;
    match m {
        RebalanceMsg::Init { manager, deflation, inflation } => {
            assert(usum(s_res(st1)) == 0);
            assert(s_idx(st1) == s_idx(st0) && s_sup(st1) == s && fees_held(st1, d) == fees_held(st0, d));
            c03_same(st0, st1, funds, ms, d, p);
        }
        RebalanceMsg::Finalize {} => {
            l_usum_zero(s_res(st0)); l_drop_zero_same(s_idx(st0), d);
            assert(s_sup(st1) == s && fees_held(st1, d) == fees_held(st0, d));
            c03_same(st0, st1, funds, ms, d, p);
        }
        RebalanceMsg::Trade(t) => {
            match t {
                RebalanceTradeMsg::Deflate { target_denom, amount_out, max_amount_in } => {
                    if rd == target_denom@ {
                        let (target, cur) = choose|target: int, cur: int| #[trigger] unit_is(s_reb(st0).deflation@, rd, target) && #[trigger] unit_is(s_idx(st0), rd, cur) && cur >= target
                            && sub_post(s_idx(st0), rd, cur - target, s_idx(st1)) && s_res(st1) == spread_all(s_res(st0), s_reb(st0).inflation@, cur - target) && usum(s_res(st1)) <= usum(s_res(st0)) + (cur - target);
                        l_sub(s_idx(st0), rd, cur - target, s_idx(st1));
                        let a0 = ut(s_idx(st0), d) + in_reserve(st0, d); let a1 = ut(s_idx(st1), d) + in_reserve(st1, d);
                        assert(a1 <= a0);
                        assert(a1 * s <= a0 * s) by(nonlinear_arith) requires a1 <= a0, s >= 0;
                        assert(s_sup(st1) == s && s_fee(st1) == s_fee(st0));
                        c03_same(st0, st1, funds, ms, d, p);
                    } else {
                        let td = target_denom@; let out = amount_out.v as int; let tr = s_ti(st0, td, rd);
                        let (target, cur, sim) = choose|target: int, cur: int, sim: int| #[trigger] unit_is(s_reb(st0).deflation@, td, target) && #[trigger] unit_is(s_idx(st0), td, cur) && #[trigger] parses_to(est_out(q, tr.routes@.first().0, coin_str(rd, out), tr.routes@), sim)
                            && 0 <= sim <= max_amount_in.v && cur - mceil(sim, e18(), s) >= target && sub_post(s_idx(st0), td, mceil(sim, e18(), s), s_idx(st1))
                            && s_res(st1) == spread_all(s_res(st0), s_reb(st0).inflation@, mfloor(out, e18(), s)) && usum(s_res(st1)) <= usum(s_res(st0)) + mfloor(out, e18(), s)
                            && ms == seq![MsgV::SwapOut { sender: env.contract.address@, routes: tr.routes@, max: int_str(sim), tout: oc(rd, out) }];
                        let x = mceil(sim, e18(), s); let y = mfloor(out, e18(), s);
                        l_sub(s_idx(st0), td, x, s_idx(st1));
                        let v = (if d == td { -sim } else { 0int }) + (if d == rd { out } else { 0int });
                        let xs = seq![v]; l_isum1(v);
                        assert(ms[0]->SwapOut_max == int_str(sim) && ms[0]->tout == oc(rd, out));
                        assert(msg_flow(ms[0], d, p.0, p.1, v));
                        assert(flows_are(ms, d, p.0, p.1, xs));
                        l_ceil_over(sim, e18(), s); l_floor_down(out, e18(), s);
                        let a0 = ut(s_idx(st0), d) + in_reserve(st0, d); let a1 = ut(s_idx(st1), d) + in_reserve(st1, d);
                        assert(s_sup(st1) == s && s_fee(st1) == s_fee(st0));
                        let dx = (if d == td { -x } else { 0int }) + (if d == rd { y } else { 0int });
                        assert(a1 <= a0 + dx);
                        assert(a1 * s <= a0 * s + dx * s) by(nonlinear_arith) requires a1 <= a0 + dx, s >= 0;
                        if d == td { assert(dx * s == -(x * s)) by(nonlinear_arith) requires dx == -x; assert(v * e18() == -(sim * e18())); } else if d == rd { assert(dx == y && v == out); assert(dx * s == y * s); } else { assert(dx * s == 0) by(nonlinear_arith) requires dx == 0; }
                        let c = ct(funds, d);
                        assert(dx * s <= v * e18());
                        assert((c + v) * e18() >= v * e18()) by(nonlinear_arith) requires c >= 0;
                    }
                }
                RebalanceTradeMsg::Inflate { target_denom, amount_in, min_amount_out } => {
                    let td = target_denom@;
                    if rd == td {
                        let x = choose|x: int| #[trigger] unit_is(s_res(st0), td, x) && add_post(s_idx(st0), td, x, s_idx(st1)) && sub_post(s_res(st0), td, x, s_res(st1));
                        l_add(s_idx(st0), td, x, s_idx(st1)); l_sub(s_res(st0), td, x, s_res(st1));
                        assert(s_sup(st1) == s && s_fee(st1) == s_fee(st0));
                        assert(ut(s_idx(st1), d) + in_reserve(st1, d) == ut(s_idx(st0), d) + in_reserve(st0, d));
                        c03_same(st0, st1, funds, ms, d, p);
                    } else {
                        let amount = amount_in.v as int; let tr = s_ti(st0, rd, td);
                        let (x0, sim) = choose|x: int, sim: int| #[trigger] unit_is(s_res(st0), td, x) && #[trigger] parses_to(est_in(q, tr.routes@.first().0, coin_str(rd, amount), tr.routes@), sim)
                            && sim >= min_amount_out.v && mceil(amount, e18(), s) <= x
                            && add_post(s_idx(st0), td, mfloor(sim, e18(), s), s_idx(st1)) && sub_post(s_res(st0), td, mceil(amount, e18(), s), s_res(st1))
                            && ms == seq![MsgV::SwapIn { sender: env.contract.address@, routes: tr.routes@, tin: oc(rd, amount), min: int_str(sim) }];
                        let x = mfloor(sim, e18(), s); let y = mceil(amount, e18(), s);
                        l_add(s_idx(st0), td, x, s_idx(st1)); l_sub(s_res(st0), td, y, s_res(st1));
                        let v = (if d == rd { -amount } else { 0int }) + (if d == td { sim } else { 0int });
                        let xs = seq![v]; l_isum1(v);
                        assert(ms[0]->min == int_str(sim) && ms[0]->tin == oc(rd, amount));
                        assert(msg_flow(ms[0], d, p.0, p.1, v));
                        assert(flows_are(ms, d, p.0, p.1, xs));
                        l_ceil_over(amount, e18(), s); l_floor_down(sim, e18(), s);
                        let a0 = ut(s_idx(st0), d) + in_reserve(st0, d); let a1 = ut(s_idx(st1), d) + in_reserve(st1, d);
                        assert(s_sup(st1) == s && s_fee(st1) == s_fee(st0));
                        let dx = (if d == td { x } else { 0int }) + (if d == rd { -y } else { 0int });
                        assert(a1 == a0 + dx);
                        assert(a1 * s == a0 * s + dx * s) by(nonlinear_arith) requires a1 == a0 + dx;
                        if d == rd { assert(dx * s == -(y * s)) by(nonlinear_arith) requires dx == -y; assert(v * e18() == -(amount * e18())); } else if d == td { assert(dx == x && v == sim); assert(dx * s == x * s); } else { assert(dx * s == 0) by(nonlinear_arith) requires dx == 0; }
                        let c = ct(funds, d);
                        assert(dx * s <= v * e18());
                        assert((c + v) * e18() >= v * e18()) by(nonlinear_arith) requires c >= 0;
                    }
                }
            }
        }
    }
}
// no operation lets the obligations in any asset grow by more than what the operation brings in
pub proof fn c03(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>, d: Seq<char>)
    requires execute_post(st0, st1, q, env, info, msg, ms), d != s_cfg(st0).index_denom@
    ensures covered_change(st0, st1, coinsv(info.funds@), ms, d, pair_of(st0, msg))
{
    crate::ibcx_core::vx_keys();
    let p = pair_of(st0, msg); let funds = coinsv(info.funds@);
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    if accrues(msg) { c03_accrual(st0, m, env.block.time.sec() as int, d); }
    assert(s_cfg(m) == s_cfg(st0));
    match msg {
        ExecuteMsg::Mint { amount, receiver, refund_to } => c03_mint(m, st1, env, info, amount.v as int, receiver, refund_to, ms, d, p),
        ExecuteMsg::Burn { redeem_to } => c03_burn(m, st1, env, info, redeem_to, ms, d, p),
        ExecuteMsg::Realize {} => {
            let f0 = s_fee(m);
            l_ct_coins_nonneg(info.funds@, d);
            assert(s_idx(st1) == s_idx(m) && s_sup(st1) == s_sup(m) && in_reserve(st1, d) == in_reserve(m, d));
            assert(ct(Seq::<CoinV>::empty(), d) == 0);
            if f0.streaming_fee is Some {
                assert(coinsv(s_fee(st1).streaming_fee->0.collected@) =~= Seq::<CoinV>::empty());
                c03_payout(m, st1, funds, ms, f0.collector@, coinsv(f0.streaming_fee->0.collected@), d, p);
            } else { c03_same(m, st1, funds, ms, d, p); }
        }
        ExecuteMsg::Gov(g) => c03_gov(m, st1, env, info, g, ms, d, p),
        ExecuteMsg::Rebalance(r) => { c03_reb(m, st1, q, env, info, r, ms, d); assert(pair_of(m, msg) == p); }
    }
    let xs = choose|xs: Seq<int>| #[trigger] flows_are(ms, d, p.0, p.1, xs) && owed(st1, d) - owed(m, d) <= (ct(funds, d) + isum(xs)) * e18();
    assert(flows_are(ms, d, p.0, p.1, xs));
}

// ---------- C06, C12, C14: what holds in every reachable state
pub open spec fn inv(st: St) -> bool {
    &&& fee_ok(s_fee(st))
    &&& nodup(s_idx(st))
    &&& s_rebon(st) ==> nodup(s_res(st)) && (s_fee(st).streaming_fee is Some ==> s_fee(st).streaming_fee->0.freeze)
}
pub proof fn inv_init(st1: St, env: Env, msg: crate::ibcx_interface::core::InstantiateMsg)
    requires inst_post(st1, env, msg), !s_rebon(st1)
    ensures inv(st1)
{}
proof fn l_left_nodup(u: U, r: int) requires nodup(u) ensures nodup(units_left(u, r)) { let v = units_left(u, r); assert forall|x: int, y: int| 0 <= x < y < v.len() implies (#[trigger] v[x]).0 != (#[trigger] v[y]).0 by { assert(u[x].0 != u[y].0); } }
proof fn inv_reb(m: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, r: RebalanceMsg, ms: Seq<MsgV>)
    requires reb_post(m, st1, q, env, info, r, ms), inv(m)
    ensures inv(st1)
{
    crate::ibcx_core::vx_keys();
    match r {
        RebalanceMsg::Init { manager, deflation, inflation } => { assert(s_idx(st1) == s_idx(m)); }
        RebalanceMsg::Finalize {} => { l_drop_zero_nodup(s_idx(m)); }
        RebalanceMsg::Trade(t) => {
            assert(s_fee(st1) == s_fee(m));
            let rd = s_cfg(m).reserve_denom@;
            match t {
                RebalanceTradeMsg::Deflate { target_denom, .. } => {
                    let x = choose|x: int| sub_post(s_idx(m), target_denom@, x, s_idx(st1)); l_sub(s_idx(m), target_denom@, x, s_idx(st1));
                    let y = choose|y: int| s_res(st1) == #[trigger] spread_all(s_res(m), s_reb(m).inflation@, y);
                    l_spread_nodup(s_res(m), s_reb(m).inflation@, y, usum(s_reb(m).inflation@));
                }
                RebalanceTradeMsg::Inflate { target_denom, .. } => {
                    let x = choose|x: int| add_post(s_idx(m), target_denom@, x, s_idx(st1)); l_add(s_idx(m), target_denom@, x, s_idx(st1));
                    let y = choose|y: int| sub_post(s_res(m), target_denom@, y, s_res(st1)); l_sub(s_res(m), target_denom@, y, s_res(st1));
                }
            }
        }
    }
}
pub proof fn inv_step(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms), inv(st0)
    ensures inv(st1)
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    if accrues(msg) { match s_fee(st0).streaming_fee { Some(s) => { l_left_nodup(s_idx(st0), frate(s, env.block.time.sec() as int)); } None => {} } assert(inv(m)); }
    match msg {
        ExecuteMsg::Rebalance(r) => inv_reb(m, st1, q, env, info, r, ms),
        ExecuteMsg::Gov(g) => { assert(s_idx(st1) == s_idx(m)); match g { GovMsg::UpdateFeeStrategy(f) => {} _ => { assert(s_fee(st1) == s_fee(m)); } } }
        _ => { assert(s_idx(st1) == s_idx(m)); }
    }
}
// ---------- C04
pub proof fn c04(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms), msg is Mint || msg is Burn
    ensures gates(st0, env)
{ crate::ibcx_core::vx_keys(); let m = choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms); assert(s_cfg(m) == s_cfg(st0)); assert(s_rebon(m) == s_rebon(st0)); }
// ---------- C05: who may change what
pub proof fn c05(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms)
    ensures
        s_cfg(st1).gov != s_cfg(st0).gov ==> msg == ExecuteMsg::Gov(GovMsg::AcceptGov {}) && st0.dom().contains(k_pend()) && s_pend(st0)@ == info.sender@ && s_cfg(st1).gov == s_pend(st0),
        s_cfg(st1) != s_cfg(st0) ==> msg is Gov && (is_gov(st0, info) || msg == ExecuteMsg::Gov(GovMsg::AcceptGov {})),
        (st1.dom().contains(k_pend()) != st0.dom().contains(k_pend()) || s_pend(st1) != s_pend(st0)) ==> msg is Gov && (is_gov(st0, info) || msg == ExecuteMsg::Gov(GovMsg::AcceptGov {})),
        !st0.dom().contains(k_pend()) && st1.dom().contains(k_pend()) ==> is_gov(st0, info),
        st0.dom().contains(k_pend()) && st1.dom().contains(k_pend()) ==> s_pend(st1) == s_pend(st0),
        s_rebon(st1) && !s_rebon(st0) ==> is_gov(st0, info),
        !(s_fee(st1).mint_fee == s_fee(st0).mint_fee && s_fee(st1).burn_fee == s_fee(st0).burn_fee && s_fee(st1).collector == s_fee(st0).collector) ==> is_gov(st0, info),
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(s_cfg(m) == s_cfg(st0)); assert(s_rebon(m) == s_rebon(st0)); assert(st0[k_pend()] == m[k_pend()]); assert(st0.dom().contains(k_pend()) == m.dom().contains(k_pend()));
}
// ---------- C06: trades and finalization only in a rebalance, by its manager
pub proof fn c06(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms)
    ensures
        msg is Rebalance && !(msg->Rebalance_0 is Init) ==> s_rebon(st0) && mgr_ok(st0, info),
        msg is Rebalance && msg->Rebalance_0 is Init ==> !s_rebon(st0) && is_gov(st0, info),
        s_rebon(st0) && !s_rebon(st1) ==> msg is Rebalance && msg->Rebalance_0 is Finalize,
        // while the rebalance lasts no unit moves except by its trades
        s_rebon(st0) && inv(st0) && !(msg is Rebalance) ==> s_idx(st1) == s_idx(st0),
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(s_cfg(m) == s_cfg(st0)); assert(s_rebon(m) == s_rebon(st0)); assert(s_idx(m) == s_idx(st0) || !inv(st0) || !s_rebon(st0));
}
// ---------- C13: the simulations predict the execution
pub proof fn l_now(st0: St, m: St, now: int) requires accr_post(st0, m, now) ensures s_idx(m) == now_units(st0, now), s_fee(m).mint_fee == s_fee(st0).mint_fee, s_fee(m).burn_fee == s_fee(st0).burn_fee {}
pub proof fn c13_mint(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, amount: Uint128, receiver: Option<String>, refund_to: Option<String>, ms: Seq<MsgV>, funds: Option<Vec<Coin>>, r: SimulateMintResponse)
    requires execute_post(st0, st1, q, env, info, ExecuteMsg::Mint { amount, receiver, refund_to }, ms), sim_mint_post(st0, env.block.time.sec() as int, amount.v as int, funds, r),
        funds is Some && coinsv(funds->0@) == coinsv(info.funds@)
    ensures ({ let k = ms.len() as int;
        &&& k >= 3 && ms[k - 2]->Send_amount == one_cv(s_cfg(st0).index_denom@, r.mint_amount.v as int)
        &&& forall|d: Seq<char>| #[trigger] ct(ms[k - 1]->Send_amount, d) == ct(coinsv(r.refund_amount@), d)
        &&& forall|d: Seq<char>| #[trigger] ct(coinsv(r.fund_spent@), d) == ct(coinsv(info.funds@), d) - ct(ms[k - 1]->Send_amount, d) })
{
    crate::ibcx_core::vx_keys();
    let msg = ExecuteMsg::Mint { amount, receiver, refund_to };
    let m = choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms);
    l_now(st0, m, env.block.time.sec() as int);
    assert(s_cfg(m) == s_cfg(st0));
    let (rcv, rto, refund) = choose|rcv: Seq<char>, rto: Seq<char>, refund: Seq<CoinV>| #[trigger] mint_ok(m, env, info, amount.v as int, receiver, refund_to, ms, rcv, rto, refund);
    let k = ms.len() as int;
    assert(ms[k - 1]->Send_amount == refund);
    assert forall|d: Seq<char>| #[trigger] ct(ms[k - 1]->Send_amount, d) == ct(coinsv(r.refund_amount@), d) by { assert(ct(refund, d) == ct(coinsv(info.funds@), d) - ct(charges(s_idx(m), amount.v as int), d)); }
}
pub proof fn c13_burn(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, redeem_to: Option<String>, ms: Seq<MsgV>, r: SimulateBurnResponse)
    requires execute_post(st0, st1, q, env, info, ExecuteMsg::Burn { redeem_to }, ms), sim_burn_post(st0, env.block.time.sec() as int, info.funds@[0].amount.v as int, r)
    ensures ({ let k = ms.len() as int;
        &&& k >= 2 && ms[0]->Burn_coin == oc(s_cfg(st0).index_denom@, r.burn_amount.v as int)
        &&& vx_perm(coinsv(r.redeem_amount@), ms[k - 1]->Send_amount) })
{
    crate::ibcx_core::vx_keys();
    let msg = ExecuteMsg::Burn { redeem_to };
    let m = choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms);
    l_now(st0, m, env.block.time.sec() as int);
    assert(s_cfg(m) == s_cfg(st0));
    let paid = info.funds@[0].amount.v as int;
    let (to, out) = choose|to: Seq<char>, out: Seq<CoinV>| #[trigger] burn_ok(m, env, info, redeem_to, ms, paid, to, out);
    assert(ms[ms.len() - 1]->Send_amount == out);
}
// ---------- C11: what was accrued is paid once, to the collector in charge
pub open spec fn accrued_now(st: St, now: int, d: Seq<char>) -> int {
    match s_fee(st).streaming_fee { Some(s) => if no_collect(s, now) { 0 } else { ct(fees_of(s_idx(st), frate(s, now), s_sup(st)), d) }, None => 0 }
}
pub open spec fn settles(msg: ExecuteMsg) -> bool { msg is Realize || (msg is Gov && msg->Gov_0 is UpdateFeeStrategy) }
pub open spec fn paid_by(ms: Seq<MsgV>, d: Seq<char>) -> int { if ms.len() == 1 { ct(ms[0]->Send_amount, d) } else { 0 } }
pub proof fn c11(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>, d: Seq<char>)
    requires execute_post(st0, st1, q, env, info, msg, ms)
    ensures
        // the books: what is held afterwards = held before + accrued in this step - paid out in this step
        fees_held(st1, d) == fees_held(st0, d) + (if accrues(msg) { accrued_now(st0, env.block.time.sec() as int, d) } else { 0 }) - (if settles(msg) { paid_by(ms, d) } else { 0 }),
        // a settlement pays everything and leaves nothing; it pays the collector in charge, and only him
        settles(msg) ==> fees_held(st1, d) == 0 && ms.len() <= 1 && (ms.len() == 1 ==> ms[0] is Send && ms[0]->Send_to == s_fee(st0).collector@),
        msg is Realize ==> info.sender@ == s_fee(st0).collector@ && s_fee(st1).collector == s_fee(st0).collector,
        // nobody else becomes the collector but by a settlement of what the former one had earned
        s_fee(st1).collector != s_fee(st0).collector ==> msg is Gov && msg->Gov_0 is UpdateFeeStrategy && is_gov(st0, info),
{
    crate::ibcx_core::vx_keys();
    let now = env.block.time.sec() as int;
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, now) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(ct(Seq::<CoinV>::empty(), d) == 0);
    assert(s_fee(m).collector == s_fee(st0).collector);
    assert(fees_held(m, d) == fees_held(st0, d) + (if accrues(msg) { accrued_now(st0, now, d) } else { 0 }));
    match msg {
        ExecuteMsg::Realize {} => {
            match s_fee(m).streaming_fee { Some(s) => { assert(coinsv(s_fee(st1).streaming_fee->0.collected@) =~= Seq::<CoinV>::empty()); } None => {} }
        }
        ExecuteMsg::Gov(g) => match g {
            GovMsg::UpdateFeeStrategy(f) => {
                if s_fee(st1).streaming_fee is Some { assert(coinsv(s_fee(st1).streaming_fee->0.collected@) =~= Seq::<CoinV>::empty()); }
                if s_fee(m).streaming_fee is Some && s_fee(m).streaming_fee->0.collected@.len() == 0 { assert(coinsv(s_fee(m).streaming_fee->0.collected@) =~= Seq::<CoinV>::empty()); }
            }
            _ => { assert(s_fee(st1) == s_fee(m)); }
        },
        ExecuteMsg::Rebalance(r) => match r { RebalanceMsg::Trade(t) => { assert(s_fee(st1) == s_fee(m)); } _ => {} },
        _ => { assert(s_fee(st1) == s_fee(m)); }
    }
}
// ---------- C10: the accrual clock only moves together with the accrual
pub proof fn c10_clock(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms), s_fee(st0).streaming_fee is Some, s_fee(st1).streaming_fee is Some, !s_fee(st0).streaming_fee->0.freeze
    ensures
        !accrues(msg) && !(msg is Rebalance && msg->Rebalance_0 is Finalize) ==> s_fee(st1).streaming_fee == s_fee(st0).streaming_fee,
        !accrues(msg) && !(msg is Rebalance) ==> s_idx(st1) == s_idx(st0),
        // whoever reads the units after an operation that settles the fee reads them as of now
        accrues(msg) && env.block.time.sec() >= s_fee(st0).streaming_fee->0.last_collected_at ==> s_fee(st1).streaming_fee->0.last_collected_at == env.block.time.sec() && s_idx(st1) == now_units(st0, env.block.time.sec() as int),
{
    crate::ibcx_core::vx_keys();
    let now = env.block.time.sec() as int;
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, now) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    if accrues(msg) { l_now(st0, m, now); }
    match msg {
        ExecuteMsg::Gov(g) => match g { GovMsg::UpdateFeeStrategy(f) => {} _ => { assert(s_fee(st1) == s_fee(m)); } },
        ExecuteMsg::Rebalance(r) => match r { RebalanceMsg::Trade(t) => { assert(s_fee(st1) == s_fee(m)); } _ => {} },
        _ => {}
    }
}
// ---------- C07: a plan in force was well formed when it was accepted, and stays as it was given until it is finalized
pub proof fn c07(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms), s_rebon(st1)
    ensures
        !s_rebon(st0) ==> msg is Rebalance && msg->Rebalance_0 is Init && plan_ok(s_reb(st1), s_idx(st1)) && s_res(st1).len() == 0 && is_gov(st0, info)
            && s_reb(st1).deflation.0@ == msg->Rebalance_0->deflation@ && s_reb(st1).inflation.0@ == msg->Rebalance_0->inflation@,
        s_rebon(st0) ==> s_reb(st1).deflation == s_reb(st0).deflation && s_reb(st1).inflation == s_reb(st0).inflation
            && (s_reb(st1).manager != s_reb(st0).manager ==> is_gov(st0, info) && msg is Gov && msg->Gov_0 is UpdateRebalanceManager),
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(s_cfg(m) == s_cfg(st0)); assert(s_rebon(m) == s_rebon(st0)); assert(s_reb(m) == s_reb(st0));
}
// ---------- C08: while a plan is in force no asset is taken below its target, and no asset outside the deflation list is sold
proof fn l_ut_at(s: U, i: int) requires nodup(s), 0 <= i < s.len() ensures ut(s, s[i].0) == s[i].1 decreases s.len()
{
    let t = s.drop_last(); let d = s[i].0;
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies (#[trigger] t[x]).0 != (#[trigger] t[y]).0 by { assert(s[x].0 != s[y].0); }
    if i == s.len() - 1 {
        assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).0 != d by { assert(s[x].0 != s[i].0); }
        l_ut_absent(t, d);
    } else { assert(t[i] == s[i]); l_ut_at(t, i); assert(s[i].0 != s[s.len() - 1].0); }
}
proof fn l_ut_absent(s: U, d: Seq<char>) requires forall|x: int| 0 <= x < s.len() ==> (#[trigger] s[x]).0 != d ensures ut(s, d) == 0 decreases s.len()
{ if s.len() > 0 { assert(s[s.len() - 1].0 != d); assert forall|x: int| 0 <= x < s.drop_last().len() implies (#[trigger] s.drop_last()[x]).0 != d by { assert(s[x].0 != d); } l_ut_absent(s.drop_last(), d); } }
pub proof fn c08_targets(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>, d: Seq<char>)
    requires execute_post(st0, st1, q, env, info, msg, ms), inv(st0), s_rebon(st0), nodup(s_reb(st0).deflation@)
    ensures
        // an asset at or above its target stays so
        forall|i: int| 0 <= i < s_reb(st0).deflation@.len() && (#[trigger] s_reb(st0).deflation@[i]).0 == d && ut(s_idx(st0), d) >= s_reb(st0).deflation@[i].1 ==> ut(s_idx(st1), d) >= s_reb(st0).deflation@[i].1,
        // and only assets of the deflation list lose units at all
        !inu(s_reb(st0).deflation@, d) ==> ut(s_idx(st1), d) >= ut(s_idx(st0), d),
        // the reserve only changes by a trade (or goes away, empty, with the plan)
        s_rebon(st1) && s_res(st1) != s_res(st0) ==> msg is Rebalance && msg->Rebalance_0 is Trade,
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(s_cfg(m) == s_cfg(st0)); assert(s_rebon(m) == s_rebon(st0)); assert(s_reb(m) == s_reb(st0)); assert(s_idx(m) == s_idx(st0)); assert(s_res(m) == s_res(st0)); assert(s_sup(m) == s_sup(st0));
    let u = s_idx(st0); let pl = s_reb(st0).deflation@;
    l_nonneg_view(dec::<Units>(st0[k_idx()])); l_nonneg_view(dec::<Units>(st0[k_res()]));
    if let ExecuteMsg::Rebalance(r) = msg {
        match r {
            RebalanceMsg::Init { manager, deflation, inflation } => { assert(false); }
            RebalanceMsg::Finalize {} => { l_drop_zero_same(u, d); }
            RebalanceMsg::Trade(t) => match t {
                RebalanceTradeMsg::Deflate { target_denom, amount_out, max_amount_in } => {
                    let e = target_denom@;
                    if s_cfg(st0).reserve_denom@ == e {
                        let (target, cur) = choose|target: int, cur: int| #[trigger] unit_is(pl, e, target) && #[trigger] unit_is(u, e, cur) && cur >= target && sub_post(u, e, cur - target, s_idx(st1));
                        let i = choose|i: int| is_first(pl, e, i) && (#[trigger] pl[i]).1 == target; l_ut_at(pl, i);
                        let j = choose|j: int| is_first(u, e, j) && (#[trigger] u[j]).1 == cur; l_ut_at(u, j);
                        l_sub(u, e, cur - target, s_idx(st1));
                        if d == e { assert forall|k: int| 0 <= k < pl.len() && (#[trigger] pl[k]).0 == d implies ut(s_idx(st1), d) >= pl[k].1 by { l_ut_at(pl, k); } }
                    } else {
                        let out = amount_out.v as int; let max = max_amount_in.v as int; let tr = s_ti(st0, e, s_cfg(st0).reserve_denom@); let rd = s_cfg(st0).reserve_denom@; let supply = s_sup(st0);
                        assert(deflate_post(m, st1, q, env, e, out, max, ms));
                        let (target, cur, sim) = choose|target: int, cur: int, sim: int| #[trigger] unit_is(pl, e, target) && #[trigger] unit_is(u, e, cur) && #[trigger] parses_to(est_out(q, tr.routes@.first().0, coin_str(rd, out), tr.routes@), sim)
                            && 0 <= sim <= max && cur - mceil(sim, e18(), supply) >= target && sub_post(u, e, mceil(sim, e18(), supply), s_idx(st1));
                        let i = choose|i: int| is_first(pl, e, i) && (#[trigger] pl[i]).1 == target; l_ut_at(pl, i);
                        let j = choose|j: int| is_first(u, e, j) && (#[trigger] u[j]).1 == cur; l_ut_at(u, j);
                        l_sub(u, e, mceil(sim, e18(), supply), s_idx(st1));
                        if d == e { assert forall|k: int| 0 <= k < pl.len() && (#[trigger] pl[k]).0 == d implies ut(s_idx(st1), d) >= pl[k].1 by { l_ut_at(pl, k); } }
                    }
                }
                RebalanceTradeMsg::Inflate { target_denom, amount_in, min_amount_out } => {
                    let e = target_denom@;
                    if s_cfg(st0).reserve_denom@ == e {
                        let x = choose|x: int| #[trigger] unit_is(s_res(st0), e, x) && add_post(u, e, x, s_idx(st1));
                        let j = choose|j: int| is_first(s_res(st0), e, j) && (#[trigger] s_res(st0)[j]).1 == x; assert(x >= 0);
                        l_add(u, e, x, s_idx(st1));
                    } else {
                        let amount = amount_in.v as int; let min = min_amount_out.v as int; let rd = s_cfg(st0).reserve_denom@; let tr = s_ti(st0, rd, e); let supply = s_sup(st0);
                        assert(inflate_post(m, st1, q, env, e, amount, min, ms));
                        let (x, sim) = choose|x: int, sim: int| #[trigger] unit_is(s_res(st0), e, x) && #[trigger] parses_to(est_in(q, tr.routes@.first().0, coin_str(rd, amount), tr.routes@), sim) && sim >= min && add_post(u, e, mfloor(sim, e18(), supply), s_idx(st1));
                        assert(mfloor(sim, e18(), supply) >= 0) by(nonlinear_arith) requires sim >= 0, supply > 0, mfloor(sim, e18(), supply) == (sim * e18()) / supply, e18() > 0;
                        l_add(u, e, mfloor(sim, e18(), supply), s_idx(st1));
                    }
                }
            },
        }
    }
}
// ---------- C09: a finalization finds the plan met, empties the reserve and leaves every remaining unit as it was
pub proof fn c09(st0: St, st1: St, q: QuerierWrapper, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<MsgV>)
    requires execute_post(st0, st1, q, env, info, msg, ms), inv(st0), s_rebon(st0), !s_rebon(st1)
    ensures
        mgr_ok(st0, info),
        forall|i: int| 0 <= i < s_reb(st0).deflation@.len() ==> ut(s_idx(st0), (#[trigger] s_reb(st0).deflation@[i]).0) <= s_reb(st0).deflation@[i].1,
        usum(s_res(st0)) == 0, ms == Seq::<MsgV>::empty(), s_sup(st1) == s_sup(st0),
        forall|d: Seq<char>| #[trigger] ut(s_idx(st1), d) == ut(s_idx(st0), d),
        forall|i: int| 0 <= i < s_idx(st1).len() ==> (#[trigger] s_idx(st1)[i]).1 != 0,
        s_fee(st1).streaming_fee is Some ==> !s_fee(st1).streaming_fee->0.freeze,
{
    crate::ibcx_core::vx_keys();
    let m = if accrues(msg) { choose|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { st0 };
    assert(s_rebon(m) == s_rebon(st0));
    assert(msg is Rebalance && msg->Rebalance_0 is Finalize);
    let u = s_idx(st0); let pl = s_reb(st0).deflation@;
    assert forall|i: int| 0 <= i < pl.len() implies ut(u, (#[trigger] pl[i]).0) <= pl[i].1 by {
        assert(met(u, pl[i])); let j = choose|j: int| #[trigger] is_first(u, pl[i].0, j) && u[j].1 <= pl[i].1; l_ut_at(u, j);
    }
    l_usum_zero(s_res(st0));
    assert forall|d: Seq<char>| #[trigger] ut(s_idx(st1), d) == ut(u, d) by { l_drop_zero_same(u, d); }
    l_no_zero(u);
}
proof fn l_no_zero(s: U) ensures forall|i: int| 0 <= i < drop_zero(s).len() ==> (#[trigger] drop_zero(s)[i]).1 != 0 decreases s.len()
{ if s.len() > 0 { l_no_zero(s.drop_last()); let z = drop_zero(s.drop_last()); assert forall|i: int| 0 <= i < drop_zero(s).len() implies (#[trigger] drop_zero(s)[i]).1 != 0 by { if i < z.len() { assert(drop_zero(s)[i] == z[i]); } } } }
// ---------- C10: what the accrual factor is: never below one, one for no time or no rate, and (rounded down at every
// step) never above the exact compound interest: factor * E^t <= (E + rate)^t * E
pub proof fn l_pow_go_low(x: int, y: int, n: int) requires x >= e18(), y >= e18(), n >= 1 ensures dpow_go(x, y, n) >= e18(), dpow_go(x, y, n) >= y decreases n
{
    assert(mfloor(x, x, e18()) >= e18()) by(nonlinear_arith) requires x >= e18(), e18() == 1_000_000_000_000_000_000, mfloor(x, x, e18()) == x * x / e18();
    assert(mfloor(x, y, e18()) >= y) by(nonlinear_arith) requires x >= e18(), y >= 0, e18() == 1_000_000_000_000_000_000, mfloor(x, y, e18()) == x * y / e18();
    if n > 1 { if n % 2 == 0 { l_pow_go_low(mfloor(x, x, e18()), y, n / 2); } else { l_pow_go_low(mfloor(x, x, e18()), mfloor(x, y, e18()), n / 2); } }
}
pub proof fn l_pow_go_one(n: int) requires n >= 1 ensures dpow_go(e18(), e18(), n) == e18() decreases n
{ assert(mfloor(e18(), e18(), e18()) == e18()) by(compute); if n > 1 { l_pow_go_one(n / 2); } }
pub open spec fn xp(b: int, n: int) -> int decreases n { if n <= 0 { 1 } else { b * xp(b, n - 1) } }
proof fn l_xp_nonneg(b: int, n: int) requires b >= 0 ensures xp(b, n) >= 0 decreases n { if n > 0 { l_xp_nonneg(b, n - 1); assert(b * xp(b, n - 1) >= 0) by(nonlinear_arith) requires b >= 0, xp(b, n - 1) >= 0; } }
proof fn l_xp_mono(a: int, b: int, n: int) requires 0 <= a <= b ensures xp(a, n) <= xp(b, n) decreases n
{ if n > 0 { l_xp_mono(a, b, n - 1); l_xp_nonneg(a, n - 1); assert(a * xp(a, n - 1) <= b * xp(b, n - 1)) by(nonlinear_arith) requires 0 <= a <= b, 0 <= xp(a, n - 1) <= xp(b, n - 1); } }
proof fn l_xp_mul(a: int, b: int, n: int) ensures xp(a * b, n) == xp(a, n) * xp(b, n) decreases n
{ if n > 0 { l_xp_mul(a, b, n - 1); let p = xp(a, n - 1); let q = xp(b, n - 1); assert((a * b) * (p * q) == (a * p) * (b * q)) by(nonlinear_arith); } }
proof fn l_xp_add(b: int, m: int, n: int) requires m >= 0, n >= 0 ensures xp(b, m + n) == xp(b, m) * xp(b, n) decreases m
{ if m > 0 { l_xp_add(b, m - 1, n); let p = xp(b, m - 1); let q = xp(b, n); assert(b * (p * q) == (b * p) * q) by(nonlinear_arith); } }
pub proof fn l_pow_go_high(x: int, y: int, n: int) requires x >= 0, y >= 0, n >= 1 ensures dpow_go(x, y, n) * xp(e18(), n) <= xp(x, n) * y decreases n
{
    let e = e18();
    let x2 = mfloor(x, x, e); let xy = mfloor(x, y, e); let k = n / 2;
    assert(x2 * e <= x * x && x2 >= 0) by(nonlinear_arith) requires x2 == (x * x) / e, e > 0, x >= 0;
    assert(xy * e <= x * y && xy >= 0) by(nonlinear_arith) requires xy == (x * y) / e, e > 0, x >= 0, y >= 0;
    if n == 1 {
        assert(xp(e, 0) == 1 && xp(x, 0) == 1);
        assert(xp(e, 1) == e * xp(e, 0)); assert(xp(x, 1) == x * xp(x, 0));
    } else {
        let g = dpow_go(x, y, n);
        let ek = xp(e, k); let xk = xp(x, k); let w = xp(x2, k);
        l_xp_nonneg(e, k); l_xp_nonneg(x, k); l_xp_nonneg(x2, k);
        // (x2 * e)^k <= (x * x)^k
        assert(x2 * e >= 0) by(nonlinear_arith) requires x2 >= 0, e > 0;
        l_xp_mono(x2 * e, x * x, k); l_xp_mul(x2, e, k); l_xp_mul(x, x, k);
        assert(w * ek <= xk * xk);
        l_xp_add(e, k, k); l_xp_add(x, k, k);
        if n % 2 == 0 {
            l_pow_go_high(x2, y, k);
            assert(g * ek <= w * y);
            assert(g * (ek * ek) <= (xk * xk) * y) by(nonlinear_arith) requires g * ek <= w * y, w * ek <= xk * xk, ek >= 0, y >= 0;
            assert(n == k + k);
        } else {
            l_pow_go_high(x2, xy, k);
            assert(g * ek <= w * xy);
            assert(n == k + k + 1);
            assert(xp(e, n) == e * xp(e, k + k)); assert(xp(x, n) == x * xp(x, k + k));
            assert(g * ek * (ek * e) <= (w * xy) * (ek * e)) by(nonlinear_arith) requires g * ek <= w * xy, ek >= 0, e > 0;
            assert((w * xy) * (ek * e) == (w * ek) * (xy * e)) by(nonlinear_arith);
            assert((w * ek) * (xy * e) <= (xk * xk) * (x * y)) by(nonlinear_arith) requires 0 <= w * ek <= xk * xk, 0 <= xy * e <= x * y;
            assert(g * (e * (ek * ek)) == g * ek * (ek * e)) by(nonlinear_arith);
            assert((x * (xk * xk)) * y == (xk * xk) * (x * y)) by(nonlinear_arith);
        }
    }
}
pub proof fn c10_factor(s: StreamingFee, now: int)
    requires now >= s.last_collected_at
    ensures frate(s, now) >= 0,
        s.rate.v == 0 || now == s.last_collected_at ==> frate(s, now) == 0,
        now == s.last_collected_at + 1 ==> frate(s, now) == s.rate.v,
        now > s.last_collected_at && now - s.last_collected_at < 0x1_0000_0000 ==> (e18() + frate(s, now)) * xp(e18(), now - s.last_collected_at) <= xp(e18() + s.rate.v, now - s.last_collected_at) * e18(),
{
    reveal(dpow);
    let n = (now - s.last_collected_at) % 0x1_0000_0000; let b = e18() + s.rate.v;
    if n >= 1 {
        l_pow_go_low(b, e18(), n); l_pow_go_high(b, e18(), n);
        if s.rate.v == 0 { l_pow_go_one(n); }
        if now == s.last_collected_at + 1 { assert(mfloor(b, e18(), e18()) == b) by(nonlinear_arith) requires mfloor(b, e18(), e18()) == b * e18() / e18(), e18() == 1_000_000_000_000_000_000; }
    }
}
}
}
