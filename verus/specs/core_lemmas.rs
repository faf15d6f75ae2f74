verus! {
// vocabulary of the core contract's specifications
pub mod cs {
use vstd::prelude::*;
use crate::vx::*;
pub use crate::vocab::*; pub use crate::cosmwasm_std::{MessageInfo, Env, Coin, Addr}; use crate::cosmwasm_std::{Decimal, Uint128};
use crate::ibcx_core::state::*;
use crate::ibcx_core::state::units::Unit;

// a portfolio: denominations with raw 18-digit units
pub type U = Seq<(Seq<char>, int)>;
pub type St = Map<VKey, Val>;
pub open spec fn uview(s: Seq<Unit>) -> U { s.map_values(|p: Unit| (p.0@, p.1.v as int)) }

pub open spec fn inu(s: U, d: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == d }
pub open spec fn is_first(s: U, d: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i].0 == d && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != d }
// total unit recorded for a denomination
pub open spec fn ut(s: U, d: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ut(s.drop_last(), d) + if s.last().0 == d { s.last().1 } else { 0 } } }
pub open spec fn usum(s: U) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last().1 } }
pub open spec fn nodup(s: U) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn nonneg(s: U) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 >= 0 }
// unit of a denomination listed at most once
pub open spec fn unit_is(s: U, d: Seq<char>, x: int) -> bool { exists|i: int| is_first(s, d, i) && (#[trigger] s[i]).1 == x }
pub open spec fn add_post(a: U, d: Seq<char>, v: int, b: U) -> bool {
    (inu(a, d) ==> exists|i: int| #[trigger] is_first(a, d, i) && b == a.update(i, (d, a[i].1 + v))) && (!inu(a, d) ==> b == a.push((d, v)))
}
pub open spec fn sub_post(a: U, d: Seq<char>, v: int, b: U) -> bool {
    exists|i: int| #[trigger] is_first(a, d, i) && a[i].1 >= v && b == a.update(i, (d, a[i].1 - v))
}
// amounts paid out (rounded down) and charged (rounded up, at least one)
pub open spec fn pay(unit: int, amount: int) -> int { mfloor(amount, unit, e18()) }
pub open spec fn charge(unit: int, amount: int) -> int { if mceil(amount, unit, e18()) >= 1 { mceil(amount, unit, e18()) } else { 1 } }
pub open spec fn pays(s: U, amount: int) -> Seq<CoinV> { s.map_values(|u: (Seq<char>, int)| CoinV { denom: u.0, amount: pay(u.1, amount) }) }
pub open spec fn charges(s: U, amount: int) -> Seq<CoinV> { s.map_values(|u: (Seq<char>, int)| CoinV { denom: u.0, amount: charge(u.1, amount) }) }
// total amount of one denomination in a coin list
pub open spec fn ct(s: Seq<CoinV>, d: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ct(s.drop_last(), d) + if s.last().denom == d { s.last().amount } else { 0 } } }
pub open spec fn chas(s: Seq<CoinV>, d: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).denom == d }
// what is left of `funds` after the charges for `amount` tokens: every asset present, nothing else, nothing lost
pub open spec fn refund_post(s: U, funds: Seq<CoinV>, amount: int, r: Seq<CoinV>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> chas(funds, (#[trigger] s[i]).0)
    &&& forall|i: int| 0 <= i < funds.len() ==> inu(s, (#[trigger] funds[i]).denom)
    &&& forall|d: Seq<char>| #[trigger] ct(r, d) == ct(funds, d) - ct(charges(s, amount), d)
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).amount > 0
}

// ---- pause
pub open spec fn paused_now(p: PauseInfo, env: Env) -> bool { p.paused && (p.expires_at is Some ==> env.block.time.sec() < p.expires_at->0) }
pub open spec fn refreshed(p: PauseInfo, env: Env) -> PauseInfo { if p.paused && !paused_now(p, env) { PauseInfo { paused: false, expires_at: None } } else { p } }
// ---- fee rates: strictly between zero and one; streaming at most 0.000000021979553 per second
pub open spec fn rate_ok(r: Option<Decimal>) -> bool { r is Some ==> 0 < r->0.v < e18() }
pub open spec fn max_srate() -> int { 21_979_553_000 }
pub open spec fn fee_ok(f: Fee) -> bool { rate_ok(f.mint_fee) && rate_ok(f.burn_fee) && (f.streaming_fee is Some ==> 0 < f.streaming_fee->0.rate.v <= max_srate()) }
// ---- streaming fee accrual
pub open spec fn no_collect(s: StreamingFee, now: int) -> bool { s.freeze || now == s.last_collected_at }
// (the exponent is the elapsed time modulo 2^32 seconds, 136 years, as the code computes it)
pub open spec fn frate(s: StreamingFee, now: int) -> int { dpow(e18() + s.rate.v, (now - s.last_collected_at) % 0x1_0000_0000) - e18() }
// fee per index token of an asset, and the units left
pub open spec fn fee_unit(unit: int, rate: int) -> int { mfloor(unit, rate, e18()) }
pub open spec fn units_left(u: U, rate: int) -> U { u.map_values(|x: (Seq<char>, int)| (x.0, x.1 - fee_unit(x.1, rate))) }
pub open spec fn fees_of(u: U, rate: int, supply: int) -> Seq<CoinV> { u.map_values(|x: (Seq<char>, int)| CoinV { denom: x.0, amount: pay(fee_unit(x.1, rate), supply) }) }
pub open spec fn collect_post(s0: StreamingFee, u0: U, now: int, supply: int, s1: StreamingFee, u1: U) -> bool {
    if no_collect(s0, now) { s1 == s0 && u1 == u0 } else {
        &&& now >= s0.last_collected_at
        &&& s1.rate == s0.rate && s1.freeze == s0.freeze && s1.last_collected_at == now
        &&& frate(s0, now) >= 0
        &&& u1 == units_left(u0, frate(s0, now))
        &&& forall|d: Seq<char>| #[trigger] ct(coinsv(s1.collected@), d) == ct(coinsv(s0.collected@), d) + ct(fees_of(u0, frate(s0, now), supply), d)
    }
}
// ---- rebalance plan
pub open spec fn covered(u: U, x: (Seq<char>, int)) -> bool { exists|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 == x.0 && u[j].1 >= x.1 }
pub open spec fn plan_ok(p: Rebalance, u: U) -> bool {
    &&& p.deflation@.len() > 0 && p.inflation@.len() > 0
    &&& nodup(p.deflation@ + p.inflation@)
    &&& forall|i: int| 0 <= i < p.deflation@.len() ==> covered(u, #[trigger] p.deflation@[i])
}
pub open spec fn cooled(t: TradeInfo, now: int) -> bool { t.last_traded_at is Some ==> now >= t.last_traded_at->0 + t.cooldown }

// ---- stored state
pub open spec fn k_cfg() -> VKey { VKey::Item(CONFIG_KEY@) }
pub open spec fn k_pend() -> VKey { VKey::Item(PENDING_GOV_KEY@) }
pub open spec fn k_fee() -> VKey { VKey::Item(FEE_KEY@) }
pub open spec fn k_sup() -> VKey { VKey::Item(TOTAL_SUPPLY_KEY@) }
pub open spec fn k_idx() -> VKey { VKey::Item(INDEX_UNITS_KEY@) }
pub open spec fn k_reb() -> VKey { VKey::Item(REBALANCE_KEY@) }
pub open spec fn k_res() -> VKey { VKey::Item(RESERVE_UNITS_KEY@) }
pub open spec fn k_ti(a: Seq<char>, b: Seq<char>) -> VKey { VKey::M2(TRADE_INFOS_PREFIX@, a, b) }
pub open spec fn s_cfg(st: St) -> Config { dec::<Config>(st[k_cfg()]) }
pub open spec fn s_pend(st: St) -> Addr { dec::<Addr>(st[k_pend()]) }
pub open spec fn s_fee(st: St) -> Fee { dec::<Fee>(st[k_fee()]) }
pub open spec fn s_sup(st: St) -> int { dec::<Uint128>(st[k_sup()]).v as int }
pub open spec fn s_idx(st: St) -> U { dec::<Units>(st[k_idx()])@ }
pub open spec fn s_rebon(st: St) -> bool { st.dom().contains(k_reb()) }
pub open spec fn s_reb(st: St) -> Rebalance { dec::<Rebalance>(st[k_reb()]) }
pub open spec fn s_res(st: St) -> U { dec::<Units>(st[k_res()])@ }
pub open spec fn s_ti(st: St, a: Seq<char>, b: Seq<char>) -> TradeInfo { dec::<TradeInfo>(st[k_ti(a, b)]) }
// `b` differs from `a` at most in the given entries
pub open spec fn frame1(a: St, b: St, x: VKey) -> bool {
    &&& forall|k: VKey| k != x ==> #[trigger] b.dom().contains(k) == a.dom().contains(k)
    &&& forall|k: VKey| k != x ==> #[trigger] b[k] == a[k]
}
pub open spec fn frame2(a: St, b: St, x: VKey, y: VKey) -> bool {
    &&& forall|k: VKey| k != x && k != y ==> #[trigger] b.dom().contains(k) == a.dom().contains(k)
    &&& forall|k: VKey| k != x && k != y ==> #[trigger] b[k] == a[k]
}
pub open spec fn frame3(a: St, b: St, x: VKey, y: VKey, z: VKey) -> bool {
    &&& forall|k: VKey| k != x && k != y && k != z ==> #[trigger] b.dom().contains(k) == a.dom().contains(k)
    &&& forall|k: VKey| k != x && k != y && k != z ==> #[trigger] b[k] == a[k]
}
pub open spec fn same(a: St, b: St) -> bool {
    &&& forall|k: VKey| #[trigger] b.dom().contains(k) == a.dom().contains(k)
    &&& forall|k: VKey| #[trigger] b[k] == a[k]
}
// the address used for an optional address argument
pub open spec fn who_ok(a: Option<String>, d: Addr, r: Seq<char>) -> bool { match a { Some(x) => r == x@ && addr_ok(x@), None => r == d@ } }
pub open spec fn one_cv(d: Seq<char>, n: int) -> Seq<CoinV> { seq![CoinV { denom: d, amount: n }] }
pub open spec fn m_send(to: Seq<char>, amount: Seq<CoinV>) -> MsgV { MsgV::Send { to, amount } }
// ---- mint
pub open spec fn gates(st: St, env: Env) -> bool { !paused_now(s_cfg(st).paused, env) && !s_rebon(st) }
pub open spec fn x_mint_fee(f: Fee, amount: int) -> int { match f.mint_fee { None => 0, Some(r) => if mfloor(amount, r.v as int, e18()) >= 1 { mfloor(amount, r.v as int, e18()) } else { 1 } } }
pub open spec fn mint_msgs(env: Env, c: Config, f: Fee, amount: int, rcv: Seq<char>, rto: Seq<char>, refund: Seq<CoinV>) -> Seq<MsgV> {
    let me = env.contract.address@;
    seq![MsgV::Mint { sender: me, to: me, coin: oc(c.index_denom@, amount) }]
        + (if f.mint_fee is Some { seq![m_send(f.collector@, one_cv(c.index_denom@, x_mint_fee(f, amount)))] } else { Seq::empty() })
        + seq![m_send(rcv, one_cv(c.index_denom@, amount - x_mint_fee(f, amount))), m_send(rto, refund)]
}
pub open spec fn mint_post(st0: St, st1: St, env: Env, info: MessageInfo, amount: int, receiver: Option<String>, refund_to: Option<String>, ms: Seq<MsgV>) -> bool {
    &&& gates(st0, env)
    &&& frame1(st0, st1, k_sup()) && s_sup(st1) == s_sup(st0) + amount
    &&& x_mint_fee(s_fee(st0), amount) <= amount
    &&& exists|rcv: Seq<char>, rto: Seq<char>, refund: Seq<CoinV>| #[trigger] mint_ok(st0, env, info, amount, receiver, refund_to, ms, rcv, rto, refund)
}
pub open spec fn mint_ok(st0: St, env: Env, info: MessageInfo, amount: int, receiver: Option<String>, refund_to: Option<String>, ms: Seq<MsgV>, rcv: Seq<char>, rto: Seq<char>, refund: Seq<CoinV>) -> bool {
    who_ok(receiver, info.sender, rcv) && who_ok(refund_to, info.sender, rto) && refund_post(s_idx(st0), coinsv(info.funds@), amount, refund) && ms == mint_msgs(env, s_cfg(st0), s_fee(st0), amount, rcv, rto, refund)
}
// ---- burn
pub open spec fn x_burn_fee(f: Fee, paid: int) -> int { match f.burn_fee { None => 0, Some(r) => mfloor(paid, r.v as int, e18()) } }
pub open spec fn burn_msgs(env: Env, c: Config, f: Fee, paid: int, to: Seq<char>, out: Seq<CoinV>) -> Seq<MsgV> {
    let me = env.contract.address@;
    seq![MsgV::Burn { sender: me, from: me, coin: oc(c.index_denom@, paid - x_burn_fee(f, paid)) }]
        + (if f.burn_fee is Some { seq![m_send(f.collector@, one_cv(c.index_denom@, x_burn_fee(f, paid)))] } else { Seq::empty() })
        + seq![m_send(to, out)]
}
pub open spec fn burn_post(st0: St, st1: St, env: Env, info: MessageInfo, redeem_to: Option<String>, ms: Seq<MsgV>) -> bool {
    &&& gates(st0, env)
    &&& info.funds@.len() == 1 && info.funds@[0].denom@ == s_cfg(st0).index_denom@ && info.funds@[0].amount.v > 0
    &&& ({ let paid = info.funds@[0].amount.v as int; let b = paid - x_burn_fee(s_fee(st0), paid);
        b >= 0 && s_sup(st0) >= b && frame1(st0, st1, k_sup()) && s_sup(st1) == s_sup(st0) - b
        && exists|to: Seq<char>, out: Seq<CoinV>| #[trigger] burn_ok(st0, env, info, redeem_to, ms, paid, to, out) })
}
pub open spec fn burn_ok(st0: St, env: Env, info: MessageInfo, redeem_to: Option<String>, ms: Seq<MsgV>, paid: int, to: Seq<char>, out: Seq<CoinV>) -> bool {
    who_ok(redeem_to, info.sender, to) && vx_perm(pays(s_idx(st0), paid - x_burn_fee(s_fee(st0), paid)), out) && ms == burn_msgs(env, s_cfg(st0), s_fee(st0), paid, to, out)
}

// ---- streaming fee in the stored state
// same fee settings apart from the streaming fee
pub open spec fn fee_but_stream(a: Fee, b: Fee) -> bool { a.collector == b.collector && a.mint_fee == b.mint_fee && a.burn_fee == b.burn_fee && (a.streaming_fee is Some) == (b.streaming_fee is Some) }
pub open spec fn accr_post(st0: St, st1: St, now: int) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1);
    &&& frame2(st0, st1, k_fee(), k_idx()) && fee_but_stream(f0, f1)
    &&& match f0.streaming_fee { None => s_idx(st1) == s_idx(st0), Some(s0) => collect_post(s0, s_idx(st0), now, s_sup(st0), f1.streaming_fee->0, s_idx(st1)) }
    &&& st0.dom().contains(k_fee()) && st1.dom().contains(k_fee()) && (st0.dom().contains(k_idx()) == st1.dom().contains(k_idx()))
}
pub open spec fn realize_post(st0: St, st1: St, info: MessageInfo, ms: Seq<MsgV>) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1);
    &&& f0.collector@ == info.sender@
    &&& frame1(st0, st1, k_fee()) && st1.dom().contains(k_fee()) && fee_but_stream(f0, f1)
    &&& match f0.streaming_fee {
        None => ms == Seq::<MsgV>::empty(),
        Some(s0) => { let s1 = f1.streaming_fee->0;
            ms == seq![m_send(f0.collector@, coinsv(s0.collected@))] && s1.collected@.len() == 0 && s1.rate == s0.rate && s1.freeze == s0.freeze && s1.last_collected_at == s0.last_collected_at }
    }
}
// ---- governance
pub open spec fn is_gov(st: St, info: MessageInfo) -> bool { s_cfg(st).gov@ == info.sender@ }
// the configuration changes at most in the named part
pub open spec fn cfg_pause(a: Config, b: Config) -> bool { a.gov == b.gov && a.index_denom == b.index_denom && a.reserve_denom == b.reserve_denom }
pub open spec fn pause_post(st0: St, st1: St, env: Env, info: MessageInfo, expires_at: Option<u64>) -> bool {
    &&& is_gov(st0, info) && !paused_now(s_cfg(st0).paused, env) && (expires_at is Some ==> expires_at->0 > env.block.time.sec())
    &&& frame1(st0, st1, k_cfg()) && st1.dom().contains(k_cfg()) && s_cfg(st1) == (Config { paused: PauseInfo { paused: true, expires_at }, ..s_cfg(st0) })
}
pub open spec fn release_post(st0: St, st1: St, env: Env, info: MessageInfo) -> bool {
    &&& is_gov(st0, info) && paused_now(s_cfg(st0).paused, env)
    &&& frame1(st0, st1, k_cfg()) && st1.dom().contains(k_cfg()) && cfg_pause(s_cfg(st0), s_cfg(st1)) && !s_cfg(st1).paused.paused
}
pub open spec fn update_gov_post(st0: St, st1: St, info: MessageInfo, new_gov: String) -> bool {
    &&& is_gov(st0, info) && !st0.dom().contains(k_pend())
    &&& frame1(st0, st1, k_pend()) && st1.dom().contains(k_pend()) && s_pend(st1)@ == new_gov@ && addr_ok(new_gov@)
}
pub open spec fn accept_gov_post(st0: St, st1: St, info: MessageInfo) -> bool {
    &&& st0.dom().contains(k_pend()) && s_pend(st0)@ == info.sender@
    &&& frame2(st0, st1, k_pend(), k_cfg()) && !st1.dom().contains(k_pend()) && st1.dom().contains(k_cfg()) && s_cfg(st1) == (Config { gov: s_pend(st0), ..s_cfg(st0) })
}
pub open spec fn revoke_gov_post(st0: St, st1: St, info: MessageInfo) -> bool {
    &&& is_gov(st0, info) && st0.dom().contains(k_pend())
    &&& frame1(st0, st1, k_pend()) && !st1.dom().contains(k_pend())
}
pub open spec fn new_stream(p: Option<crate::ibcx_interface::core::StreamingFeePayload>, env: Env, s: Option<StreamingFee>) -> bool {
    (p is Some) == (s is Some) && (s is Some ==> s->0.rate == p->0.rate && s->0.freeze == p->0.freeze && s->0.collected@.len() == 0 && s->0.last_collected_at == env.block.time.sec())
}
pub open spec fn fee_from(p: crate::ibcx_interface::core::FeePayload, env: Env, f: Fee) -> bool {
    f.collector@ == p.collector@ && addr_ok(p.collector@) && f.mint_fee == p.mint_fee && f.burn_fee == p.burn_fee && new_stream(p.streaming_fee, env, f.streaming_fee) && fee_ok(f)
}
pub open spec fn update_fee_post(st0: St, st1: St, env: Env, info: MessageInfo, p: crate::ibcx_interface::core::FeePayload, ms: Seq<MsgV>) -> bool {
    let f0 = s_fee(st0);
    &&& is_gov(st0, info) && !s_rebon(st0)
    &&& frame1(st0, st1, k_fee()) && st1.dom().contains(k_fee()) && fee_from(p, env, s_fee(st1))
    // everything accrued goes to the collector in charge until now
    &&& ms == (if f0.streaming_fee is Some && f0.streaming_fee->0.collected@.len() > 0 { seq![m_send(f0.collector@, coinsv(f0.streaming_fee->0.collected@))] } else { Seq::<MsgV>::empty() })
}
pub open spec fn opt_addr(a: Option<String>, r: Option<Addr>) -> bool { (a is Some) == (r is Some) && (a is Some ==> r->0@ == a->0@ && addr_ok(a->0@)) }
pub open spec fn update_mgr_post(st0: St, st1: St, info: MessageInfo, m: Option<String>) -> bool {
    &&& is_gov(st0, info) && s_rebon(st0)
    &&& frame1(st0, st1, k_reb()) && s_rebon(st1) && opt_addr(m, s_reb(st1).manager) && s_reb(st1).deflation == s_reb(st0).deflation && s_reb(st1).inflation == s_reb(st0).inflation
}
pub open spec fn update_reserve_post(st0: St, st1: St, info: MessageInfo, d: String) -> bool {
    &&& is_gov(st0, info) && !s_rebon(st0)
    &&& frame1(st0, st1, k_cfg()) && st1.dom().contains(k_cfg()) && s_cfg(st1) == (Config { reserve_denom: d, ..s_cfg(st0) })
}
pub open spec fn update_trade_post(st0: St, st1: St, info: MessageInfo, d: String, routes: crate::ibcx_interface::types::SwapRoutes, cooldown: u64, max: int) -> bool {
    &&& is_gov(st0, info) && routes@.len() > 0
    &&& ({ let k = k_ti(d@, routes@.first().1); let t = s_ti(st1, d@, routes@.first().1);
        frame1(st0, st1, k) && st1.dom().contains(k) && t.routes == routes && t.cooldown == cooldown && t.max_trade_amount.v == max && t.last_traded_at is None })
}

// ---- rebalance
pub open spec fn frozen(s: StreamingFee, on: bool, t: int, r: StreamingFee) -> bool { r.rate == s.rate && r.collected == s.collected && r.freeze == on && r.last_collected_at == t }
pub open spec fn freeze_post(st0: St, st1: St) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1);
    frame1(st0, st1, k_fee()) && st1.dom().contains(k_fee()) && fee_but_stream(f0, f1) && (f0.streaming_fee is Some ==> frozen(f0.streaming_fee->0, true, f0.streaming_fee->0.last_collected_at as int, f1.streaming_fee->0))
}
pub open spec fn unfreeze_post(st0: St, st1: St, now: int) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1);
    frame1(st0, st1, k_fee()) && st1.dom().contains(k_fee()) && fee_but_stream(f0, f1) && (f0.streaming_fee is Some ==> frozen(f0.streaming_fee->0, false, now, f1.streaming_fee->0))
}
pub open spec fn init_post(st0: St, st1: St, info: MessageInfo, manager: Option<String>, deflation: Seq<(String, Decimal)>, inflation: Seq<(String, Decimal)>) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1); let p = s_reb(st1);
    &&& is_gov(st0, info) && !s_rebon(st0)
    &&& frame3(st0, st1, k_fee(), k_reb(), k_res()) && s_rebon(st1) && st1.dom().contains(k_res()) && st1.dom().contains(k_fee())
    &&& opt_addr(manager, p.manager) && p.deflation.0@ == deflation && p.inflation.0@ == inflation && plan_ok(p, s_idx(st0))
    &&& s_res(st1).len() == 0
    &&& fee_but_stream(f0, f1) && (f0.streaming_fee is Some ==> frozen(f0.streaming_fee->0, true, f0.streaming_fee->0.last_collected_at as int, f1.streaming_fee->0))
}
pub open spec fn mgr_ok(st: St, info: MessageInfo) -> bool { s_reb(st).manager is Some ==> s_reb(st).manager->0@ == info.sender@ }
pub open spec fn met(u: U, x: (Seq<char>, int)) -> bool { exists|i: int| #[trigger] is_first(u, x.0, i) && u[i].1 <= x.1 }
pub open spec fn drop_zero(u: U) -> U decreases u.len() { if u.len() == 0 { Seq::empty() } else if u.last().1 != 0 { drop_zero(u.drop_last()).push(u.last()) } else { drop_zero(u.drop_last()) } }
pub open spec fn finalize_post(st0: St, st1: St, env: Env, info: MessageInfo) -> bool {
    let f0 = s_fee(st0); let f1 = s_fee(st1); let p = s_reb(st0);
    &&& s_rebon(st0) && mgr_ok(st0, info)
    &&& forall|i: int| 0 <= i < p.deflation@.len() ==> met(s_idx(st0), #[trigger] p.deflation@[i])
    &&& forall|i: int| 0 <= i < s_res(st0).len() ==> (#[trigger] s_res(st0)[i]).1 == 0
    &&& forall|k: VKey| k != k_fee() && k != k_idx() && k != k_reb() && k != k_res() ==> #[trigger] st1.dom().contains(k) == st0.dom().contains(k)
    &&& forall|k: VKey| k != k_fee() && k != k_idx() && k != k_reb() && k != k_res() ==> #[trigger] st1[k] == st0[k]
    &&& !s_rebon(st1) && !st1.dom().contains(k_res()) && st1.dom().contains(k_fee()) && st1.dom().contains(k_idx())
    &&& s_idx(st1) == drop_zero(s_idx(st0))
    &&& fee_but_stream(f0, f1) && (f0.streaming_fee is Some ==> frozen(f0.streaming_fee->0, false, env.block.time.sec() as int, f1.streaming_fee->0))
}
// adding to / taking from the unit of an asset
pub open spec fn ufirst(a: U, d: Seq<char>) -> int { choose|i: int| #[trigger] is_first(a, d, i) }
pub open spec fn uadd(a: U, d: Seq<char>, v: int) -> U { if inu(a, d) { a.update(ufirst(a, d), (d, a[ufirst(a, d)].1 + v)) } else { a.push((d, v)) } }
// distribution of new reserve units over the inflation weights
pub open spec fn share(x: int, w: int, tw: int) -> int { mfloor(mfloor(x, w, e18()), e18(), tw) }
pub open spec fn spread(a: U, infl: U, x: int, tw: int) -> U decreases infl.len() {
    if infl.len() == 0 { a } else { let s = share(x, infl[0].1, tw); spread(uadd(a, infl[0].0, s), infl.skip(1), x - s, tw - infl[0].1) }
}
pub open spec fn spread_all(a: U, infl: U, x: int) -> U { spread(a, infl, x, usum(infl)) }
pub open spec fn deflate_reserve_post(st0: St, st1: St, d: Seq<char>) -> bool {
    &&& frame2(st0, st1, k_idx(), k_res()) && (s_rebon(st0) ==> s_rebon(st1))
    &&& exists|target: int, cur: int| #[trigger] unit_is(s_reb(st0).deflation@, d, target) && #[trigger] unit_is(s_idx(st0), d, cur) && cur >= target
        && sub_post(s_idx(st0), d, cur - target, s_idx(st1)) && s_res(st1) == spread_all(s_res(st0), s_reb(st0).inflation@, cur - target) && usum(s_res(st1)) <= usum(s_res(st0)) + (cur - target)
}
pub open spec fn traded(t0: TradeInfo, t1: TradeInfo, now: int) -> bool { t1.routes == t0.routes && t1.cooldown == t0.cooldown && t1.max_trade_amount == t0.max_trade_amount && t1.last_traded_at is Some && t1.last_traded_at->0 == now }
pub open spec fn coin_str(d: Seq<char>, n: int) -> Seq<char> { int_str(n) + d }
pub open spec fn deflate_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, d: Seq<char>, out: int, max: int, ms: Seq<MsgV>) -> bool {
    let rd = s_cfg(st0).reserve_denom@; let t = s_ti(st0, d, rd); let supply = s_sup(st0); let now = env.block.time.sec() as int;
    &&& st0.dom().contains(k_ti(d, rd)) && cooled(t, now) && out <= t.max_trade_amount.v
    &&& frame3(st0, st1, k_idx(), k_res(), k_ti(d, rd)) && traded(t, s_ti(st1, d, rd), now) && (s_rebon(st0) ==> s_rebon(st1))
    &&& t.routes@.len() > 0 && supply > 0
    &&& exists|target: int, cur: int, sim: int| #[trigger] unit_is(s_reb(st0).deflation@, d, target) && #[trigger] unit_is(s_idx(st0), d, cur) && #[trigger] parses_to(est_out(q, t.routes@.first().0, coin_str(rd, out), t.routes@), sim)
        && 0 <= sim <= max && cur - mceil(sim, e18(), supply) >= target
        && sub_post(s_idx(st0), d, mceil(sim, e18(), supply), s_idx(st1))
        && s_res(st1) == spread_all(s_res(st0), s_reb(st0).inflation@, mfloor(out, e18(), supply)) && usum(s_res(st1)) <= usum(s_res(st0)) + mfloor(out, e18(), supply)
        && ms == seq![MsgV::SwapOut { sender: env.contract.address@, routes: t.routes@, max: int_str(sim), tout: oc(rd, out) }]
}
pub open spec fn inflate_reserve_post(st0: St, st1: St, d: Seq<char>) -> bool {
    &&& frame2(st0, st1, k_idx(), k_res()) && (s_rebon(st0) ==> s_rebon(st1))
    &&& exists|x: int| #[trigger] unit_is(s_res(st0), d, x) && add_post(s_idx(st0), d, x, s_idx(st1)) && sub_post(s_res(st0), d, x, s_res(st1))
}
pub open spec fn inflate_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, d: Seq<char>, amount: int, min: int, ms: Seq<MsgV>) -> bool {
    let rd = s_cfg(st0).reserve_denom@; let t = s_ti(st0, rd, d); let supply = s_sup(st0); let now = env.block.time.sec() as int;
    &&& st0.dom().contains(k_ti(rd, d)) && cooled(t, now) && amount <= t.max_trade_amount.v
    &&& frame3(st0, st1, k_idx(), k_res(), k_ti(rd, d)) && traded(t, s_ti(st1, rd, d), now) && (s_rebon(st0) ==> s_rebon(st1))
    &&& t.routes@.len() > 0 && supply > 0
    &&& exists|x: int, sim: int| #[trigger] unit_is(s_res(st0), d, x) && #[trigger] parses_to(est_in(q, t.routes@.first().0, coin_str(rd, amount), t.routes@), sim)
        && sim >= min && mceil(amount, e18(), supply) <= x
        && add_post(s_idx(st0), d, mfloor(sim, e18(), supply), s_idx(st1)) && sub_post(s_res(st0), d, mceil(amount, e18(), supply), s_res(st1))
        && ms == seq![MsgV::SwapIn { sender: env.contract.address@, routes: t.routes@, tin: oc(rd, amount), min: int_str(sim) }]
}
pub open spec fn trade_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, info: MessageInfo, msg: crate::ibcx_interface::core::RebalanceTradeMsg, ms: Seq<MsgV>) -> bool {
    &&& s_rebon(st0) && mgr_ok(st0, info)
    &&& match msg {
        crate::ibcx_interface::core::RebalanceTradeMsg::Deflate { target_denom, amount_out, max_amount_in } =>
            if s_cfg(st0).reserve_denom@ == target_denom@ { deflate_reserve_post(st0, st1, target_denom@) && ms == Seq::<MsgV>::empty() } else { deflate_post(st0, st1, q, env, target_denom@, amount_out.v as int, max_amount_in.v as int, ms) },
        crate::ibcx_interface::core::RebalanceTradeMsg::Inflate { target_denom, amount_in, min_amount_out } =>
            if s_cfg(st0).reserve_denom@ == target_denom@ { inflate_reserve_post(st0, st1, target_denom@) && ms == Seq::<MsgV>::empty() } else { inflate_post(st0, st1, q, env, target_denom@, amount_in.v as int, min_amount_out.v as int, ms) },
    }
}
// ---- dispatch
pub open spec fn gov_post(st0: St, st1: St, env: Env, info: MessageInfo, msg: crate::ibcx_interface::core::GovMsg, ms: Seq<MsgV>) -> bool {
    match msg {
        crate::ibcx_interface::core::GovMsg::Pause { expires_at } => pause_post(st0, st1, env, info, expires_at) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::Release {} => release_post(st0, st1, env, info) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::UpdateGov(g) => update_gov_post(st0, st1, info, g) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::AcceptGov {} => accept_gov_post(st0, st1, info) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::RevokeGov {} => revoke_gov_post(st0, st1, info) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::UpdateFeeStrategy(f) => update_fee_post(st0, st1, env, info, f, ms),
        crate::ibcx_interface::core::GovMsg::UpdateRebalanceManager(m) => update_mgr_post(st0, st1, info, m) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::UpdateReserveDenom(d) => update_reserve_post(st0, st1, info, d) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::GovMsg::UpdateTradeInfo { denom, routes, cooldown, max_trade_amount } => update_trade_post(st0, st1, info, denom, routes, cooldown, max_trade_amount.v as int) && ms == Seq::<MsgV>::empty(),
    }
}
pub open spec fn reb_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, info: MessageInfo, msg: crate::ibcx_interface::core::RebalanceMsg, ms: Seq<MsgV>) -> bool {
    match msg {
        crate::ibcx_interface::core::RebalanceMsg::Init { manager, deflation, inflation } => init_post(st0, st1, info, manager, deflation@, inflation@) && ms == Seq::<MsgV>::empty(),
        crate::ibcx_interface::core::RebalanceMsg::Trade(t) => trade_post(st0, st1, q, env, info, t, ms),
        crate::ibcx_interface::core::RebalanceMsg::Finalize {} => finalize_post(st0, st1, env, info) && ms == Seq::<MsgV>::empty(),
    }
}
// operations that settle the streaming fee first
pub open spec fn accrues(msg: crate::ibcx_interface::core::ExecuteMsg) -> bool {
    match msg {
        crate::ibcx_interface::core::ExecuteMsg::Mint { .. } => true,
        crate::ibcx_interface::core::ExecuteMsg::Burn { .. } => true,
        crate::ibcx_interface::core::ExecuteMsg::Realize {} => true,
        crate::ibcx_interface::core::ExecuteMsg::Gov(crate::ibcx_interface::core::GovMsg::UpdateFeeStrategy(f)) => true,
        crate::ibcx_interface::core::ExecuteMsg::Rebalance(crate::ibcx_interface::core::RebalanceMsg::Init { .. }) => true,
        _ => false,
    }
}
pub open spec fn op_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, info: MessageInfo, msg: crate::ibcx_interface::core::ExecuteMsg, ms: Seq<MsgV>) -> bool {
    match msg {
        crate::ibcx_interface::core::ExecuteMsg::Mint { amount, receiver, refund_to } => mint_post(st0, st1, env, info, amount.v as int, receiver, refund_to, ms),
        crate::ibcx_interface::core::ExecuteMsg::Burn { redeem_to } => burn_post(st0, st1, env, info, redeem_to, ms),
        crate::ibcx_interface::core::ExecuteMsg::Realize {} => realize_post(st0, st1, info, ms),
        crate::ibcx_interface::core::ExecuteMsg::Gov(m) => gov_post(st0, st1, env, info, m, ms),
        crate::ibcx_interface::core::ExecuteMsg::Rebalance(m) => reb_post(st0, st1, q, env, info, m, ms),
    }
}
pub open spec fn execute_post(st0: St, st1: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, info: MessageInfo, msg: crate::ibcx_interface::core::ExecuteMsg, ms: Seq<MsgV>) -> bool {
    if accrues(msg) { exists|m: St| #[trigger] accr_post(st0, m, env.block.time.sec() as int) && op_post(m, st1, q, env, info, msg, ms) } else { op_post(st0, st1, q, env, info, msg, ms) }
}

// ---- instantiation, reply, migration
pub open spec fn inst_post(st1: St, env: Env, msg: crate::ibcx_interface::core::InstantiateMsg) -> bool {
    let c = s_cfg(st1);
    &&& st1.dom().contains(k_cfg()) && st1.dom().contains(k_fee()) && st1.dom().contains(k_sup()) && st1.dom().contains(k_idx())
    &&& s_sup(st1) == 0
    &&& nodup(uview(msg.index_units@)) && s_idx(st1) == uview(msg.index_units@)
    &&& fee_from(msg.fee, env, s_fee(st1))
    &&& c.gov@ == msg.gov@ && addr_ok(msg.gov@) && !c.paused.paused && c.paused.expires_at is None && c.reserve_denom@ == msg.reserve_denom@
}
pub open spec fn reply_post(st0: St, st1: St) -> bool {
    let c0 = s_cfg(st0); let c1 = s_cfg(st1);
    frame1(st0, st1, k_cfg()) && c1.gov == c0.gov && c1.paused == c0.paused && c1.reserve_denom == c0.reserve_denom
}
pub open spec fn migrate_post(st0: St, st1: St, force: Option<bool>) -> bool {
    let v0 = stored_version(st0); let v1 = stored_version(st1);
    &&& frame1(st0, st1, version_key()) && st1.dom().contains(version_key())
    &&& v1.contract@ == crate::ibcx_core::CONTRACT_NAME@ && v1.version@ == crate::ibcx_core::CONTRACT_VERSION@
    &&& !(force == Some(true)) ==> v0.contract@ == crate::ibcx_core::CONTRACT_NAME@ && ver_lt(v0.version@, crate::ibcx_core::CONTRACT_VERSION@)
}
// ---- queries
pub open spec fn at(env: Env, time: Option<u64>) -> int { match time { Some(t) => t as int, None => env.block.time.sec() as int } }
pub open spec fn acc_units(s: StreamingFee, u: U, now: int) -> U { if no_collect(s, now) { u } else { units_left(u, frate(s, now)) } }
pub open spec fn now_units(st: St, now: int) -> U { match s_fee(st).streaming_fee { None => s_idx(st), Some(s) => acc_units(s, s_idx(st), now) } }
pub open spec fn pause_at(p: PauseInfo, now: int) -> (bool, Option<u64>) {
    if p.paused && p.expires_at is Some && now >= p.expires_at->0 { (false, None) } else { (p.paused, p.expires_at) }
}
pub open spec fn q_config(st: St, env: Env, time: Option<u64>, r: crate::ibcx_interface::core::GetConfigResponse) -> bool {
    let c = s_cfg(st);
    &&& r.gov == c.gov && r.index_denom@ == c.index_denom@ && r.reserve_denom@ == c.reserve_denom@
    &&& (r.pending_gov is Some) == st.dom().contains(k_pend()) && (r.pending_gov is Some ==> r.pending_gov->0 == s_pend(st))
    &&& (r.paused.paused, r.paused.expires_at) == pause_at(c.paused, at(env, time))
}
pub open spec fn q_fee(st: St, now: int, r: crate::ibcx_interface::core::GetFeeResponse) -> bool {
    let f = s_fee(st);
    &&& r.collector == f.collector && r.mint_fee == f.mint_fee && r.burn_fee == f.burn_fee && (r.streaming_fee is Some) == (f.streaming_fee is Some)
    &&& f.streaming_fee is Some ==> { let s = r.streaming_fee->0;
        collect_post(f.streaming_fee->0, s_idx(st), now, s_sup(st), StreamingFee { rate: s.rate, collected: s.collected, freeze: s.freeze, last_collected_at: s.last_collected_at }, now_units(st, now)) }
}
pub open spec fn q_portfolio(st: St, now: int, r: crate::ibcx_interface::core::GetPortfolioResponse) -> bool {
    r.total_supply.v == s_sup(st) && uview(r.units@) == now_units(st, now) && coinsv(r.assets@) == pays(now_units(st, now), s_sup(st))
}
pub open spec fn q_rebalance(st: St, r: crate::ibcx_interface::core::GetRebalanceResponse) -> bool {
    (r.rebalance is Some) == s_rebon(st) && (r.rebalance is Some ==> r.rebalance->0.manager == s_reb(st).manager && r.rebalance->0.deflation@ == s_reb(st).deflation.0@ && r.rebalance->0.inflation@ == s_reb(st).inflation.0@)
}
pub open spec fn ti_prefix() -> Seq<char> { TRADE_INFOS_PREFIX@ }
pub open spec fn ti_is(t: TradeInfo, a: Seq<char>, b: Seq<char>, r: crate::ibcx_interface::core::TradeInfoPayload) -> bool {
    r.denom_in@ == a && r.denom_out@ == b && r.routes == t.routes && r.cooldown == t.cooldown && r.max_trade_amount == t.max_trade_amount && r.last_traded_at == t.last_traded_at
}
pub open spec fn q_trade(st: St, a: Seq<char>, b: Seq<char>, r: crate::ibcx_interface::core::GetTradeInfoResponse) -> bool {
    (r.trade_info is Some) == st.dom().contains(k_ti(a, b)) && (r.trade_info is Some ==> ti_is(s_ti(st, a, b), a, b, r.trade_info->0))
}
// one page of a listing: the first `limit` (10 by default, at most 30) of the stored keys past the cursor, in order
pub open spec fn lo_of(start: Option<Seq<char>>, asc: bool) -> Option<(Seq<char>, bool)> { if asc && start is Some { Some((start->0, true)) } else { None } }
pub open spec fn hi_of(start: Option<Seq<char>>, asc: bool) -> Option<(Seq<char>, bool)> { if !asc && start is Some { Some((start->0, true)) } else { None } }
pub open spec fn sk_of(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn asc_of(o: Option<crate::ibcx_interface::types::RangeOrder>) -> bool { o is None || o->0 is Asc }
pub open spec fn ord_of(asc: bool) -> crate::cosmwasm_std::Order { if asc { crate::cosmwasm_std::Order::Ascending } else { crate::cosmwasm_std::Order::Descending } }
pub open spec fn lim_of(l: Option<u32>) -> int { match l { Some(x) => x as int, None => 10 } }
pub open spec fn page_len(n: int, total: int) -> int { if n <= total { n } else { total } }
pub open spec fn q_trades(st: St, a: Seq<char>, start: Option<String>, limit: Option<u32>, order: Option<crate::ibcx_interface::types::RangeOrder>, r: Seq<crate::ibcx_interface::core::TradeInfoPayload>) -> bool {
    let asc = asc_of(order); let sk = sk_of(start);
    &&& lim_of(limit) <= 30
    &&& exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, pk_key(PKey::S(ti_prefix(), a)), lo_of(sk, asc), hi_of(sk, asc), ord_of(asc), ks)
        && r.len() == page_len(lim_of(limit), ks.len() as int) && forall|i: int| 0 <= i < r.len() ==> ti_is(s_ti(st, a, ks[i]), a, ks[i], #[trigger] r[i])
}
pub open spec fn sim_mint_post(st: St, now: int, amount: int, funds: Option<Vec<Coin>>, r: crate::ibcx_interface::core::SimulateMintResponse) -> bool {
    let u = now_units(st, now); let f = s_fee(st);
    &&& x_mint_fee(f, amount) <= amount && r.mint_amount.v == amount - x_mint_fee(f, amount)
    &&& coinsv(r.fund_spent@) == charges(u, amount)
    &&& refund_post(u, match funds { Some(x) => coinsv(x@), None => charges(u, amount) }, amount, coinsv(r.refund_amount@))
}
pub open spec fn sim_burn_post(st: St, now: int, amount: int, r: crate::ibcx_interface::core::SimulateBurnResponse) -> bool {
    let b = amount - x_burn_fee(s_fee(st), amount);
    b >= 0 && r.burn_amount.v == b && coinsv(r.redeem_amount@) == pays(now_units(st, now), b)
}
pub open spec fn query_post(st: St, q: crate::cosmwasm_std::QuerierWrapper, env: Env, msg: crate::ibcx_interface::core::QueryMsg, out: Seq<u8>) -> bool {
    match msg {
        crate::ibcx_interface::core::QueryMsg::GetBalance { account } => exists|x: Uint128| out == #[trigger] json::<Uint128>(x) && x.v == q.bal(account@, s_cfg(st).index_denom@),
        crate::ibcx_interface::core::QueryMsg::GetTotalSupply {} => exists|x: Uint128| out == #[trigger] json::<Uint128>(x) && x.v == s_sup(st),
        crate::ibcx_interface::core::QueryMsg::GetConfig { time } => exists|x: crate::ibcx_interface::core::GetConfigResponse| out == #[trigger] json::<crate::ibcx_interface::core::GetConfigResponse>(x) && q_config(st, env, time, x),
        crate::ibcx_interface::core::QueryMsg::GetFee { time } => exists|x: crate::ibcx_interface::core::GetFeeResponse| out == #[trigger] json::<crate::ibcx_interface::core::GetFeeResponse>(x) && q_fee(st, at(env, time), x),
        crate::ibcx_interface::core::QueryMsg::GetPortfolio { time } => exists|x: crate::ibcx_interface::core::GetPortfolioResponse| out == #[trigger] json::<crate::ibcx_interface::core::GetPortfolioResponse>(x) && q_portfolio(st, at(env, time), x),
        crate::ibcx_interface::core::QueryMsg::GetRebalance {} => exists|x: crate::ibcx_interface::core::GetRebalanceResponse| out == #[trigger] json::<crate::ibcx_interface::core::GetRebalanceResponse>(x) && q_rebalance(st, x),
        crate::ibcx_interface::core::QueryMsg::GetTradeInfo { denom_in, denom_out } => exists|x: crate::ibcx_interface::core::GetTradeInfoResponse| out == #[trigger] json::<crate::ibcx_interface::core::GetTradeInfoResponse>(x) && q_trade(st, denom_in@, denom_out@, x),
        crate::ibcx_interface::core::QueryMsg::ListTradeInfo { denom_in, start_after, limit, order } => exists|x: crate::ibcx_interface::core::ListTradeInfoResponse| out == #[trigger] json::<crate::ibcx_interface::core::ListTradeInfoResponse>(x) && q_trades(st, denom_in@, start_after, limit, order, x.0@),
        crate::ibcx_interface::core::QueryMsg::SimulateMint { amount, funds, time } => exists|x: crate::ibcx_interface::core::SimulateMintResponse| out == #[trigger] json::<crate::ibcx_interface::core::SimulateMintResponse>(x) && sim_mint_post(st, at(env, time), amount.v as int, funds, x),
        crate::ibcx_interface::core::QueryMsg::SimulateBurn { amount, time } => exists|x: crate::ibcx_interface::core::SimulateBurnResponse| out == #[trigger] json::<crate::ibcx_interface::core::SimulateBurnResponse>(x) && sim_burn_post(st, at(env, time), amount.v as int, x),
    }
}

pub open spec fn sv(s: Seq<(String, Uint128)>) -> Seq<CoinV> { s.map_values(|x: (String, Uint128)| CoinV { denom: x.0@, amount: x.1.v as int }) }
pub proof fn l_rate_literal() ensures dec_lit("0.000000021979553"@) == max_srate()
{
    reveal_strlit("0.000000021979553");
    let s = "0.000000021979553"@;
    reveal_with_fuel(p10, 4);
    assert(p10(3) == 1000);
    assert(dparse(s, 17, 21979553, 15) == 21_979_553_000);
    assert(dparse(s, 16, 2197955, 14) == 21_979_553_000);
    assert(dparse(s, 15, 219795, 13) == 21_979_553_000);
    assert(dparse(s, 14, 21979, 12) == 21_979_553_000);
    assert(dparse(s, 13, 2197, 11) == 21_979_553_000);
    assert(dparse(s, 12, 219, 10) == 21_979_553_000);
    assert(dparse(s, 11, 21, 9) == 21_979_553_000);
    assert(dparse(s, 10, 2, 8) == 21_979_553_000);
    assert(dparse(s, 9, 0, 7) == 21_979_553_000);
    assert(dparse(s, 8, 0, 6) == 21_979_553_000);
    assert(dparse(s, 7, 0, 5) == 21_979_553_000);
    assert(dparse(s, 6, 0, 4) == 21_979_553_000);
    assert(dparse(s, 5, 0, 3) == 21_979_553_000);
    assert(dparse(s, 4, 0, 2) == 21_979_553_000);
    assert(dparse(s, 3, 0, 1) == 21_979_553_000);
    assert(dparse(s, 2, 0, 0) == 21_979_553_000);
    assert(dparse(s, 1, 0, -1) == 21_979_553_000);
    assert(dparse(s, 0, 0, -1) == 21_979_553_000);
}
pub proof fn l_ut_push(s: U, x: (Seq<char>, int), d: Seq<char>) ensures ut(s.push(x), d) == ut(s, d) + if x.0 == d { x.1 } else { 0 } { assert(s.push(x).drop_last() == s); }
pub proof fn l_ut_update(s: U, i: int, x: (Seq<char>, int), d: Seq<char>)
    requires 0 <= i < s.len(), s[i].0 == x.0
    ensures ut(s.update(i, x), d) == ut(s, d) + if x.0 == d { x.1 - s[i].1 } else { 0 }
    decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() == s.drop_last()); }
    else { assert(t.drop_last() == s.drop_last().update(i, x)); l_ut_update(s.drop_last(), i, x, d); }
}
pub proof fn l_ct_push(s: Seq<CoinV>, x: CoinV, d: Seq<char>) ensures ct(s.push(x), d) == ct(s, d) + if x.denom == d { x.amount } else { 0 } { assert(s.push(x).drop_last() == s); }
pub proof fn l_ct_update(s: Seq<CoinV>, i: int, x: CoinV, d: Seq<char>)
    requires 0 <= i < s.len(), s[i].denom == x.denom
    ensures ct(s.update(i, x), d) == ct(s, d) + if x.denom == d { x.amount - s[i].amount } else { 0 }
    decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() == s.drop_last()); }
    else { assert(t.drop_last() == s.drop_last().update(i, x)); l_ct_update(s.drop_last(), i, x, d); }
}
pub proof fn l_ct_take(s: Seq<CoinV>, k: int, d: Seq<char>) requires 0 <= k < s.len() ensures ct(s.take(k + 1), d) == ct(s.take(k), d) + if s[k].denom == d { s[k].amount } else { 0 }
{ assert(s.take(k + 1).drop_last() == s.take(k)); }
// dropping coins of amount zero keeps every total
pub proof fn l_ct_kept(s: Seq<CoinV>, keep: Seq<bool>, d: Seq<char>)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == (s[i].amount != 0)
    ensures ct(vx_kept(s, keep), d) == ct(s, d), forall|i: int| 0 <= i < vx_kept(s, keep).len() ==> (#[trigger] vx_kept(s, keep)[i]).amount != 0
    decreases s.len()
{
    if s.len() > 0 {
        let k2 = keep.drop_last();
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] k2[i] == (s.drop_last()[i].amount != 0) by { assert(k2[i] == keep[i]); }
        l_ct_kept(s.drop_last(), k2, d);
        assert(keep[s.len() - 1] == (s[s.len() - 1].amount != 0));
        if keep.last() { l_ct_push(vx_kept(s.drop_last(), k2), s.last(), d); }
    }
}
pub proof fn l_kept_map<A, B>(s: Seq<A>, keep: Seq<bool>, f: spec_fn(A) -> B) requires keep.len() == s.len() ensures vx_kept(s, keep).map_values(f) == vx_kept(s.map_values(f), keep) decreases s.len()
{
    if s.len() > 0 {
        l_kept_map(s.drop_last(), keep.drop_last(), f);
        assert(s.map_values(f).drop_last() == s.drop_last().map_values(f));
        assert(s.map_values(f).last() == f(s.last()));
        assert(vx_kept(s, keep).map_values(f) =~= vx_kept(s.map_values(f), keep));
    }
}
pub proof fn l_flat_empty<T>(s: Seq<Option<T>>) requires crate::vx::vx_flat(s).len() == 0 ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None decreases s.len()
{
    if s.len() > 0 {
        if s.last() is Some { assert(false); }
        l_flat_empty(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is None by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
pub proof fn l_perm_coins(a: Seq<Coin>, b: Seq<Coin>) requires vx_perm(a, b) ensures vx_perm(coinsv(a), coinsv(b))
{
    let p = choose|p: Seq<int>| #[trigger] vx_perm_by(a, b, p);
    assert forall|i: int| 0 <= i < coinsv(b).len() implies #[trigger] coinsv(b)[i] == coinsv(a)[p[i]] by { assert(b[i] == a[p[i]]); }
    assert(vx_perm_by(coinsv(a), coinsv(b), p));
}
pub proof fn l_first_unique(s: U, d: Seq<char>, i: int, j: int) requires is_first(s, d, i), is_first(s, d, j) ensures i == j { if i < j { assert(s[i].0 != d); } else if j < i { assert(s[j].0 != d); } }
pub proof fn l_uadd(a: U, d: Seq<char>, v: int, b: U) requires add_post(a, d, v, b) ensures b == uadd(a, d, v)
{ if inu(a, d) { let i = choose|i: int| #[trigger] is_first(a, d, i) && b == a.update(i, (d, a[i].1 + v)); l_first_unique(a, d, i, ufirst(a, d)); } }
pub proof fn l_drop_zero(s: U, keep: Seq<bool>) requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == (s[i].1 != 0) ensures vx_kept(s, keep) == drop_zero(s) decreases s.len()
{
    if s.len() > 0 {
        let k2 = keep.drop_last();
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] k2[i] == (s.drop_last()[i].1 != 0) by { assert(k2[i] == keep[i]); }
        l_drop_zero(s.drop_last(), k2);
        assert(keep[s.len() - 1] == (s[s.len() - 1].1 != 0));
    }
}
pub proof fn l_dsum(s: Seq<Unit>, m: Seq<Decimal>) requires m.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] m[i]).v == s[i].1.v ensures dsum(m) == usum(uview(s)) decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] m.drop_last()[i]).v == s.drop_last()[i].1.v by { assert(m[i].v == s[i].1.v); }
        l_dsum(s.drop_last(), m.drop_last());
        assert(uview(s).drop_last() =~= uview(s.drop_last()));
        assert(m[s.len() - 1].v == s[s.len() - 1].1.v);
    }
}
pub proof fn l_dsum_u(s: Seq<Unit>, t: int)
    requires exists|m: Seq<Decimal>| m.len() == s.len() && t == #[trigger] dsum(m) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] m[i]).v == s[i].1.v
    ensures t == usum(uview(s))
{
    let m = choose|m: Seq<Decimal>| m.len() == s.len() && t == #[trigger] dsum(m) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] m[i]).v == s[i].1.v;
    l_dsum(s, m);
}
pub proof fn l_usum_upd(s: U, i: int, x: (Seq<char>, int)) requires 0 <= i < s.len() ensures usum(s.update(i, x)) == usum(s) + x.1 - s[i].1 decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() == s.drop_last()); } else { assert(t.drop_last() == s.drop_last().update(i, x)); l_usum_upd(s.drop_last(), i, x); }
}
pub proof fn l_add_usum(a: U, d: Seq<char>, v: int, b: U) requires add_post(a, d, v, b) ensures usum(b) == usum(a) + v
{
    if inu(a, d) { let i = choose|i: int| #[trigger] is_first(a, d, i) && b == a.update(i, (d, a[i].1 + v)); l_usum_upd(a, i, (d, a[i].1 + v)); } else { assert(b.drop_last() =~= a); }
}
pub proof fn l_met(u: U, d: Seq<char>, cur: int, target: int) requires unit_is(u, d, cur), cur <= target ensures met(u, (d, target))
{ let i = choose|i: int| is_first(u, d, i) && (#[trigger] u[i]).1 == cur; assert(is_first(u, (d, target).0, i)); }
// the unit taken for `a` tokens is the amount per token rounded up
pub proof fn l_ceil_unit(a: int, s: int, u: int, f: int)
    requires a >= 0, s > 0, u == mfloor(a, e18(), s), f == mfloor(s, u, e18())
    ensures f < a ==> u + 1 == mceil(a, e18(), s), f >= a ==> u == mceil(a, e18(), s)
{
    let e = e18(); let p = a * e; let t = s * u;
    assert(u == p / s);
    assert(p == s * u + p % s && 0 <= p % s < s) by(nonlinear_arith) requires u == p / s, s > 0;
    assert(f == t / e);
    assert(t == e * f + t % e && 0 <= t % e < e) by(nonlinear_arith) requires f == t / e, e > 0;
    if f < a { assert(e * f + e <= a * e) by(nonlinear_arith) requires f + 1 <= a, e > 0; assert(p % s != 0); }
    else { assert(e * f >= a * e) by(nonlinear_arith) requires f >= a, e > 0; assert(p % s == 0); }
}
// taking at most what `gap` units are worth takes at most `gap` units
pub proof fn l_ceil_gap(a: int, gap: int, s: int) requires a >= 0, s > 0, gap >= 0, a <= mfloor(s, gap, e18()) ensures mceil(a, e18(), s) <= gap
{
    let e = e18(); let p = a * e; let t = s * gap; let f = t / e; let u = p / s;
    assert(t == e * f + t % e && 0 <= t % e) by(nonlinear_arith) requires f == t / e, e > 0;
    assert(a * e <= e * f) by(nonlinear_arith) requires a <= f, e > 0;
    assert(p == s * u + p % s && 0 <= p % s < s) by(nonlinear_arith) requires u == p / s, s > 0;
    if p % s == 0 { assert(u <= gap) by(nonlinear_arith) requires s * u <= s * gap, s > 0; }
    else { assert(u + 1 <= gap) by(nonlinear_arith) requires s * u < s * gap, s > 0; }
}
pub proof fn l_first(s: U, d: Seq<char>) requires inu(s, d) ensures exists|i: int| #[trigger] is_first(s, d, i)
    decreases s.len()
{
    if s[0].0 == d { assert(is_first(s, d, 0)); }
    else {
        let t = s.skip(1);
        let k = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == d;
        assert(t[k - 1].0 == d);
        l_first(t, d);
        let i = choose|i: int| #[trigger] is_first(t, d, i);
        assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] s[j]).0 != d by { if j > 0 { assert(t[j - 1].0 != d); } }
        assert(s[i + 1].0 == d);
        assert(is_first(s, d, i + 1));
    }
}
}
}
