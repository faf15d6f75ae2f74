//! ibcx-core: random operation histories against an exact twin, plus state/ledger invariants
use crate::util::*;
use crate::world::Coins;
use crate::world::*;
use cosmwasm_std::*;
use ibcx_core::contract as c;
use ibcx_interface::core::GovMsg;
use ibcx_interface::core::*;
use ibcx_interface::types::{RangeOrder, SwapRoutes};
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet};

pub const MAX_STREAM: u128 = 21979553000; // 0.000000021979553

// ---------------------------------------------------------------- state as stored on chain
type U = Vec<(String, u128)>;
#[derive(Deserialize)]
struct JPause { paused: bool, expires_at: Option<u64> }
#[derive(Deserialize)]
struct JConfig { gov: String, paused: JPause, index_denom: String, reserve_denom: String }
#[derive(Deserialize)]
struct JCoin { denom: String, amount: Uint128 }
#[derive(Deserialize)]
struct JSf { rate: Decimal, collected: Vec<JCoin>, freeze: bool, last_collected_at: u64 }
#[derive(Deserialize)]
struct JFee { collector: String, mint_fee: Option<Decimal>, burn_fee: Option<Decimal>, streaming_fee: Option<JSf> }
#[derive(Deserialize)]
struct JReb { manager: Option<String>, deflation: Vec<(String, Decimal)>, inflation: Vec<(String, Decimal)> }
#[derive(Deserialize)]
struct JHop { pool_id: u64, token_denom: String }
#[derive(Deserialize)]
struct JTi { routes: Vec<JHop>, cooldown: u64, max_trade_amount: Uint128, last_traded_at: Option<u64> }

#[derive(Clone, Debug, PartialEq)]
pub struct Sf { pub rate: u128, pub collected: U, pub freeze: bool, pub last: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Reb { pub manager: Option<String>, pub defl: U, pub infl: U }
#[derive(Clone, Debug, PartialEq)]
pub struct Ti { pub routes: Vec<(u64, String)>, pub cooldown: u64, pub max: u128, pub last: Option<u64> }
#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub gov: String,
    pub pending: Option<String>,
    pub paused: bool,
    pub expires: Option<u64>,
    pub denom: String,
    pub reserve: String,
    pub supply: u128,
    pub units: U,
    pub collector: String,
    pub mint_fee: Option<u128>,
    pub burn_fee: Option<u128>,
    pub sf: Option<Sf>,
    pub reb: Option<Reb>,
    pub runits: Option<U>,
    pub ti: BTreeMap<(String, String), Ti>,
}
fn us(v: Vec<(String, Decimal)>) -> U {
    v.into_iter().map(|(d, x)| (d, x.atomics().u128())).collect()
}
pub fn load(m: &Mem) -> St {
    let c: JConfig = jget(m, "config").expect("config");
    let f: JFee = jget(m, "fee").expect("fee");
    let mut ti = BTreeMap::new();
    let mut pre = vec![0u8, 11];
    pre.extend_from_slice(b"trade_infos");
    for (k, v) in m.0.iter() {
        if k.starts_with(&pre) {
            let r = &k[13..];
            let l = ((r[0] as usize) << 8) | r[1] as usize;
            let a = String::from_utf8(r[2..2 + l].to_vec()).unwrap();
            let b = String::from_utf8(r[2 + l..].to_vec()).unwrap();
            let t: JTi = serde_json::from_slice(v).expect("trade info");
            ti.insert((a, b), Ti {
                routes: t.routes.into_iter().map(|h| (h.pool_id, h.token_denom)).collect(),
                cooldown: t.cooldown, max: t.max_trade_amount.u128(), last: t.last_traded_at,
            });
        }
    }
    St {
        gov: c.gov,
        pending: jget(m, "pending_gov"),
        paused: c.paused.paused,
        expires: c.paused.expires_at,
        denom: c.index_denom,
        reserve: c.reserve_denom,
        supply: jget::<Uint128>(m, "total_supply").expect("supply").u128(),
        units: us(jget(m, "index_units").expect("units")),
        collector: f.collector,
        mint_fee: f.mint_fee.map(|d| d.atomics().u128()),
        burn_fee: f.burn_fee.map(|d| d.atomics().u128()),
        sf: f.streaming_fee.map(|s| Sf {
            rate: s.rate.atomics().u128(),
            collected: s.collected.into_iter().map(|c| (c.denom, c.amount.u128())).collect(),
            freeze: s.freeze,
            last: s.last_collected_at,
        }),
        reb: jget::<JReb>(m, "rebalances").map(|r| Reb { manager: r.manager, defl: us(r.deflation), infl: us(r.inflation) }),
        runits: jget::<Vec<(String, Decimal)>>(m, "reserve_units").map(us),
        ti,
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Debug)]
pub enum Op {
    Mint { amount: u128, receiver: Option<String>, refund_to: Option<String> },
    Burn { redeem_to: Option<String> },
    Realize,
    Pause(Option<u64>),
    Release,
    UpdateGov(String),
    AcceptGov,
    RevokeGov,
    UpdateFee { collector: String, mint: Option<u128>, burn: Option<u128>, sf: Option<(u128, bool)> },
    UpdateManager(Option<String>),
    UpdateReserve(String),
    UpdateTi { denom: String, routes: Vec<(u64, String)>, cooldown: u64, max: u128 },
    Init { manager: Option<String>, defl: U, infl: U },
    Deflate { denom: String, out: u128, max_in: u128 },
    Inflate { denom: String, inn: u128, min_out: u128 },
    Finalize,
}
fn ds(v: &U) -> Vec<(String, Decimal)> {
    v.iter().map(|(d, x)| (d.clone(), dec(*x))).collect()
}
fn routes(v: &[(u64, String)]) -> SwapRoutes {
    SwapRoutes(v.iter().map(|(p, d)| ibcx_interface::types::SwapRoute { pool_id: *p, token_denom: d.clone() }).collect())
}
fn payload(collector: &str, mint: Option<u128>, burn: Option<u128>, sf: Option<(u128, bool)>) -> FeePayload {
    FeePayload {
        collector: collector.to_string(),
        mint_fee: mint.map(dec),
        burn_fee: burn.map(dec),
        streaming_fee: sf.map(|(r, f)| StreamingFeePayload { rate: dec(r), freeze: f }),
    }
}
pub fn to_msg(op: &Op) -> ExecuteMsg {
    match op {
        Op::Mint { amount, receiver, refund_to } => ExecuteMsg::Mint { amount: (*amount).into(), receiver: receiver.clone(), refund_to: refund_to.clone() },
        Op::Burn { redeem_to } => ExecuteMsg::Burn { redeem_to: redeem_to.clone() },
        Op::Realize => ExecuteMsg::Realize {},
        Op::Pause(e) => ExecuteMsg::Gov(GovMsg::Pause { expires_at: *e }),
        Op::Release => ExecuteMsg::Gov(GovMsg::Release {}),
        Op::UpdateGov(g) => ExecuteMsg::Gov(GovMsg::UpdateGov(g.clone())),
        Op::AcceptGov => ExecuteMsg::Gov(GovMsg::AcceptGov {}),
        Op::RevokeGov => ExecuteMsg::Gov(GovMsg::RevokeGov {}),
        Op::UpdateFee { collector, mint, burn, sf } => ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(payload(collector, *mint, *burn, *sf))),
        Op::UpdateManager(m) => ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(m.clone())),
        Op::UpdateReserve(d) => ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(d.clone())),
        Op::UpdateTi { denom, routes: r, cooldown, max } => {
            ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: denom.clone(), routes: routes(r), cooldown: *cooldown, max_trade_amount: (*max).into() })
        }
        Op::Init { manager, defl, infl } => ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: manager.clone(), deflation: ds(defl), inflation: ds(infl) }),
        Op::Deflate { denom, out, max_in } => ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Deflate {
            target_denom: denom.clone(), amount_out: (*out).into(), max_amount_in: (*max_in).into() })),
        Op::Inflate { denom, inn, min_out } => ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Inflate {
            target_denom: denom.clone(), amount_in: (*inn).into(), min_amount_out: (*min_out).into() })),
        Op::Finalize => ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}),
    }
}
fn kind(op: &Op) -> &'static str {
    match op {
        Op::Mint { .. } => "mint", Op::Burn { .. } => "burn", Op::Realize => "realize", Op::Pause(_) => "pause", Op::Release => "release",
        Op::UpdateGov(_) => "update_gov", Op::AcceptGov => "accept_gov", Op::RevokeGov => "revoke_gov", Op::UpdateFee { .. } => "update_fee",
        Op::UpdateManager(_) => "update_manager", Op::UpdateReserve(_) => "update_reserve", Op::UpdateTi { .. } => "update_trade_info",
        Op::Init { .. } => "rebalance_init", Op::Deflate { .. } => "deflate", Op::Inflate { .. } => "inflate", Op::Finalize => "finalize",
    }
}

// ---------------------------------------------------------------- exact twin
pub fn effectively_paused(s: &St, now: u64) -> bool {
    s.paused && s.expires.map_or(true, |e| e > now)
}
fn get<'a>(u: &'a U, d: &str) -> Option<u128> {
    u.iter().find(|x| x.0 == d).map(|x| x.1)
}
fn add(u: &mut U, d: &str, v: u128) -> Option<()> {
    match u.iter_mut().find(|x| x.0 == d) {
        Some(x) => x.1 = x.1.checked_add(v)?,
        None => u.push((d.to_string(), v)),
    }
    Some(())
}
fn sub(u: &mut U, d: &str, v: u128) -> Option<()> {
    let x = u.iter_mut().find(|x| x.0 == d)?;
    x.1 = x.1.checked_sub(v)?;
    Some(())
}
fn dup(u: &U) -> bool {
    let mut s = BTreeSet::new();
    u.iter().any(|x| !s.insert(x.0.clone()))
}
/// accrual; None when the arithmetic cannot be done (the real operation reverts)
pub fn accrue(s: &mut St, now: u64) -> Option<()> {
    let supply = s.supply;
    if let Some(f) = s.sf.as_mut() {
        let delta = now.checked_sub(f.last)?;
        if f.freeze || delta == 0 {
            return Some(());
        }
        let r = dec(ONE.checked_add(f.rate)?).checked_pow(delta as u32).ok()?.atomics().u128() - ONE;
        for u in s.units.iter_mut() {
            let fu = mul_div_floor(u.1, r, ONE)?;
            u.1 = u.1.checked_sub(fu)?;
            add(&mut f.collected, &u.0, mul_div_floor(fu, supply, ONE)?)?;
        }
        f.last = now;
    }
    Some(())
}
pub fn charge(u: &U, amount: u128) -> Option<U> {
    u.iter().map(|(d, x)| Some((d.clone(), mul_div_ceil(*x, amount, ONE)?.max(1)))).collect()
}
pub fn redeem(u: &U, amount: u128) -> Option<U> {
    u.iter().map(|(d, x)| Some((d.clone(), mul_div_floor(*x, amount, ONE)?))).collect()
}
/// what is left of the funds; Err names why the funds cannot pay
pub fn refund(u: &U, funds: &Coins, amount: u128) -> Option<Result<BTreeMap<String, u128>, String>> {
    let mut left: BTreeMap<String, u128> = funds.iter().cloned().collect();
    let mut foreign: BTreeSet<String> = left.keys().cloned().collect();
    for (d, a) in charge(u, amount)? {
        foreign.remove(&d);
        match left.get_mut(&d) {
            None => return Some(Err(format!("{d} is missing"))),
            Some(x) => match x.checked_sub(a) {
                None => return Some(Err(format!("{d} is underpaid: {a} are due"))),
                Some(y) => *x = y,
            },
        }
    }
    if !foreign.is_empty() {
        return Some(Err(format!("{foreign:?} not in the portfolio")));
    }
    left.retain(|_, v| *v > 0);
    Some(Ok(left))
}
pub fn check_rates(mint: Option<u128>, burn: Option<u128>, sf: Option<u128>) -> Option<String> {
    for (n, r) in [("mint", mint), ("burn", burn), ("streaming", sf)] {
        if let Some(r) = r {
            if r == 0 || r >= ONE {
                return Some(format!("{n} fee rate {} outside (0,1)", dec_str(r)));
            }
        }
    }
    if let Some(r) = sf {
        if r > MAX_STREAM {
            return Some(format!("streaming fee rate {} above the maximum", dec_str(r)));
        }
    }
    None
}
pub fn plan_problem(units: &U, defl: &U, infl: &U) -> Option<String> {
    if defl.is_empty() || infl.is_empty() {
        return Some("an empty list".into());
    }
    let all: U = defl.iter().chain(infl.iter()).cloned().collect();
    if dup(&all) {
        return Some("a repeated asset".into());
    }
    for (d, t) in defl {
        match get(units, d) {
            None => return Some(format!("{d} is not in the portfolio")),
            Some(u) if *t > u => return Some(format!("target of {d} above its unit")),
            _ => {}
        }
    }
    None
}

pub struct Pred {
    /// reasons why it has to be rejected, each with the properties demanding it
    pub reject: Vec<(&'static [&'static str], String)>,
    /// twin's result when not rejected (None: out of arithmetic range, the twin does not predict)
    pub next: Option<St>,
    pub sends: BTreeMap<(String, String), u128>,
    pub mints: BTreeMap<(String, String), u128>,
    pub burns: BTreeMap<(String, String), u128>,
    pub swaps: Vec<Msg>,
    pub asked: Option<SQ>,
    /// the accrual due before the operation is within arithmetic range
    pub accrued: bool,
}
fn addz(m: &mut BTreeMap<(String, String), u128>, to: &str, d: &str, a: u128) {
    if a > 0 {
        let e = m.entry((to.to_string(), d.to_string())).or_insert(0);
        *e = e.saturating_add(a);
    }
}
fn oaddr(a: &Option<String>, sender: &str) -> String {
    a.clone().unwrap_or_else(|| sender.to_string())
}
fn bad(a: &Option<String>) -> bool {
    a.as_ref().map_or(false, |x| !addr_ok(x))
}
fn deduct_unit(amount: u128, supply: u128) -> Option<u128> {
    mul_div_ceil(amount, ONE, supply)
}
/// shares of `e` for the weights, each rounded down against what is left; the rest of the last weight
fn distribute(e: u128, infl: &U) -> Option<U> {
    let mut left = e;
    let mut tw: u128 = 0;
    for x in infl {
        tw = tw.checked_add(x.1)?;
    }
    let mut out = vec![];
    for (d, w) in infl {
        // Decimal arithmetic: (left * w) rounded down to 18 digits, divided by the weight left, rounded down
        let p = mul_div_floor(left, *w, ONE)?;
        let s = mul_div_floor(p, ONE, tw)?;
        out.push((d.clone(), s));
        left = left.checked_sub(s)?;
        tw = tw.checked_sub(*w)?;
    }
    Some(out)
}

pub fn predict(s0: &St, op: &Op, sender: &str, funds: &Coins, now: u64, est: Option<u128>) -> Pred {
    let mut p = Pred { reject: vec![], next: None, sends: Default::default(), mints: Default::default(), burns: Default::default(), swaps: vec![], asked: None, accrued: true };
    let mut s = s0.clone();
    let accrues = matches!(op, Op::Mint { .. } | Op::Burn { .. } | Op::Realize | Op::Init { .. } | Op::UpdateFee { .. });
    let acc_ok = !accrues || accrue(&mut s, now).is_some();
    p.accrued = acc_ok;
    macro_rules! rej { ($t:expr, $w:expr) => { p.reject.push((&$t, $w.to_string())) } }
    let is_gov = sender == s.gov;
    // rejections that do not depend on arithmetic
    match op {
        Op::Mint { receiver, refund_to, .. } => {
            if effectively_paused(&s, now) { rej!(["C04"], "the contract is paused"); }
            if s.reb.is_some() { rej!(["C04"], "a rebalance is in progress"); }
            if bad(receiver) || bad(refund_to) { rej!(["C01"], "an invalid address"); }
        }
        Op::Burn { redeem_to } => {
            if effectively_paused(&s, now) { rej!(["C04"], "the contract is paused"); }
            if s.reb.is_some() { rej!(["C04"], "a rebalance is in progress"); }
            if bad(redeem_to) { rej!(["C02"], "an invalid address"); }
            if funds.len() != 1 || funds[0].0 != s.denom || funds[0].1 == 0 { rej!(["C02"], "the payment is not index tokens only"); }
        }
        Op::Realize => if sender != s.collector { rej!(["C11"], "only the collector can realize"); },
        Op::Pause(e) => {
            if !is_gov { rej!(["C04", "C05"], "only governance can pause"); }
            if effectively_paused(&s, now) { rej!(["C04"], "already paused"); }
            if e.map_or(false, |e| e <= now) { rej!(["C04"], "expiry not in the future"); }
        }
        Op::Release => {
            if !is_gov { rej!(["C04", "C05"], "only governance can release"); }
            if !effectively_paused(&s, now) { rej!(["C04"], "not paused"); }
        }
        Op::UpdateGov(g) => {
            if !is_gov { rej!(["C05"], "only governance can propose"); }
            if s.pending.is_some() { rej!(["C05"], "a proposal is pending"); }
            if !addr_ok(g) { rej!(["C05"], "an invalid address"); }
        }
        Op::AcceptGov => if s.pending.as_deref() != Some(sender) { rej!(["C05"], "only the proposed address can accept"); },
        Op::RevokeGov => {
            if !is_gov { rej!(["C05"], "only governance can revoke"); }
            if s.pending.is_none() { p.reject.push((&[], "nothing to revoke".into())); }
        }
        Op::UpdateFee { collector, mint, burn, sf } => {
            if !is_gov { rej!(["C05", "C11"], "only governance can change fees"); }
            if s.reb.is_some() { rej!(["C05"], "fees cannot change during a rebalance"); }
            if !addr_ok(collector) { rej!(["C05"], "an invalid collector"); }
            if let Some(e) = check_rates(*mint, *burn, sf.map(|x| x.0)) { rej!(["C12"], e); }
        }
        Op::UpdateManager(m) => {
            if !is_gov { rej!(["C05", "C06"], "only governance can change the manager"); }
            if s.reb.is_none() { rej!(["C05"], "no rebalance in progress"); }
            if bad(m) { rej!(["C05"], "an invalid manager"); }
        }
        Op::UpdateReserve(_) => {
            if !is_gov { rej!(["C05"], "only governance can change the reserve asset"); }
            if s.reb.is_some() { rej!(["C05"], "the reserve asset cannot change during a rebalance"); }
        }
        Op::UpdateTi { .. } => if !is_gov { rej!(["C05"], "only governance can change trade routes"); },
        Op::Init { manager, .. } => {
            if !is_gov { rej!(["C05", "C06"], "only governance can start a rebalance"); }
            if s.reb.is_some() { rej!(["C06"], "a rebalance is in progress"); }
            if bad(manager) { p.reject.push((&[], "an invalid manager".into())); }
        }
        Op::Deflate { .. } | Op::Inflate { .. } | Op::Finalize => match &s.reb {
            None => rej!(["C06"], "no rebalance in progress"),
            Some(r) => if r.manager.as_deref().map_or(false, |m| m != sender) { rej!(["C06"], "only the manager can do this"); },
        },
    }
    if !acc_ok { return p; }
    // arithmetic
    let r: Option<()> = (|| {
        match op {
            Op::Mint { amount, receiver, refund_to } => {
                let left = match refund(&s.units, funds, *amount)? {
                    Err(e) => { rej!(["C01"], format!("the funds do not pay: {e}")); return None; }
                    Ok(v) => v,
                };
                let fee = match s.mint_fee { Some(r) => mul_div_floor(r, *amount, ONE)?.max(1), None => 0 };
                if fee > *amount { rej!(["C01"], "the fee is more than the amount"); return None; }
                s.supply = s.supply.checked_add(*amount)?;
                addz(&mut p.mints, SELF, &s.denom, *amount);
                addz(&mut p.sends, &s.collector, &s.denom, fee);
                addz(&mut p.sends, &oaddr(receiver, sender), &s.denom, amount - fee);
                for (d, a) in left { addz(&mut p.sends, &oaddr(refund_to, sender), &d, a); }
            }
            Op::Burn { redeem_to } => {
                let paid = funds.first()?.1;
                let fee = match s.burn_fee { Some(r) => mul_div_floor(r, paid, ONE)?, None => 0 };
                let b = paid.checked_sub(fee)?;
                s.supply = match s.supply.checked_sub(b) { Some(v) => v, None => { rej!(["C02"], "more than the supply"); return None; } };
                addz(&mut p.burns, SELF, &s.denom, b);
                addz(&mut p.sends, &s.collector, &s.denom, fee);
                for (d, a) in redeem(&s.units, b)? { addz(&mut p.sends, &oaddr(redeem_to, sender), &d, a); }
            }
            Op::Realize => {
                if let Some(f) = s.sf.as_mut() {
                    for (d, a) in std::mem::take(&mut f.collected) { addz(&mut p.sends, &s.collector, &d, a); }
                }
            }
            Op::Pause(e) => { s.paused = true; s.expires = *e; }
            Op::Release => { s.paused = false; s.expires = None; }
            Op::UpdateGov(g) => s.pending = Some(g.clone()),
            Op::AcceptGov => { s.gov = s.pending.take()?; }
            Op::RevokeGov => s.pending = None,
            Op::UpdateFee { collector, mint, burn, sf } => {
                if let Some(f) = &s.sf {
                    for (d, a) in f.collected.clone() { addz(&mut p.sends, &s.collector, &d, a); }
                }
                s.collector = collector.clone();
                s.mint_fee = *mint;
                s.burn_fee = *burn;
                s.sf = sf.map(|(r, f)| Sf { rate: r, collected: vec![], freeze: f, last: now });
            }
            Op::UpdateManager(m) => { if let Some(r) = s.reb.as_mut() { r.manager = m.clone(); } }
            Op::UpdateReserve(d) => s.reserve = d.clone(),
            Op::UpdateTi { denom, routes, cooldown, max } => {
                let key = (denom.clone(), routes.first()?.1.clone());
                s.ti.insert(key, Ti { routes: routes.clone(), cooldown: *cooldown, max: *max, last: None });
            }
            Op::Init { manager, defl, infl } => {
                if let Some(e) = plan_problem(&s.units, defl, infl) { rej!(["C07"], format!("the plan has {e}")); return None; }
                if let Some(f) = s.sf.as_mut() { f.freeze = true; }
                s.reb = Some(Reb { manager: manager.clone(), defl: defl.clone(), infl: infl.clone() });
                s.runits = Some(vec![]);
            }
            Op::Deflate { denom, out, max_in } => {
                let reb = s.reb.clone()?;
                let mut ru = s.runits.clone()?;
                let target = match get(&reb.defl, denom) { Some(t) => t, None => { rej!(["C08"], "not a deflation asset"); return None; } };
                let cur = get(&s.units, denom)?;
                let gap = match cur.checked_sub(target) { Some(g) => g, None => { rej!(["C08"], "below the target already"); return None; } };
                let expand;
                if *denom == s.reserve {
                    sub(&mut s.units, denom, gap)?;
                    mul_div_floor(gap, s.supply, ONE)?;
                    expand = gap;
                } else {
                    let key = (denom.clone(), s.reserve.clone());
                    let t = match s.ti.get(&key) { Some(t) => t.clone(), None => { rej!(["C08"], "no trade route for the pair"); return None; } };
                    if let Some(l) = t.last { if (now as u128) < l as u128 + t.cooldown as u128 { rej!(["C08"], "the cooldown has not elapsed"); } }
                    if *out > t.max { rej!(["C08"], "above the maximum trade amount"); }
                    let sim = est?;
                    p.asked = Some(SQ::EstOut { pool: t.routes.first()?.0, token_out: format!("{}{}", out, s.reserve), routes: t.routes.clone() });
                    let gap_amount = mul_div_floor(gap, s.supply, ONE)?;
                    if sim > gap_amount { rej!(["C08"], "takes the asset below its target"); }
                    if sim > *max_in { rej!(["C08"], "above the caller's limit"); }
                    let du = deduct_unit(sim, s.supply)?;
                    if du > gap { rej!(["C08"], "takes the unit below its target"); }
                    if sub(&mut s.units, denom, du).is_none() { rej!(["C08", "C14"], "the unit would become negative"); return None; }
                    expand = mul_div_floor(*out, ONE, s.supply)?;
                    s.ti.get_mut(&key)?.last = Some(now);
                    p.swaps.push(Msg::SwapOut { sender: SELF.into(), routes: t.routes.clone(), denom: s.reserve.clone(), amount: *out, limit: sim });
                }
                for (d, x) in distribute(expand, &reb.infl)? {
                    if add(&mut ru, &d, x).is_none() { rej!(["C08", "C14"], "a reserve unit would overflow"); return None; }
                }
                s.runits = Some(ru);
            }
            Op::Inflate { denom, inn, min_out } => {
                let mut ru = s.runits.clone()?;
                let have = match get(&ru, denom) { Some(x) => x, None => { rej!(["C08"], "nothing reserved for the asset"); return None; } };
                if *denom == s.reserve {
                    mul_div_floor(have, s.supply, ONE)?;
                    if add(&mut s.units, denom, have).is_none() { rej!(["C08", "C14"], "a unit would overflow"); return None; }
                    sub(&mut ru, denom, have)?;
                } else {
                    let key = (s.reserve.clone(), denom.clone());
                    let t = match s.ti.get(&key) { Some(t) => t.clone(), None => { rej!(["C08"], "no trade route for the pair"); return None; } };
                    if let Some(l) = t.last { if (now as u128) < l as u128 + t.cooldown as u128 { rej!(["C08"], "the cooldown has not elapsed"); } }
                    if *inn > t.max { rej!(["C08"], "above the maximum trade amount"); }
                    let sim = est?;
                    p.asked = Some(SQ::EstIn { pool: t.routes.first()?.0, token_in: format!("{}{}", inn, s.reserve), routes: t.routes.clone() });
                    if *inn > mul_div_floor(have, s.supply, ONE)? { rej!(["C08"], "spends more than the reserve of the asset"); }
                    if sim < *min_out { rej!(["C08"], "below the caller's limit"); }
                    let du = deduct_unit(*inn, s.supply)?;
                    if sub(&mut ru, denom, du).is_none() { rej!(["C08", "C14"], "the reserve unit would become negative"); return None; }
                    if add(&mut s.units, denom, mul_div_floor(sim, ONE, s.supply)?).is_none() { rej!(["C08", "C14"], "a unit would overflow"); return None; }
                    s.ti.get_mut(&key)?.last = Some(now);
                    p.swaps.push(Msg::SwapIn { sender: SELF.into(), routes: t.routes.clone(), denom: s.reserve.clone(), amount: *inn, limit: sim });
                }
                s.runits = Some(ru);
            }
            Op::Finalize => {
                let reb = s.reb.clone()?;
                for (d, t) in &reb.defl {
                    match get(&s.units, d) { Some(u) if u <= *t => {}, _ => { rej!(["C09"], format!("{d} is above its target")); } }
                }
                if s.runits.clone()?.iter().any(|x| x.1 > 0) { rej!(["C09"], "reserve units are left"); }
                s.units.retain(|x| x.1 > 0);
                s.reb = None;
                s.runits = None;
                if let Some(f) = s.sf.as_mut() { f.freeze = false; f.last = now; }
            }
        }
        Some(())
    })();
    if r.is_some() && p.reject.is_empty() { p.next = Some(s); }
    p
}

/// properties a wrong state component stands for
fn tags_of(op: &Op, comp: &str) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = match comp {
        "gov" | "pending" | "index_denom" | "reserve_denom" => vec!["C05"],
        "paused" => vec!["C04", "C05"],
        "supply" => vec!["C03"],
        "units" => vec!["C10"],
        "collector" => vec!["C05", "C11"],
        "mint_fee" | "burn_fee" | "sf_rate" => vec!["C05", "C11", "C12"],
        "sf_collected" => vec!["C10", "C11"],
        "sf_freeze" => vec!["C06"],
        "sf_last" => vec!["C10"],
        "reb" => vec!["C06"],
        "runits" => vec!["C08"],
        "ti" => vec!["C05", "C08"],
        _ => vec![],
    };
    match (op, comp) {
        (Op::Mint { .. }, "supply") => t.push("C01"),
        (Op::Burn { .. }, "supply") => t.push("C02"),
        (Op::Deflate { .. } | Op::Inflate { .. }, "units") => { t.clear(); t.extend(["C08", "C14"]) }
        (Op::Deflate { .. } | Op::Inflate { .. }, "runits") => t.push("C14"),
        (Op::Deflate { .. } | Op::Inflate { .. }, "ti") => { t.clear(); t.push("C08") }
        (Op::Deflate { .. } | Op::Inflate { .. }, "reb") => t.push("C08"),
        (Op::Finalize, "units") => { t.clear(); t.push("C09") }
        (Op::Finalize, "reb" | "runits") => { t.clear(); t.extend(["C09", "C06"]) }
        (Op::Finalize, "sf_freeze" | "sf_last") => { t.clear(); t.extend(["C06", "C10"]) }
        (Op::Init { .. }, "reb" | "runits") => { t.clear(); t.extend(["C07", "C06"]) }
        (Op::UpdateManager(_), "reb") => { t.clear(); t.extend(["C05", "C06"]) }
        (Op::UpdateFee { .. }, "sf_freeze" | "sf_last") => { t.extend(["C05", "C10", "C11"]); t.dedup(); }
        (Op::UpdateTi { .. }, "ti") => { t.clear(); t.push("C05"); t.push("C08") }
        _ => {}
    }
    t
}
fn diffs(a: &St, b: &St) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    macro_rules! d { ($n:expr, $x:expr, $y:expr) => { if $x != $y { v.push(($n, format!("{}: expected {:?}, stored {:?}", $n, $x, $y))) } } }
    d!("gov", a.gov, b.gov);
    d!("pending", a.pending, b.pending);
    // an expired pause and a cleared one are the same to every observer, compare what is effective from now on elsewhere
    d!("paused", (a.paused, a.expires), (b.paused, b.expires));
    d!("index_denom", a.denom, b.denom);
    d!("reserve_denom", a.reserve, b.reserve);
    d!("supply", a.supply, b.supply);
    d!("units", a.units, b.units);
    d!("collector", a.collector, b.collector);
    d!("mint_fee", a.mint_fee, b.mint_fee);
    d!("burn_fee", a.burn_fee, b.burn_fee);
    d!("sf_rate", a.sf.as_ref().map(|f| f.rate), b.sf.as_ref().map(|f| f.rate));
    let nz = |f: &Sf| { let mut m: BTreeMap<String, u128> = BTreeMap::new(); for (d, x) in &f.collected { if *x > 0 { *m.entry(d.clone()).or_insert(0) += x; } } m };
    d!("sf_collected", a.sf.as_ref().map(nz), b.sf.as_ref().map(nz));
    d!("sf_freeze", a.sf.as_ref().map(|f| f.freeze), b.sf.as_ref().map(|f| f.freeze));
    d!("sf_last", a.sf.as_ref().map(|f| f.last), b.sf.as_ref().map(|f| f.last));
    d!("reb", a.reb, b.reb);
    d!("runits", a.runits, b.runits);
    d!("ti", a.ti, b.ti);
    v
}

// ---------------------------------------------------------------- the world of one history
pub struct W {
    pub m: Mem,
    pub q: Q,
    pub now: u64,
    pub plan: bool,
    /// tokens received and sent per asset (everything but the index token)
    pub inn: BTreeMap<String, Uint256>,
    pub out: BTreeMap<String, Uint256>,
}
pub fn exec(m: &Mem, q: &Q, now: u64, sender: &str, funds: &Coins, msg: ExecuteMsg) -> Result<(Mem, Response), String> {
    let mut m2 = m.clone();
    let a = api();
    let r = guarded(|| {
        c::execute(DepsMut { storage: &mut m2, api: &a, querier: QuerierWrapper::new(q) }, env_at(now), info(sender, funds), msg)
    })?;
    Ok((m2, r))
}
pub fn query<T: serde::de::DeserializeOwned>(m: &Mem, q: &Q, now: u64, msg: QueryMsg) -> Result<T, String> {
    let a = api();
    let b = guarded(|| c::query(Deps { storage: m, api: &a, querier: QuerierWrapper::new(q) }, env_at(now), msg))?;
    serde_json::from_slice(b.as_slice()).map_err(|e| format!("answer: {e}"))
}

pub const ASSETS: [&str; 6] = ["uatom", "ujuno", "umars", "uosmo", "usomm", "uusdc"];
const ALIKE: [&str; 8] = ["ibc/27AB", "ibc/27ab", "IBC/27AB", "uatom", "UATOM", "uatom2", "uato", "27AB"];
const KINDS: [&str; 8] = ["factory/cosmos2contract/uibcx2", "factory/cosmos2contract", "factory/osmo1x/uibcx", "gamm/pool/1", "gamm/pool/10", "uibcx", "uosmo", "ibc/0"];
thread_local! { static NAMES: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
/// names related to one name: prefix, suffix, extension, one letter off, other case, reversed
fn kin(r: &mut Rng) -> Vec<String> {
    let b = r.pick(&ASSETS).to_string();
    let mut v = vec![b.clone(), format!("{b}{b}"), format!("z{b}"), format!("{b}2"), b[..b.len() - 1].to_string(), b[1..].to_string(), b.to_uppercase(), b.chars().rev().collect()];
    let mut c = b.into_bytes();
    let k = r.below(c.len() as u64) as usize;
    c[k] = if c[k] == b'q' { b'w' } else { b'q' };
    v.push(String::from_utf8(c).unwrap());
    v.sort();
    v.dedup();
    v
}
/// the denoms of the current history: usually six plain ones, sometimes look-alikes, other kinds, or many
fn draw_names(r: &mut Rng) {
    let v: Vec<String> = match r.below(10) {
        0 | 1 => ALIKE.iter().map(|x| x.to_string()).collect(),
        2 => KINDS.iter().map(|x| x.to_string()).collect(),
        3 => (0..if r.chance(1, 6) { 70 } else { 26 }).map(|i| format!("d{i}")).collect(),
        4 => kin(r),
        _ => ASSETS.iter().map(|x| x.to_string()).collect(),
    };
    NAMES.with(|n| *n.borrow_mut() = v);
}
fn names_now() -> Vec<String> { NAMES.with(|n| n.borrow().clone()) }
fn asset(r: &mut Rng) -> String { NAMES.with(|n| r.pick(&n.borrow()[..]).clone()) }
pub const PEOPLE: [&str; 8] = ["govern", "governor", "alice1", "alice", "bobby2", "carol3", "manage", "collec"];

fn gen_unit(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => 1,
        1 => ONE,
        2 => ONE - 1,
        3 => r.mag(30),
        4 => 333_333_333_333_333_333,
        _ => r.mag(19),
    }
}
fn gen_rate(r: &mut Rng) -> u128 {
    match r.below(10) {
        0 => 1,
        1 => ONE - 1,
        2 => ONE,
        3 => 0,
        4 => ONE + 1,
        5 => ONE / 100,
        _ => r.u128() % ONE,
    }
}
fn gen_stream(r: &mut Rng) -> u128 {
    match r.below(10) {
        0 => MAX_STREAM,
        1 => MAX_STREAM + 1,
        2 => 0,
        3 => 1,
        4 => ONE,
        5 => MAX_STREAM - 1,
        6 => MAX_STREAM + 1 + r.u128() % MAX_STREAM,
        _ => 1 + r.u128() % MAX_STREAM,
    }
}
fn gen_addr(r: &mut Rng) -> String {
    if r.chance(1, 12) { "X".to_string() } else { r.pick(&PEOPLE).to_string() }
}
fn gen_oaddr(r: &mut Rng) -> Option<String> {
    if r.chance(1, 2) { None } else if r.chance(1, 20) { Some(SELF.to_string()) } else { Some(gen_addr(r)) }
}

fn instantiate(cx: &mut Ctx) -> Option<W> {
    draw_names(&mut cx.rng);
    let mut names: Vec<String> = names_now();
    let n = if names.len() > 20 { 1 + cx.rng.below(names.len() as u64 - 1) as usize } else { 1 + cx.rng.below(4) as usize };
    for i in (1..names.len()).rev() {
        let j = cx.rng.below(i as u64 + 1) as usize;
        names.swap(i, j);
    }
    let mut units: U = names[..n].iter().map(|d| (d.to_string(), gen_unit(&mut cx.rng))).collect();
    if cx.rng.chance(1, 15) {
        let x = units[cx.rng.below(n as u64) as usize].clone();
        units.push((x.0, gen_unit(&mut cx.rng)));
    }
    let mint = if cx.rng.chance(2, 3) { Some(gen_rate(&mut cx.rng)) } else { None };
    let burn = if cx.rng.chance(2, 3) { Some(gen_rate(&mut cx.rng)) } else { None };
    let sf = if cx.rng.chance(3, 4) { Some((gen_stream(&mut cx.rng), cx.rng.chance(1, 6))) } else { None };
    let now = *cx.rng.pick(&[1_700_000_000, 1_700_000_000, 1_700_000_000, 0, 86_399, 4_294_967_290, 2_147_483_640]);
    let reserve = asset(&mut cx.rng);
    let msg = InstantiateMsg {
        gov: "govern".into(),
        fee: payload("collec", mint, burn, sf),
        index_denom: "uibcx".into(),
        index_units: ds(&units),
        reserve_denom: reserve.clone(),
    };
    cx.op(format!("instantiate at {now}: units {units:?} mint {mint:?} burn {burn:?} streaming {sf:?} reserve {reserve}"));
    cx.kind("instantiate");
    let mut m = Mem::default();
    let q = Q::default();
    let a = api();
    let r = guarded(|| c::instantiate(DepsMut { storage: &mut m, api: &a, querier: QuerierWrapper::new(&q) }, env_at(now), info("alice1", &[]), msg));
    let why_rates = check_rates(mint, burn, sf.map(|x| x.0));
    match r {
        Ok(resp) => {
            cx.check(&["C12"], why_rates.is_none(), || format!("instantiation accepted although {}", why_rates.clone().unwrap()));
            cx.check(&["C14"], !dup(&units), || "instantiation accepted a repeated asset".into());
            let s = load(&m);
            if s.mint_fee != mint || s.burn_fee != burn || s.sf.as_ref().map(|f| f.rate) != sf.map(|f| f.0) {
                cx.fail(&["C12"], format!("fee rates not stored as given: {s:?}"));
            }
            cx.eq(&["C14", "C13"], "units stored at instantiation", &units, &s.units);
            cx.check(&["C03", "C01"], s.supply == 0, || format!("supply {} after instantiation", s.supply));
            cx.check(&["C03", "C11"], s.sf.as_ref().map_or(true, |f| f.collected.is_empty()), || "collected fees at instantiation".into());
            cx.check(&["C05"], s.gov == "govern" && s.pending.is_none() && s.reserve == reserve, || format!("settings at instantiation: {s:?}"));
            cx.check(&["C04"], !s.paused, || "paused at instantiation".into());
            cx.check(&["C06"], s.reb.is_none(), || "rebalance at instantiation".into());
            cx.check(&["C10"], s.sf.as_ref().map_or(true, |f| f.last == now), || "accrual time at instantiation".into());
            let _ = resp;
        }
        Err(e) => {
            if why_rates.is_none() && !dup(&units) {
                // C12: rates inside the bounds have to be accepted
                let mut m = Mem::default();
                let msg = InstantiateMsg { gov: "govern".into(), fee: payload("collec", None, None, None), index_denom: "uibcx".into(), index_units: ds(&units), reserve_denom: reserve };
                let r2 = guarded(|| c::instantiate(DepsMut { storage: &mut m, api: &a, querier: QuerierWrapper::new(&q) }, env_at(now), info("alice1", &[]), msg));
                cx.check(&["C12"], r2.is_err(), || format!("instantiation with rates inside the bounds rejected: {e}"));
            }
            return None;
        }
    }
    // the token factory answers with the full denom
    let denom = format!("factory/{SELF}/uibcx");
    let data = {
        use prost::Message;
        osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgCreateDenomResponse { new_token_denom: denom.clone() }.encode_to_vec()
    };
    let rp = Reply { id: 0, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary(data)) }) };
    let r = guarded(|| c::reply(DepsMut { storage: &mut m, api: &a, querier: QuerierWrapper::new(&q) }, env_at(now), rp));
    if r.is_ok() {
        let s = load(&m);
        cx.eq(&["C05", "C01"], "index denom after the reply", &denom, &s.denom);
    } else {
        return None;
    }
    // an unknown reply changes nothing (fails)
    Some(W { m, q, now, inn: BTreeMap::new(), out: BTreeMap::new(), plan: cx.rng.chance(1, 3) })
}

fn gen_funds(cx: &mut Ctx, s: &St, amount: u128) -> Coins {
    let mut f: Coins = match charge(&s.units, amount) {
        Some(v) => v,
        None => s.units.iter().map(|u| (u.0.clone(), cx.rng.mag(20))).collect(),
    };
    match cx.rng.below(10) {
        0 if !f.is_empty() => {
            let i = cx.rng.below(f.len() as u64) as usize;
            f[i].1 = f[i].1.saturating_sub(1);
        }
        1 if !f.is_empty() => {
            let i = cx.rng.below(f.len() as u64) as usize;
            f.remove(i);
        }
        2 => {
            let d = asset(&mut cx.rng);
            if !f.iter().any(|x| x.0 == d) {
                f.push((d, 1 + cx.rng.mag(6)));
            }
        }
        3 | 4 | 5 => {
            for x in f.iter_mut() {
                if cx.rng.chance(1, 2) {
                    x.1 = x.1.saturating_add(cx.rng.mag(12));
                }
            }
        }
        6 => {
            // floor of the product, one short of what is due whenever there is a fraction
            for x in f.iter_mut() {
                if let Some(u) = get(&s.units, &x.0) {
                    x.1 = mul_div_floor(u, amount, ONE).unwrap_or(1);
                }
            }
        }
        _ => {}
    }
    sorted_funds(f)
}

/// the next sensible step of a history made of whole rebalances (large supply, routes for every asset, trades that reach
/// their targets, finalization), so that the late states of the procedure are visited often
fn directed(cx: &mut Ctx, w: &mut W, s: &St) -> Option<(Op, String, Coins, Option<u128>)> {
    let gov = s.gov.clone();
    if effectively_paused(s, w.now) && s.reb.is_none() {
        return Some((Op::Release, gov, vec![], None));
    }
    if s.supply < ONE && s.reb.is_none() {
        let mut sacc = s.clone();
        accrue(&mut sacc, w.now)?;
        let amount = match cx.rng.below(3) { 0 => ONE * 10, 1 => cx.rng.u128() % (ONE * 1000) + 3 * ONE, _ => ONE * (2 + cx.rng.below(100_000) as u128) };
        let f = sorted_funds(charge(&sacc.units, amount)?);
        return Some((Op::Mint { amount, receiver: None, refund_to: None }, cx.rng.pick(&PEOPLE).to_string(), f, None));
    }
    let small: Vec<String> = names_now().into_iter().take(7).collect();
    match &s.reb {
        None => {
            for d in &small {
                if *d == s.reserve { continue; }
                for (a, b) in [(d.clone(), s.reserve.clone()), (s.reserve.clone(), d.clone())] {
                    if !s.ti.contains_key(&(a.clone(), b.clone())) && cx.rng.chance(9, 10) {
                        let mut rt = vec![(1 + cx.rng.below(50), b)];
                        if cx.rng.chance(1, 4) { rt.push((1 + cx.rng.below(50), asset(&mut cx.rng))); }
                        return Some((Op::UpdateTi { denom: a, routes: rt, cooldown: if cx.rng.chance(1, 5) { u64::MAX - cx.rng.pick(&[0, 1, 5, w.now, w.now + 100]) } else { *cx.rng.pick(&[0, 0, 1, 10]) }, max: if cx.rng.chance(1, 3) { cx.rng.mag(26) } else { u128::MAX } }, gov, vec![], None));
                    }
                }
            }
            let mut sacc = s.clone();
            accrue(&mut sacc, w.now)?;
            let (mut defl, mut infl): (U, U) = (vec![], vec![]);
            // a long plan, nearly done from the start
            let long = sacc.units.len() > 8 && cx.rng.chance(1, 2);
            for (d, u) in &sacc.units {
                if long { if cx.rng.chance(9, 10) { defl.push((d.clone(), if cx.rng.chance(9, 10) { *u } else { u / 2 })); } continue; }
                if cx.rng.chance(1, 2) { defl.push((d.clone(), match cx.rng.below(4) { 0 => 0, 1 => *u, 2 => u / 2, _ => cx.rng.u128() % (u + 1) })); }
            }
            for d in &small {
                if !defl.iter().any(|x| x.0 == *d) && (cx.rng.chance(1, 3) || infl.is_empty()) { infl.push((d.clone(), *cx.rng.pick(&[ONE, ONE, 2 * ONE, ONE / 2, ONE / 3, 7]))); }
            }
            if cx.rng.chance(1, 2) { infl.reverse(); }
            let manager = if cx.rng.chance(1, 2) { None } else { Some(cx.rng.pick(&PEOPLE).to_string()) };
            Some((Op::Init { manager, defl, infl }, gov, vec![], None))
        }
        Some(reb) => {
            let who = reb.manager.clone().unwrap_or_else(|| cx.rng.pick(&PEOPLE).to_string());
            if cx.rng.chance(1, 12) { return Some((Op::Finalize, who, vec![], None)); }
            let ru = s.runits.clone().unwrap_or_default();
            let open: Vec<(String, u128)> = reb.defl.iter().filter_map(|(d, t)| get(&s.units, d).and_then(|u| u.checked_sub(*t)).filter(|g| *g > 0).map(|g| (d.clone(), g))).collect();
            let rest: Vec<(String, u128)> = ru.iter().filter(|x| x.1 > 0).cloned().collect();
            if !open.is_empty() && (rest.is_empty() || cx.rng.chance(2, 3)) {
                let (d, g) = cx.rng.pick(&open).clone();
                let ga = mul_div_floor(g, s.supply, ONE)?;
                let sim = match cx.rng.below(5) { 0 => ga / 2, 1 => ga.saturating_sub(1), _ => ga };
                let mut out = (sim / (1 + cx.rng.below(3) as u128)).max(1);
                if let Some(t) = s.ti.get(&(d.clone(), s.reserve.clone())) { out = out.min(t.max); }
                w.q.est_out = Some(sim);
                return Some((Op::Deflate { denom: d, out, max_in: if cx.rng.chance(1, 2) { sim } else { u128::MAX } }, who, vec![], Some(sim)));
            }
            if !rest.is_empty() {
                let (d, u) = cx.rng.pick(&rest).clone();
                let mut inn = mul_div_floor(u, s.supply, ONE)?;
                if cx.rng.chance(1, 4) { inn /= 2; }
                if let Some(t) = s.ti.get(&(s.reserve.clone(), d.clone())) { inn = inn.min(t.max); }
                let sim = inn / (1 + cx.rng.below(3) as u128);
                w.q.est_in = Some(sim);
                return Some((Op::Inflate { denom: d, inn, min_out: if cx.rng.chance(1, 2) { sim } else { 0 } }, who, vec![], Some(sim)));
            }
            Some((Op::Finalize, who, vec![], None))
        }
    }
}
fn gen_op(cx: &mut Ctx, w: &mut W, s: &St) -> (Op, String, Coins, Option<u128>) {
    if w.plan && cx.rng.chance(5, 6) {
        if let Some(x) = directed(cx, w, s) { return x; }
    }
    let r = &mut cx.rng;
    let mut sacc = s.clone();
    let _ = accrue(&mut sacc, w.now);
    let gov = s.gov.clone();
    let who_gov = |r: &mut Rng| if r.chance(1, 8) { r.pick(&PEOPLE).to_string() } else { gov.clone() };
    let any = |r: &mut Rng| r.pick(&PEOPLE).to_string();
    let in_reb = s.reb.is_some();
    let pause_like = effectively_paused(s, w.now);
    let mut k = r.below(100);
    if in_reb {
        // mostly trades and finalization
        k = match r.below(20) { 0 => 5, 1 => 20, 2 => 90, 3 => 60, 4 => 66, 5 => 92, 6 => 30, 7 => 40, 8 => 50, 9 => 95, 10 => 52, 11 | 12 => 99, _ => 97 };
    } else if pause_like && r.chance(1, 3) {
        k = 40;
    }
    match k {
        0..=27 if k < 18 || !in_reb && k < 18 => {
            let amount = if r.chance(1, 30) { 0 } else if r.chance(1, 25) { r.u128() } else { r.mag(22) };
            let receiver = gen_oaddr(r);
            let refund_to = gen_oaddr(r);
            let sender = any(r);
            let f = gen_funds(cx, &sacc, amount);
            (Op::Mint { amount, receiver, refund_to }, sender, f, None)
        }
        18..=27 => {
            let amt = match r.below(6) {
                0 => s.supply,
                1 => s.supply.saturating_add(1),
                2 => 1,
                3 => s.supply / 2,
                _ => if s.supply > 0 { 1 + r.u128() % s.supply } else { 1 },
            };
            let mut f = vec![(s.denom.clone(), amt)];
            if r.chance(1, 10) { for _ in 0..1 + r.below(3) { f.push((asset(r), 1 + r.mag(5))); } }
            if r.chance(1, 20) { f = vec![(asset(r), amt)]; }
            let redeem_to = gen_oaddr(r);
            (Op::Burn { redeem_to }, any(r), sorted_funds(f), None)
        }
        28..=34 => {
            let who = if r.chance(1, 5) { any(r) } else { s.collector.clone() };
            (Op::Realize, who, vec![], None)
        }
        35..=39 => {
            let e = match r.below(6) { 5 => Some(u64::MAX), 0 => None, 1 => Some(w.now), 2 => Some(w.now + 1), 3 => Some(w.now.saturating_sub(1)), _ => Some(w.now + 1 + r.below(100)) };
            (Op::Pause(e), who_gov(r), vec![], None)
        }
        40..=44 => (Op::Release, who_gov(r), vec![], None),
        45..=49 => (Op::UpdateGov(gen_addr(r)), who_gov(r), vec![], None),
        50..=53 => {
            let who = if r.chance(2, 3) { s.pending.clone().unwrap_or(gov.clone()) } else { any(r) };
            (Op::AcceptGov, who, vec![], None)
        }
        54..=56 => (Op::RevokeGov, who_gov(r), vec![], None),
        57..=62 => {
            let mint = if r.chance(2, 3) { Some(gen_rate(r)) } else { None };
            let burn = if r.chance(2, 3) { Some(gen_rate(r)) } else { None };
            let sf = if r.chance(3, 4) { Some((gen_stream(r), r.chance(1, 6))) } else { None };
            // often only part of the strategy changes
            let sf = match &s.sf { Some(f) if r.chance(1, 3) => Some((f.rate, if r.chance(1, 3) { !f.freeze } else { r.chance(1, 6) })), _ => sf };
            let mint = if r.chance(1, 5) { s.mint_fee } else { mint };
            let burn = if r.chance(1, 5) { s.burn_fee } else { burn };
            let (mint, burn) = if r.chance(1, 2) { (mint.map(|x| x % ONE), burn.map(|x| x % ONE)) } else { (mint, burn) };
            (Op::UpdateFee { collector: if r.chance(1, 15) { "Y".into() } else { any(r) }, mint, burn, sf }, who_gov(r), vec![], None)
        }
        63..=65 => (Op::UpdateReserve(asset(r)), who_gov(r), vec![], None),
        66..=67 => (Op::UpdateManager(gen_oaddr(r)), who_gov(r), vec![], None),
        68..=80 | 90..=92 => {
            let denom = if r.chance(1, 2) { s.reserve.clone() } else { asset(r) };
            let tail = if denom == s.reserve || r.chance(1, 6) { asset(r) } else { s.reserve.clone() };
            let mut rt = vec![(1 + r.below(1000), tail)];
            if r.chance(1, 3) { rt.push((1 + r.below(1000), asset(r))); while r.chance(1, 3) { rt.push((r.below(1 << 40), asset(r))); } }
            let max = match r.below(4) { 0 => r.mag(10), 1 => u128::MAX, _ => r.mag(25) };
            (Op::UpdateTi { denom, routes: rt, cooldown: *r.pick(&[0, 0, 1, 1, 10, 10, 3600, 3600, 604_800, u64::MAX, w.now, w.now + 1]), max }, who_gov(r), vec![], None)
        }
        81..=89 => {
            let mut names: Vec<String> = names_now();
            for i in (1..names.len()).rev() { let j = r.below(i as u64 + 1) as usize; names.swap(i, j); }
            let mut defl: U = vec![];
            let mut infl: U = vec![];
            for (d, u) in sacc.units.iter() {
                if r.chance(2, 3) {
                    let t = match r.below(6) { 0 => 0, 1 => *u, 2 => u / 2, 3 => u.saturating_sub(1), 4 => if *u > 0 { r.u128() % *u } else { 0 }, _ => u / 10 };
                    defl.push((d.clone(), t));
                }
            }
            for d in names.iter() {
                if !defl.iter().any(|x| x.0 == *d) && r.chance(1, 2) {
                    infl.push((d.clone(), match r.below(5) { 0 => 1, 1 => ONE, 2 => ONE / 3, 3 => r.mag(20), _ => 2 * ONE }));
                }
            }
            match r.below(17) {
                8 => { if let Some(x) = defl.first_mut() { x.0 = crate::util::variant(r, &x.0); } }
                9 => { if let Some(x) = defl.first().cloned() { let n = crate::util::variant(r, &x.0); if !n.is_empty() { infl.push((n, ONE)); } } }
                10 => { if let Some(x) = infl.first_mut() { x.0 = crate::util::variant(r, &x.0); } }
                0 => { if let Some(x) = defl.first().cloned() { defl.push(x) } }
                1 => { if let Some(x) = infl.first().cloned() { infl.push(x) } }
                2 => { if let Some(x) = defl.first().cloned() { infl.push(x) } }
                3 => { if let Some(x) = defl.last_mut() { x.1 = x.1.saturating_add(ONE * 1000) } }
                4 => defl.push((names[0].clone(), 0)),
                5 => infl.clear(),
                6 => defl.clear(),
                7 => { if let Some(x) = defl.first_mut() { if let Some(u) = get(&sacc.units, &x.0) { x.1 = u.saturating_add(1); } } }
                _ => {}
            }
            (Op::Init { manager: if r.chance(1, 2) { None } else { Some(gen_addr(r)) }, defl, infl }, who_gov(r), vec![], None)
        }
        93..=98 => {
            let who = match s.reb.as_ref().and_then(|x| x.manager.clone()) { Some(m) if !r.chance(1, 10) => m, _ => any(r) };
            let reb = s.reb.clone().unwrap_or(Reb { manager: None, defl: vec![], infl: vec![] });
            let ru = s.runits.clone().unwrap_or_default();
            let do_defl = r.chance(1, 2);
            if do_defl {
                let denom = if reb.defl.is_empty() || r.chance(1, 15) { asset(r) } else { r.pick(&reb.defl).0.clone() };
                let gap = get(&s.units, &denom).unwrap_or(0).saturating_sub(get(&reb.defl, &denom).unwrap_or(0));
                let ga = mul_div_floor(gap, s.supply, ONE).unwrap_or(u128::MAX);
                let sim = match r.below(8) { 0 => ga, 1 => ga.saturating_add(1), 2 => ga.saturating_sub(1), 3 => 0, 4 => r.mag(20), 5 => ga / 3, 6 => 1, _ => if ga > 0 { r.u128() % ga } else { 0 } };
                let max_in = match r.below(5) { 0 => sim, 1 => sim.saturating_sub(1), 2 => sim.saturating_add(r.mag(10)), _ => u128::MAX };
                let mut out = match r.below(4) { 0 => r.mag(22), 1 => 1, _ => r.mag(18) };
                if let Some(t) = s.ti.get(&(denom.clone(), s.reserve.clone())) { match r.below(6) { 0 => out = t.max, 1 => out = t.max.saturating_add(1), _ => {} } }
                w.q.est_out = Some(sim);
                (Op::Deflate { denom, out, max_in }, who, vec![], Some(sim))
            } else {
                let denom = if ru.is_empty() || r.chance(1, 15) { asset(r) } else { r.pick(&ru).0.clone() };
                let ra = mul_div_floor(get(&ru, &denom).unwrap_or(0), s.supply, ONE).unwrap_or(u128::MAX);
                let mut inn = match r.below(7) { 0 => ra, 1 => ra.saturating_add(1), 2 => ra, 3 => ra / 2, 4 => ra, 5 => 1, _ => if ra > 0 { r.u128() % ra } else { 0 } };
                if let Some(t) = s.ti.get(&(s.reserve.clone(), denom.clone())) { match r.below(8) { 0 => inn = t.max, 1 => inn = t.max.saturating_add(1), _ => {} } }
                let sim = match r.below(4) { 0 => 0, 1 => 1, _ => r.mag(22) };
                let min_out = match r.below(5) { 0 => sim, 1 => sim.saturating_add(1), _ => sim / 2 };
                w.q.est_in = Some(sim);
                (Op::Inflate { denom, inn, min_out }, who, vec![], Some(sim))
            }
        }
        _ => {
            let who = match s.reb.as_ref().and_then(|x| x.manager.clone()) { Some(m) if !r.chance(1, 10) => m, _ => any(r) };
            (Op::Finalize, who, vec![], None)
        }
    }
}

fn invariants(cx: &mut Ctx, w: &W, s: &St) {
    // C12
    if let Some(e) = check_rates(s.mint_fee, s.burn_fee, s.sf.as_ref().map(|f| f.rate)) {
        cx.fail(&["C12"], format!("stored fee out of bounds: {e}"));
    }
    // C14
    cx.check(&["C14"], !dup(&s.units), || format!("an asset twice in the portfolio: {:?}", s.units));
    cx.check(&["C14"], s.runits.as_ref().map_or(true, |r| !dup(r)), || format!("an asset twice among the reserve units: {:?}", s.runits));
    // C06
    if s.reb.is_some() {
        cx.check(&["C06"], s.sf.as_ref().map_or(true, |f| f.freeze), || "streaming fee not frozen during a rebalance".into());
    }
    // C03
    let mut owed: BTreeMap<String, Uint256> = BTreeMap::new();
    for (d, u) in &s.units {
        *owed.entry(d.clone()).or_default() += u256(*u) * u256(s.supply);
    }
    if let Some(f) = &s.sf {
        for (d, a) in &f.collected {
            *owed.entry(d.clone()).or_default() += u256(*a) * u256(ONE);
        }
    }
    if let Some(r) = &s.runits {
        for (_, u) in r {
            *owed.entry(s.reserve.clone()).or_default() += u256(*u) * u256(s.supply);
        }
    }
    for (d, o) in owed {
        let i = w.inn.get(&d).copied().unwrap_or_default() * u256(ONE);
        let u = w.out.get(&d).copied().unwrap_or_default() * u256(ONE);
        cx.check(&["C03"], i >= u + o, || format!("{d}: the contract received {i}, sent {u} and owes {o} (all times 10^18)"));
    }
}

fn queries(cx: &mut Ctx, w: &W, s: &St) {
    let t0 = s.sf.as_ref().map_or(w.now, |f| f.last.max(1));
    let time = match cx.rng.below(8) {
        0 => None,
        1 => Some(w.now),
        2 | 3 => Some(w.now + cx.rng.below(100_000)),
        4 => Some(t0 + cx.rng.below(w.now.saturating_sub(t0) + 1)),
        5 => Some(t0),
        6 => s.expires.and_then(|e| e.checked_sub(1)).filter(|e| *e < 18_000_000_000),
        _ => s.expires.filter(|e| *e >= t0 && *e < 18_000_000_000).or(Some(w.now + 1)),
    };
    let t = time.unwrap_or(w.now);
    cx.kind("queries");
    let m = &w.m;
    match query::<GetConfigResponse>(m, &w.q, w.now, QueryMsg::GetConfig { time }) {
        Ok(r) => {
            let eff = effectively_paused(s, t);
            cx.check(&["C04", "C13"], r.paused.paused == eff, || format!("config query for time {t} says paused={}, effective {eff} (stored {:?} {:?})", r.paused.paused, s.paused, s.expires));
            if eff { cx.eq(&["C04", "C13"], "config query: pause expiry", &s.expires, &r.paused.expires_at); }
            cx.eq(&["C13"], "config query: settings", &(s.gov.clone(), s.pending.clone(), s.denom.clone(), s.reserve.clone()),
                &(r.gov.to_string(), r.pending_gov.map(|a| a.to_string()), r.index_denom, r.reserve_denom));
        }
        Err(e) => cx.fail(&["C13"], format!("config query fails: {e}")),
    }
    if t < t0 { return; }
    let mut sa = s.clone();
    let acc = accrue(&mut sa, t).is_some();
    match query::<GetFeeResponse>(m, &w.q, w.now, QueryMsg::GetFee { time }) {
        Ok(r) if acc => {
            cx.eq(&["C13"], "fee query: rates", &(sa.collector.clone(), sa.mint_fee, sa.burn_fee), &(r.collector.to_string(), r.mint_fee.map(|d| d.atomics().u128()), r.burn_fee.map(|d| d.atomics().u128())));
            let f = r.streaming_fee.map(|f| Sf { rate: f.rate.atomics().u128(), collected: coins_of(&f.collected), freeze: f.freeze, last: f.last_collected_at });
            cx.eq(&["C13", "C10"], &format!("fee query for time {t}: streaming fee"), &sa.sf, &f);
        }
        Err(e) if acc => cx.fail(&["C13"], format!("fee query fails: {e}")),
        _ => {}
    }
    match query::<GetPortfolioResponse>(m, &w.q, w.now, QueryMsg::GetPortfolio { time }) {
        Ok(r) if acc => {
            cx.eq(&["C13", "C10"], &format!("portfolio query for time {t}: units"), &sa.units, &us(r.units));
            cx.eq(&["C13"], "portfolio query: supply", &s.supply, &r.total_supply.u128());
            if let Some(v) = redeem(&sa.units, s.supply) { cx.eq(&["C13"], "portfolio query: assets", &v, &coins_of(&r.assets)); }
        }
        _ => {}
    }
    match query::<Uint128>(m, &w.q, w.now, QueryMsg::GetTotalSupply {}) {
        Ok(r) => cx.eq(&["C13"], "supply query", &s.supply, &r.u128()),
        Err(e) => cx.fail(&["C13"], format!("supply query fails: {e}")),
    }
    match query::<GetRebalanceResponse>(m, &w.q, w.now, QueryMsg::GetRebalance {}) {
        Ok(r) => {
            let v = r.rebalance.map(|x| Reb { manager: x.manager.map(|a| a.to_string()), defl: us(x.deflation), infl: us(x.inflation) });
            cx.eq(&["C13"], "rebalance query", &s.reb, &v);
        }
        Err(e) => cx.fail(&["C13"], format!("rebalance query fails: {e}")),
    }
    let key = match s.ti.keys().nth(cx.rng.below(s.ti.len().max(1) as u64) as usize) {
        Some(k) if cx.rng.chance(3, 4) => k.clone(),
        _ => (asset(&mut cx.rng), asset(&mut cx.rng)),
    };
    match query::<GetTradeInfoResponse>(m, &w.q, w.now, QueryMsg::GetTradeInfo { denom_in: key.0.clone(), denom_out: key.1.clone() }) {
        Ok(r) => {
            let want = s.ti.get(&key).cloned();
            let got = r.trade_info.map(|t| (t.denom_in.clone(), t.denom_out.clone(), pti(t)));
            cx.eq(&["C13"], "trade info query", &want.map(|t| (key.0.clone(), key.1.clone(), t)), &got);
        }
        Err(e) => cx.fail(&["C13"], format!("trade info query fails: {e}")),
    }
    let d = key.0.clone();
    let order = *cx.rng.pick(&[0, 1, 2]);
    let limit = *cx.rng.pick(&[None, Some(1), Some(2), Some(30)]);
    let after = if cx.rng.chance(1, 2) { Some(asset(&mut cx.rng)) } else { None };
    let o = match order { 0 => None, 1 => Some(RangeOrder::Asc), _ => Some(RangeOrder::Desc) };
    let mut want: Vec<(String, Ti)> = s.ti.iter().filter(|(k, _)| k.0 == d).map(|(k, v)| (k.1.clone(), v.clone())).collect();
    if order == 2 { want.reverse(); want.retain(|x| after.as_ref().map_or(true, |a| x.0 < *a)); } else { want.retain(|x| after.as_ref().map_or(true, |a| x.0 > *a)); }
    want.truncate(limit.unwrap_or(10) as usize);
    match query::<ListTradeInfoResponse>(m, &w.q, w.now, QueryMsg::ListTradeInfo { denom_in: d.clone(), start_after: after.clone(), limit, order: o }) {
        Ok(r) => {
            let got: Vec<(String, Ti)> = r.0.into_iter().map(|t| (t.denom_out.clone(), pti(t))).collect();
            cx.eq(&["C13", "L01"], &format!("trade info listing of {d} after {after:?} limit {limit:?} order {order}"), &want, &got);
        }
        Err(e) => cx.fail(&["L01", "C13"], format!("trade info listing fails: {e}")),
    }
    let who = cx.rng.pick(&PEOPLE).to_string();
    let mut q = Q::default();
    q.bank.insert((who.clone(), s.denom.clone()), 4711);
    match query::<Uint128>(m, &q, w.now, QueryMsg::GetBalance { account: who }) {
        Ok(r) => cx.eq(&["C13"], "balance query", &4711, &r.u128()),
        Err(e) => cx.fail(&["C13"], format!("balance query fails: {e}")),
    }
}
pub fn pti(t: TradeInfoPayload) -> Ti {
    Ti { routes: t.routes.0.into_iter().map(|h| (h.pool_id, h.token_denom)).collect(), cooldown: t.cooldown, max: t.max_trade_amount.u128(), last: t.last_traded_at }
}

/// C13: simulate and execute the same thing on the same state
fn simulate(cx: &mut Ctx, w: &W, s: &St, op: &Op, sender: &str, funds: &Coins, real: &Result<(Mem, Response), String>) {
    let f: Vec<Coin> = funds.iter().map(|(d, a)| coin(*a, d)).collect();
    let time = if cx.rng.chance(1, 2) { None } else { Some(w.now) };
    match op {
        Op::Mint { amount, receiver, refund_to } => {
            let sim = query::<SimulateMintResponse>(&w.m, &w.q, w.now, QueryMsg::SimulateMint { amount: (*amount).into(), funds: Some(f), time });
            let mut sa = s.clone();
            if let (Some(_), Some(Err(e))) = (accrue(&mut sa, w.now), refund(&sa.units, funds, *amount)) {
                cx.check(&["C13"], sim.is_err(), || format!("mint simulation accepts funds although {e}"));
            }
            if let Ok((m2, r)) = real {
                match sim {
                    Err(e) => cx.fail(&["C13"], format!("mint simulation fails where minting succeeds: {e}")),
                    Ok(x) => {
                        let n = net(&msgs(r));
                        let recv = oaddr(receiver, sender);
                        let rto = oaddr(refund_to, sender);
                        let s2 = load(m2);
                        if recv != s.collector {
                            cx.eq(&["C13"], "simulated and executed mint amount", &n.sends.get(&(recv, s2.denom.clone())).copied().unwrap_or(0), &x.mint_amount.u128());
                        }
                        let real_refund: BTreeMap<String, u128> = n.sends.iter().filter(|(k, _)| k.0 == rto && k.1 != s2.denom).map(|(k, v)| (k.1.clone(), *v)).collect();
                        let sim_refund: BTreeMap<String, u128> = coins_of(&x.refund_amount).into_iter().filter(|c| c.1 > 0).collect();
                        cx.eq(&["C13"], "executed and simulated refund", &real_refund, &sim_refund);
                        let spent: BTreeMap<String, u128> = funds.iter().map(|(d, a)| (d.clone(), a.saturating_sub(real_refund.get(d).copied().unwrap_or(0)))).filter(|x| x.1 > 0).collect();
                        let sim_spent: BTreeMap<String, u128> = coins_of(&x.fund_spent).into_iter().filter(|c| c.1 > 0).collect();
                        cx.eq(&["C13"], "executed and simulated spending", &spent, &sim_spent);
                    }
                }
                // without funds the simulation assumes the exact payment
                if let Ok(x) = query::<SimulateMintResponse>(&w.m, &w.q, w.now, QueryMsg::SimulateMint { amount: (*amount).into(), funds: None, time }) {
                    if let Some(ch) = charge(&sa.units, *amount) {
                        cx.eq(&["C13", "C01"], "simulated charge", &ch, &coins_of(&x.fund_spent));
                    }
                    cx.check(&["C13"], x.refund_amount.iter().all(|c| c.amount.is_zero()), || "a refund without funds".into());
                }
            }
        }
        Op::Burn { redeem_to } => {
            if funds.len() != 1 || funds[0].0 != s.denom { return; }
            let sim = query::<SimulateBurnResponse>(&w.m, &w.q, w.now, QueryMsg::SimulateBurn { amount: funds[0].1.into(), time });
            if let Ok((_, r)) = real {
                match sim {
                    Err(e) => cx.fail(&["C13"], format!("burn simulation fails where burning succeeds: {e}")),
                    Ok(x) => {
                        let n = net(&msgs(r));
                        let to = oaddr(redeem_to, sender);
                        cx.eq(&["C13"], "executed and simulated burn amount", &n.burns.values().sum::<u128>(), &x.burn_amount.u128());
                        let real_r: BTreeMap<String, u128> = n.sends.iter().filter(|(k, _)| k.0 == to && k.1 != s.denom).map(|(k, v)| (k.1.clone(), *v)).collect();
                        let sim_r: BTreeMap<String, u128> = coins_of(&x.redeem_amount).into_iter().filter(|c| c.1 > 0).collect();
                        cx.eq(&["C13"], "executed and simulated redemption", &real_r, &sim_r);
                    }
                }
            }
        }
        _ => {}
    }
}

fn ledger(w: &mut W, s0: &St, op: &Op, funds: &Coins, ms: &[Msg]) {
    let (inn, out) = (&mut w.inn, &mut w.out);
    let mut mv = |d: &str, x: u128, is_in: bool| {
        if d != s0.denom {
            *if is_in { &mut *inn } else { &mut *out }.entry(d.to_string()).or_default() += u256(x);
        }
    };
    for (d, a) in funds {
        mv(d, *a, true);
    }
    for m in ms {
        match m {
            Msg::Send { coins, to } if to != SELF => {
                for (d, a) in coins {
                    mv(d, *a, false);
                }
            }
            Msg::SwapIn { denom, amount, limit, .. } => {
                mv(denom, *amount, false);
                if let Op::Inflate { denom: t, .. } = op { mv(t, *limit, true); }
            }
            Msg::SwapOut { denom, amount, limit, .. } => {
                mv(denom, *amount, true);
                if let Op::Deflate { denom: t, .. } = op { mv(t, *limit, false); }
            }
            _ => {}
        }
    }
}

pub fn trace(cx: &mut Ctx) {
    let mut w = match instantiate(cx) { Some(w) => w, None => return };
    if cx.done() { return; }
    let steps = 20 + cx.rng.below(60);
    for _ in 0..steps {
        // time
        let s = load(&w.m);
        let dt = match cx.rng.below(12) {
            0 | 1 | 2 => 0,
            3 | 4 => 1,
            5 => cx.rng.below(20),
            6 => 3600,
            7 => 86_400,
            8 => s.expires.map_or(1, |e| e.saturating_sub(w.now).min(1000)),
            9 => s.expires.map_or(1, |e| e.saturating_sub(w.now).saturating_sub(1).min(1000)),
            10 => {
                let k = cx.rng.below(s.ti.len().max(1) as u64) as usize;
                s.ti.values().nth(k).and_then(|t| t.last.map(|l| l.saturating_add(t.cooldown).saturating_sub(w.now).saturating_sub(cx.rng.below(2)).min(4000))).unwrap_or(2)
            }
            _ => if cx.rng.chance(1, 4) { *cx.rng.pick(&[31_536_000, 31_536_001, 40_000_000, 100_000_000, 86_401, 604_800, 2_592_000]) } else { 100_000 },
        };
        w.now += dt;
        let (op, mut sender, funds, est) = gen_op(cx, &mut w, &s);
        // now and then someone whose name only resembles that of a role
        if cx.rng.chance(1, 30) { sender = crate::util::variant(&mut cx.rng, &sender); }
        cx.op(format!("t={} {sender}: {op:?} funds {funds:?} est {est:?}", w.now));
        cx.kind(kind(&op));
        let p = predict(&s, &op, &sender, &funds, w.now, est);
        w.q.asked.borrow_mut().clear();
        let real = exec(&w.m, &w.q, w.now, &sender, &funds, to_msg(&op));
        simulate(cx, &w, &s, &op, &sender, &funds, &real);
        match &real {
            Err(e) => {
                // what the properties say is possible: nothing speaks against the request, and it is refused
                if p.next.is_some() && p.reject.is_empty() {
                    let t: &[&'static str] = match &op {
                        Op::Pause(_) | Op::Release => &["C04"],
                        Op::UpdateGov(_) | Op::RevokeGov | Op::AcceptGov => &["C05"],
                        Op::Realize => &["C11"],
                        Op::Finalize => &["C09"],
                        _ => &[],
                    };
                    if !t.is_empty() {
                        cx.fail(t, format!("{} refused ({e}) although nothing speaks against it", kind(&op)));
                    }
                }
                // liveness that the properties do state, by comparing with the same request without the obstacle
                if matches!(op, Op::Mint { .. } | Op::Burn { .. }) && s.paused && !effectively_paused(&s, w.now) && p.next.is_some() {
                    let mut m = w.m.clone();
                    let mut v: serde_json::Value = serde_json::from_slice(&m.0[b"config".as_slice()]).unwrap();
                    v["paused"]["paused"] = serde_json::json!(false);
                    v["paused"]["expires_at"] = serde_json::Value::Null;
                    m.0.insert(b"config".to_vec(), serde_json::to_vec(&v).unwrap());
                    let r2 = exec(&m, &w.q, w.now, &sender, &funds, to_msg(&op));
                    cx.check(&["C04"], r2.is_err(), || format!("still paused after the pause expired ({:?} at {}): {e}", s.expires, w.now));
                }
                if matches!(op, Op::Deflate { .. } | Op::Inflate { .. } | Op::Finalize) && s.reb.as_ref().map_or(false, |r| r.manager.is_none()) && p.next.is_some() {
                    for who in PEOPLE {
                        let r2 = exec(&w.m, &w.q, w.now, who, &funds, to_msg(&op));
                        cx.check(&["C06"], r2.is_err(), || format!("the rebalance names no manager, yet {sender} is refused ({e}) and {who} is not"));
                    }
                }
                if let Op::UpdateFee { collector, .. } = &op {
                    if p.next.is_some() {
                        let r2 = exec(&w.m, &w.q, w.now, &sender, &funds, to_msg(&Op::UpdateFee { collector: collector.clone(), mint: None, burn: None, sf: None }));
                        cx.check(&["C12"], r2.is_err(), || format!("rates inside the bounds rejected: {e}"));
                    }
                }
            }
            Ok((m2, resp)) => {
                cx.kind(&format!("accepted {}", kind(&op)));
                let ms = msgs(resp);
                let n = net(&ms);
                let s2 = load(m2);
                for (tags, why) in &p.reject {
                    cx.fail(tags, format!("{} accepted although {why}", kind(&op)));
                }
                if p.next.is_none() && p.reject.is_empty() && p.accrued {
                    let t: &[&'static str] = match &op {
                        Op::Mint { .. } => &["C01"],
                        Op::Burn { .. } => &["C02"],
                        Op::Realize | Op::UpdateFee { .. } => &["C10"],
                        Op::Deflate { .. } | Op::Inflate { .. } => &["C08"],
                        Op::Finalize => &["C09"],
                        _ => &["C03"],
                    };
                    cx.fail(t, format!("{} accepted although its amounts do not fit the contract's numbers", kind(&op)));
                }
                if let Some(want) = &p.next {
                    for (comp, what) in diffs(want, &s2) {
                        cx.fail(&tags_of(&op, comp), format!("after {}: {what}", kind(&op)));
                    }
                    let flow: &[&'static str] = match &op {
                        Op::Mint { .. } => &["C01"],
                        Op::Burn { .. } => &["C02"],
                        Op::Realize | Op::UpdateFee { .. } => &["C11"],
                        Op::Deflate { .. } | Op::Inflate { .. } => &["C08"],
                        Op::Finalize => &["C09", "C06"],
                        Op::Init { .. } => &["C07", "C06"],
                        _ => &["C05"],
                    };
                    cx.eq(flow, &format!("{}: tokens sent", kind(&op)), &p.sends, &n.sends);
                    cx.eq(flow, &format!("{}: tokens minted", kind(&op)), &p.mints, &n.mints);
                    cx.eq(flow, &format!("{}: tokens burned", kind(&op)), &p.burns, &n.burns);
                    let sw: &[&'static str] = if matches!(op, Op::Deflate { .. } | Op::Inflate { .. }) { &["C08", "T01"] } else { flow };
                    cx.eq(sw, &format!("{}: swaps", kind(&op)), &p.swaps, &n.swaps);
                    cx.check(flow, n.other.is_empty(), || format!("{}: other messages {:?}", kind(&op), n.other));
                    if let Some(a) = &p.asked {
                        let asked = w.q.asked.borrow().clone();
                        let same = asked.iter().any(|x| match (x, a) {
                            (SQ::EstIn { token_in: t, routes: r, .. }, SQ::EstIn { token_in, routes, .. }) => t == token_in && r == routes,
                            (SQ::EstOut { token_out: t, routes: r, .. }, SQ::EstOut { token_out, routes, .. }) => t == token_out && r == routes,
                            _ => false,
                        });
                        cx.check(&["C08", "T01"], same, || format!("the swap estimate asked for {asked:?} instead of {a:?}"));
                    }
                }
                ledger(&mut w, &s, &op, &funds, &ms);
                w.m = m2.clone();
                invariants(cx, &w, &s2);
                // U01 of failed / successful migrations is explored elsewhere
            }
        }
        if cx.done() { return; }
        if cx.rng.chance(1, 3) {
            let s = load(&w.m);
            queries(cx, &w, &s);
            if cx.done() { return; }
        }
    }
}

/// L01: trade-route listings over more entries than a page holds
pub fn trace_lists(cx: &mut Ctx) {
    let t: &[&'static str] = &["L01", "C13"];
    let Some(w) = instantiate(cx) else { return };
    let mut m = w.m.clone();
    let reserve = load(&m).reserve;
    let firsts = ["aaa".to_string(), "bbb".into(), reserve.clone()];
    let n = cx.rng.below(75);
    for i in 0..n {
        // stored under (traded asset, first hop's asset)
        let first = cx.rng.pick(&firsts).clone();
        let other = match cx.rng.below(3) { 0 => format!("d{i}"), 1 => format!("d{:02}", cx.rng.below(60)), _ => format!("z{}", "x".repeat(cx.rng.below(40) as usize)) };
        let op = Op::UpdateTi { denom: first, routes: vec![(1 + i, other), (i, reserve.clone())], cooldown: i, max: 5 + i as u128 };
        if let Ok((m2, _)) = exec(&m, &w.q, w.now, "govern", &vec![], to_msg(&op)) {
            m = m2;
        }
    }
    let s = load(&m);
    cx.op(format!("{} stored routes", s.ti.len()));
    let mut ins: Vec<String> = s.ti.keys().map(|k| k.0.clone()).collect();
    ins.dedup();
    ins.push("nothing".into());
    for d in ins {
        let all: Vec<(String, Ti)> = s.ti.iter().filter(|(k, _)| k.0 == d).map(|(k, v)| (k.1.clone(), v.clone())).collect();
        for desc in [false, true] {
            let order = if desc { Some(RangeOrder::Desc) } else if cx.rng.chance(1, 2) { Some(RangeOrder::Asc) } else { None };
            let ask = |after: Option<String>, limit: Option<u32>| -> Result<Vec<(String, Ti)>, String> {
                query::<ListTradeInfoResponse>(&m, &w.q, w.now, QueryMsg::ListTradeInfo { denom_in: d.clone(), start_after: after, limit, order: order.clone() })
                    .map(|r| r.0.into_iter().map(|t| (t.denom_out.clone(), pti(t))).collect())
            };
            let limit = *cx.rng.pick(&[None, Some(0), Some(1), Some(7), Some(10), Some(29), Some(30), Some(31), Some(256), Some(65537), Some(u32::MAX)]);
            let after = match cx.rng.below(3) { 0 => None, 1 if !all.is_empty() => Some(cx.rng.pick(&all).0.clone()), _ => Some(format!("d{}", cx.rng.below(60))) };
            let mut want = all.clone();
            if desc { want.reverse(); want.retain(|x| after.as_ref().map_or(true, |a| x.0 < *a)) } else { want.retain(|x| after.as_ref().map_or(true, |a| x.0 > *a)) }
            want.truncate(limit.unwrap_or(10) as usize);
            cx.op(format!("list {d} after {after:?} limit {limit:?} descending {desc}"));
            cx.kind("trade route pages");
            match ask(after.clone(), limit) {
                Ok(g) => {
                    cx.check(t, limit.map_or(true, |l| l <= 30), || format!("a page of {limit:?} was served"));
                    cx.check(t, g == want, || format!("page of {d} after {after:?} limit {limit:?} descending {desc}: expected {:?}, got {:?}", want.iter().map(|x| &x.0).collect::<Vec<_>>(), g.iter().map(|x| &x.0).collect::<Vec<_>>()));
                }
                Err(e) => cx.check(t, limit.map_or(false, |l| l > 30), || format!("page of {d} limit {limit:?} refused: {e}")),
            }
            // following the cursor
            let page = *cx.rng.pick(&[None, Some(1), Some(3), Some(30)]);
            let (mut seen, mut cur) = (vec![], None);
            for _ in 0..200 {
                match ask(cur.clone(), page) {
                    Ok(p) if p.is_empty() => break,
                    Ok(p) => { cur = p.last().map(|x| x.0.clone()); seen.extend(p); }
                    Err(e) => { cx.fail(t, format!("walking {d}: {e}")); return; }
                }
            }
            let mut want = all.clone();
            if desc { want.reverse() }
            cx.kind("trade route walks");
            cx.check(t, seen == want, || format!("walking {d} by {page:?} descending {desc}: {} of {} entries", seen.len(), want.len()));
        }
    }
}
