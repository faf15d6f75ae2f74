//! periphery operations and simulation queries against the properties, and migrations
use crate::pool::{check_in_msgs, check_out_msgs, estimator, scene, Entry, Scene};
use crate::util::*;
use crate::world::*;
use crate::world::Coins;
use cosmwasm_std::*;
use ibcx_interface::periphery::{ExecuteMsg, QueryMsg, SwapInfoCompact, SwapInfosCompact};
use std::collections::BTreeMap;

const P01: &[&str] = &["P01"];
const P02: &[&str] = &["P02"];
const P03: &[&str] = &["P03"];
const P04: &[&str] = &["P04"];
const CORE: &str = "coreaddr";
const IDX: &str = "factory/coreaddr/index";

#[derive(Clone, Debug)]
struct Fees {
    mint: Option<u128>,
    burn: Option<u128>,
}
fn querier(sc: &Scene, fees: &Fees) -> Q {
    let mut q = sc.querier();
    let dec = |x: &Option<u128>| x.map(dec_str);
    let fee = serde_json::json!({"collector": "collector", "mint_fee": dec(&fees.mint), "burn_fee": dec(&fees.burn), "streaming_fee": null});
    let cfg = serde_json::json!({"gov": "gov", "pending_gov": null, "paused": {"paused": false, "expires_at": null}, "index_denom": IDX, "reserve_denom": "ures"});
    let pf = serde_json::json!({"total_supply": "1000000", "assets": sc.units.iter().map(|(d, u)| serde_json::json!({"denom": d, "amount": (u / 1000).to_string()})).collect::<Vec<_>>(),
        "units": sc.units.iter().map(|(d, u)| serde_json::json!([d, dec_str(*u)])).collect::<Vec<_>>()});
    q.wasm = Some(Box::new(move |to, m| {
        if to != CORE {
            return Err("no such contract".into());
        }
        let v: serde_json::Value = serde_json::from_slice(m.as_slice()).map_err(|e| e.to_string())?;
        let o = v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
        let r = match o.as_str() {
            "get_fee" => &fee,
            "get_config" => &cfg,
            "get_portfolio" => &pf,
            _ => return Err(format!("unexpected core query {v}")),
        };
        Ok(Binary(serde_json::to_vec(r).unwrap()))
    }));
    q
}
fn compact(sc: &Scene) -> SwapInfosCompact {
    SwapInfosCompact(
        sc.infos
            .iter()
            .map(|i| SwapInfoCompact {
                key: format!("{},{}", i.0 .0 .0 .0, i.0 .0 .0 .1),
                routes: i.0 .1 .0.iter().map(|r| format!("{},{}", r.pool_id, r.token_denom)).collect(),
            })
            .collect(),
    )
}
fn keep(fee: Option<u128>) -> Option<u128> {
    match fee {
        None => Some(ONE),
        Some(f) => ONE.checked_sub(f),
    }
}
fn finish_json(to: &str, d: &str) -> serde_json::Value {
    serde_json::json!({"finish_operation": {"refund_to": to, "refund_asset": d}})
}
fn is_finish(m: &Msg, to: &str, d: &str) -> bool {
    matches!(m, Msg::Exec { to: c, msg, funds } if c == SELF && funds.is_empty() && serde_json::from_str::<serde_json::Value>(msg).ok() == Some(finish_json(to, d)))
}
fn sorted(mut v: Coins) -> Coins {
    v.sort();
    v
}

pub fn trace(cx: &mut Ctx) {
    let sc = scene(cx);
    let rate = |cx: &mut Ctx| match cx.rng.below(6) { 5 => Some(*cx.rng.pick(&[1, ONE / 1_000_000, ONE / 10_000, ONE / 2000, ONE / 1000, ONE - 1])), 0 => None, 1 => Some(ONE / 100), 2 => Some(ONE / 1000 * 15), 3 => Some(cx.rng.u128() % (ONE / 5)), _ => Some(0) };
    let fees = Fees { mint: rate(cx), burn: rate(cx) };
    cx.op(sc.describe());
    cx.op(format!("{fees:?}"));
    let est = estimator(sc.seed);
    let mut st = Mem::default();
    let ap = api();
    let mut q = querier(&sc, &fees);
    for (d, a) in [(sc.base.as_str(), 5u128), ("left", 77), (IDX, 12)] {
        let a = if cx.rng.chance(1, 4) { cx.rng.mag(37) } else { a + cx.rng.u128() % 100_000 };
        q.bank.insert((SELF.into(), d.into()), a);
    }
    let env = env_at(1_700_000_000);
    for _ in 0..6 {
        if cx.done() {
            return;
        }
        // the caller may be a contract, the index itself included
        let user = if cx.rng.chance(1, 15) { CORE.to_string() } else { format!("user{}", cx.rng.below(5)) };
        let a = crate::pool::amt_for(cx);
        let cost = sc.cost(a, &est).map(|x| x.0).unwrap_or(1_000_000);
        let gain = sc.proceeds(a, &est).map(|x| x.0).unwrap_or(1_000_000);
        let mut pay = match cx.rng.below(7) { 0 => cost, 1 => cost + cost / 10, 2 => cost.saturating_sub(1), 3 => cost + 20000, 4 => cost * 2, 5 => cost / 2, _ => cost + 1 };
        let which = cx.rng.below(9);
        let want_min = match cx.rng.below(6) { 0 => gain, 1 => gain - gain / 10, 2 => gain + 1, 3 => gain / 2 + 1, 4 => 0, _ => cx.rng.u128() % (gain + 2) };
        let min_out = match cx.rng.below(4) { 0 => a, 1 => a - a / 10, 2 => a / 2 + 1, _ => a + a / 10 };
        let (mut pay_denom, msg) = match which {
            0 | 5 => (sc.base.clone(), ExecuteMsg::MintExactAmountIn { core_addr: CORE.into(), input_asset: sc.base.clone(), min_output_amount: min_out.into(), swap_info: compact(&sc) }),
            1 | 6 => (sc.base.clone(), ExecuteMsg::MintExactAmountOut { core_addr: CORE.into(), output_amount: a.into(), input_asset: sc.base.clone(), swap_info: compact(&sc) }),
            2 | 7 => {
                pay = a;
                (IDX.into(), ExecuteMsg::BurnExactAmountIn { core_addr: CORE.into(), output_asset: sc.base.clone(), min_output_amount: want_min.into(), swap_info: compact(&sc) })
            }
            3 | 8 => {
                pay = match cx.rng.below(4) { 0 => a, 1 => a + a / 5, 2 => a * 2, _ => a + a / 50 + 2 };
                (IDX.into(), ExecuteMsg::BurnExactAmountOut { core_addr: CORE.into(), output_asset: coin(want_min.max(1), &sc.base), swap_info: compact(&sc) })
            }
            _ => (
                "".into(),
                ExecuteMsg::FinishOperation {
                    refund_to: if cx.rng.chance(1, 6) { "X".into() } else { user.clone() },
                    refund_asset: { let d = cx.rng.pick(&[sc.base.clone(), "left".into(), IDX.into(), "nothing".into()]).clone(); if cx.rng.chance(1, 4) { variant(&mut cx.rng, &d) } else { d } },
                },
            ),
        };
        let mut funds = vec![];
        if which != 4 {
            match cx.rng.below(20) {
                0 => pay_denom = if cx.rng.chance(1, 2) { "wrong".into() } else { variant(&mut cx.rng, &pay_denom) },
                1 => funds.push(("extra".to_string(), 5)),
                2 => pay = 0,
                _ => {}
            }
            if pay > 0 {
                funds.push((pay_denom.clone(), pay));
            }
        }
        if which == 4 && cx.rng.chance(1, 5) { funds.push((sc.base.clone(), 3)); }
        let sender = if which == 4 && cx.rng.chance(1, 2) {
            SELF.to_string()
        } else if which == 4 && cx.rng.chance(1, 2) {
            // addresses that look like the periphery's own
            match cx.rng.below(6) { 0 => format!("x{SELF}"), 1 => format!("{SELF}x"), 2 => SELF[..SELF.len() - 1].to_string(), 3 => SELF.to_uppercase(), 4 => CORE.to_string(), _ => SELF[1..].to_string() }
        } else {
            user.clone()
        };
        cx.op(format!("{sender} pays {funds:?} for {msg:?}"));
        let before = st.clone();
        let r = guarded(|| ibcx_periphery::contract::execute(DepsMut { storage: &mut st, api: &ap, querier: QuerierWrapper::new(&q) }, env.clone(), info(&sender, &funds), msg.clone()));
        cx.check(&["P01", "P03"], st == before, || format!("{msg:?} changed the periphery's storage"));
        let single = |d: &str| funds.len() == 1 && funds[0].0 == d && funds[0].1 > 0;
        let ms = match &r {
            Ok(r) => msgs(r),
            Err(_) => {
                cx.kind(match which { 4 => "finish refused", _ => "operations refused" });
                if which == 4 {
                    if let ExecuteMsg::FinishOperation { refund_to, .. } = &msg {
                        cx.check(P01, sender != SELF || !addr_ok(refund_to), || format!("finishing by the periphery itself failed: {r:?}"));
                    }
                }
                continue;
            }
        };
        match &msg {
            ExecuteMsg::FinishOperation { refund_to, refund_asset } => {
                cx.kind("finish");
                cx.check(P01, sender == SELF && addr_ok(refund_to), || format!("finishing by {sender} towards {refund_to} succeeded"));
                let have = q.bank.get(&(SELF.to_string(), refund_asset.clone())).copied().unwrap_or(0);
                let mut want = BTreeMap::new();
                if have > 0 {
                    want.insert((refund_to.clone(), refund_asset.clone()), have);
                }
                let n = net(&ms);
                cx.check(P01, n.sends == want && n.mints.is_empty() && n.burns.is_empty() && n.swaps.is_empty() && n.other.is_empty(), || format!("finishing should send {want:?}, got {ms:?}"));
            }
            ExecuteMsg::MintExactAmountIn { min_output_amount, .. } => {
                cx.kind("mint exact in");
                cx.check(P03, single(&sc.base), || format!("accepted the payment {funds:?}"));
                if let Some((m, _)) = mint_shape(cx, &sc, &est, &ms, &user, pay) {
                    let min = min_output_amount.u128();
                    let got = keep(fees.mint).and_then(|k| mul_div_floor(m, k, ONE));
                    cx.check(P02, got.map_or(false, |g| g >= min), || format!("{m} minted gives {got:?} after the fee, below the minimum {min}"));
                }
            }
            ExecuteMsg::MintExactAmountOut { output_amount, .. } => {
                cx.kind("mint exact out");
                cx.check(P03, single(&sc.base), || format!("accepted the payment {funds:?}"));
                if let Some((m, _)) = mint_shape(cx, &sc, &est, &ms, &user, pay) {
                    cx.check(P02, m == output_amount.u128(), || format!("mints {m} instead of {output_amount}"));
                }
            }
            ExecuteMsg::BurnExactAmountIn { min_output_amount, .. } => {
                cx.kind("burn exact in");
                cx.check(P03, single(IDX), || format!("accepted the payment {funds:?}"));
                if let Some((b, es, swaps)) = burn_shape(cx, &sc, &est, &fees, &ms, &[(user.clone(), sc.base.clone())]) {
                    cx.check(P02, b == pay, || format!("burns {b} of the payment {pay}"));
                    check_out_msgs(cx, P02, "burn with exact input", &es, &swaps, min_output_amount.u128(), SELF);
                }
            }
            ExecuteMsg::BurnExactAmountOut { .. } => {
                cx.kind("burn exact out");
                cx.check(P03, single(IDX), || format!("accepted the payment {funds:?}"));
                if let Some((b, ..)) = burn_shape(cx, &sc, &est, &fees, &ms, &[(user.clone(), IDX.to_string()), (user.clone(), sc.base.clone())]) {
                    cx.check(P02, b <= pay, || format!("burns {b}, more than the payment {pay}"));
                    if let ExecuteMsg::BurnExactAmountOut { output_asset, .. } = &msg {
                        // some amount found by the search, grossed up by the fee, less one
                        let want = output_asset.amount.u128();
                        if let Some(grow) = keep(fees.burn).and_then(|k| mul_div_floor(ONE, ONE, k)) {
                            let at = mul_div_floor(b + 1, ONE, grow).unwrap_or(0);
                            let hit = (at.saturating_sub(3)..=at.saturating_add(3)).any(|m| mul_div_floor(m, grow, ONE) == Some(b + 1) && sc.proceeds(m, &est).map_or(false, |x| x.0 <= want && want - x.0 < 5000));
                            cx.check(P02, hit, || format!("burns {b} for {want}, which no amount found by the search accounts for"));
                        }
                    }
                }
            }
        }
    }
    if !cx.done() && cx.concerns(P04) {
        simulations(cx, &sc, &fees, &q, &est);
    }
}
/// swaps, one core mint, finish; gives the minted amount
fn mint_shape(cx: &mut Ctx, sc: &Scene, est: &crate::pool::Est, ms: &[Msg], user: &str, pay: u128) -> Option<(u128, Vec<Entry>)> {
    let n = ms.len();
    let swaps = ms.iter().take_while(|m| matches!(m, Msg::SwapOut { .. } | Msg::SwapIn { .. })).cloned().collect::<Vec<_>>();
    if n != swaps.len() + 2 || !is_finish(&ms[n - 1], user, &sc.base) {
        cx.fail(&["P02", "P03"], format!("a mint should be swaps, a core mint and the return to {user}: {ms:?}"));
        return None;
    }
    let (amount, funds) = match &ms[n - 2] {
        Msg::Exec { to, msg, funds } if to == CORE => {
            let v: serde_json::Value = serde_json::from_str(msg).unwrap_or_default();
            let a = v["mint"]["amount"].as_str().and_then(|x| x.parse::<u128>().ok());
            match a {
                Some(a) if v == serde_json::json!({"mint": {"amount": a.to_string(), "receiver": user, "refund_to": user}}) => (a, funds.clone()),
                _ => {
                    cx.fail(P03, format!("expected a core mint for {user}, got {msg}"));
                    return None;
                }
            }
        }
        o => {
            cx.fail(&["P02", "P03"], format!("expected a core mint, got {o:?}"));
            return None;
        }
    };
    let want: Option<Coins> = sc.units.iter().map(|(d, u)| mul_div_ceil(amount, *u, ONE).map(|x| (d.clone(), x))).collect();
    cx.check(P03, want.clone().map(|w| sorted(w)) == Some(sorted(funds.clone())), || format!("minting {amount} takes {want:?}, the message pays {funds:?}"));
    cx.check(P03, funds.windows(2).all(|w| w[0].0 <= w[1].0), || format!("funds are not in denomination order: {funds:?}"));
    match sc.cost(amount, est) {
        None => {
            cx.fail(P02, format!("the simulation of {amount} fails but the mint was accepted"));
            None
        }
        Some((total, es)) => {
            cx.check(P02, total <= pay, || format!("minting {amount} costs {total}, more than the payment {pay}"));
            check_in_msgs(cx, &["P02", "P03"], "mint", &es, &swaps, pay, SELF);
            Some((amount, es))
        }
    }
}
/// one core burn, swaps, returns; gives the burned amount
fn burn_shape(cx: &mut Ctx, sc: &Scene, est: &crate::pool::Est, fees: &Fees, ms: &[Msg], returns: &[(String, String)]) -> Option<(u128, Vec<Entry>, Vec<Msg>)> {
    let swaps = ms.iter().skip(1).take_while(|m| matches!(m, Msg::SwapOut { .. } | Msg::SwapIn { .. })).cloned().collect::<Vec<_>>();
    let n = ms.len();
    let mut ok = n == 1 + swaps.len() + returns.len();
    if ok {
        let tail = &ms[1 + swaps.len()..];
        // the returns may come in either order
        ok = returns.iter().all(|(u, d)| tail.iter().filter(|m| is_finish(m, u, d)).count() == 1);
    }
    if !ok {
        cx.fail(&["P02", "P03"], format!("a burn should be a core burn, swaps and the returns {returns:?}: {ms:?}"));
        return None;
    }
    let b = match &ms[0] {
        Msg::Exec { to, msg, funds } if to == CORE && funds.len() == 1 && funds[0].0 == IDX => {
            let v: serde_json::Value = serde_json::from_str(msg).unwrap_or_default();
            let o = v["burn"].as_object().cloned();
            if v.as_object().map(|x| x.len()) != Some(1) || !o.map_or(false, |o| o.iter().all(|(k, v)| k == "redeem_to" && v.is_null())) {
                cx.fail(P03, format!("expected a core burn redeeming to the periphery, got {msg}"));
                return None;
            }
            funds[0].1
        }
        o => {
            cx.fail(&["P02", "P03"], format!("expected a core burn paying the index tokens, got {o:?}"));
            return None;
        }
    };
    let act = keep(fees.burn).and_then(|k| mul_div_floor(b, k, ONE));
    match act.and_then(|a| sc.proceeds(a, est)) {
        None => {
            cx.fail(P02, format!("the simulation of burning {b} fails but the burn was accepted"));
            None
        }
        Some((_, es)) => {
            check_out_msgs(cx, &["P03"], "burn", &es, &swaps, 0, SELF);
            Some((b, es, swaps))
        }
    }
}

#[derive(Debug)]
struct Rep {
    amount: u128,
    list: Coins,
    denom: String,
    result: u128,
}
fn rep(v: &serde_json::Value, amount: &str, list: &str) -> Option<Rep> {
    let n = |x: &serde_json::Value| x.as_str().and_then(|s| s.parse::<u128>().ok());
    let l: Option<Coins> = v[list].as_array()?.iter().map(|c| Some((c["denom"].as_str()?.to_string(), n(&c["amount"])?))).collect();
    Some(Rep { amount: n(&v[amount])?, list: l?, denom: v["swap_result_amount"]["denom"].as_str()?.to_string(), result: n(&v["swap_result_amount"]["amount"])? })
}
fn simulations(cx: &mut Ctx, sc: &Scene, fees: &Fees, q: &Q, est: &crate::pool::Est) {
    let st = Mem::default();
    let ap = api();
    let env = env_at(1_700_000_000);
    let up = |a: u128| -> Option<Coins> { sc.units.iter().map(|(d, u)| mul_div_ceil(a, *u, ONE).map(|x| (d.clone(), x))).collect::<Option<Coins>>().map(sorted) };
    let down = |a: u128| -> Option<Coins> { sc.units.iter().map(|(d, u)| mul_div_floor(a, *u, ONE).map(|x| (d.clone(), x))).collect::<Option<Coins>>().map(sorted) };
    for _ in 0..3 {
        let a = crate::pool::amt_for(cx);
        let ask = |m: QueryMsg| -> Result<serde_json::Value, String> {
            guarded(|| ibcx_periphery::contract::query(Deps { storage: &st, api: &ap, querier: QuerierWrapper::new(q) }, env.clone(), m)).map(|b| serde_json::from_slice(b.as_slice()).unwrap())
        };
        // mint with exact output
        cx.op(format!("simulate mint exact out {a}"));
        let want = sc.cost(a, est);
        let r = ask(QueryMsg::SimulateMintExactAmountOut { core_addr: CORE.into(), output_amount: a.into(), input_asset: sc.base.clone(), swap_info: compact(sc) });
        cx.kind("simulated mints with exact output");
        let recv = keep(fees.mint).and_then(|k| mul_div_floor(a, k, ONE));
        match (&r, &want) {
            (Ok(v), Some((total, _))) => {
                let ok = rep(v, "mint_amount", "mint_spend_amount").map_or(false, |x| Some(x.amount) == recv && Some(&x.list) == up(a).as_ref() && x.denom == sc.base && x.result == *total);
                cx.check(P04, ok, || format!("minting {a}: expected {recv:?} for {:?} costing {total}, the query says {v}", up(a)));
            }
            (Ok(v), None) => cx.fail(P04, format!("minting {a} cannot be simulated, the query says {v}")),
            (Err(e), Some(w)) => cx.check(P04, recv.is_none() || up(a).is_none(), || format!("minting {a}: expected {w:?}, the query fails: {e}")),
            _ => {}
        }
        // burn with exact input
        cx.op(format!("simulate burn exact in {a}"));
        let act = keep(fees.burn).and_then(|k| mul_div_floor(a, k, ONE));
        let want = act.and_then(|x| sc.proceeds(x, est));
        let r = ask(QueryMsg::SimulateBurnExactAmountIn { core_addr: CORE.into(), input_amount: a.into(), output_asset: sc.base.clone(), swap_info: compact(sc) });
        cx.kind("simulated burns with exact input");
        match (&r, &want) {
            (Ok(v), Some((total, _))) => {
                let l = act.and_then(down);
                let ok = rep(v, "burn_amount", "burn_redeem_amount").map_or(false, |x| Some(x.amount) == act && Some(&x.list) == l.as_ref() && x.denom == sc.base && x.result == *total);
                cx.check(P04, ok, || format!("burning {a}: expected {act:?} for {l:?} yielding {total}, the query says {v}"));
            }
            (Ok(v), None) => cx.fail(P04, format!("burning {a} cannot be simulated, the query says {v}")),
            (Err(e), Some(w)) => cx.fail(P04, format!("burning {a}: expected {w:?}, the query fails: {e}")),
            _ => {}
        }
        // searches: the index amount is recovered from the reported one
        let desired = want.as_ref().map(|w| w.0).unwrap_or(100_000).max(1);
        cx.op(format!("simulate mint exact in {desired}"));
        let r = ask(QueryMsg::SimulateMintExactAmountIn { core_addr: CORE.into(), input_asset: coin(desired, &sc.base), swap_info: compact(sc) });
        if let (Ok(v), Some(k)) = (&r, keep(fees.mint)) {
            cx.kind("simulated mints with exact input");
            let x = rep(v, "mint_amount", "mint_spend_amount");
            let ok = x.as_ref().map_or(false, |x| {
                // all amounts whose remainder after the fee is the reported one
                let lo = mul_div_ceil(x.amount + 100, ONE, k).unwrap_or(0);
                x.denom == sc.base
                    && x.result <= desired
                    && desired - x.result < 5000
                    && (lo.saturating_sub(2)..lo + 8).any(|i| mul_div_floor(i, k, ONE) == Some(x.amount + 100) && sc.cost(i, est).map(|c| c.0) == Some(x.result) && up(i).as_ref() == Some(&x.list))
            });
            cx.check(P04, ok, || format!("mint for {desired}{}: no index amount fits the answer {v}", sc.base));
        }
        let desired = desired - desired / 10 + 1;
        cx.op(format!("simulate burn exact out {desired}"));
        let r = ask(QueryMsg::SimulateBurnExactAmountOut { core_addr: CORE.into(), output_asset: coin(desired, &sc.base), swap_info: compact(sc) });
        if let (Ok(v), Some(k)) = (&r, keep(fees.burn)) {
            cx.kind("simulated burns with exact output");
            let x = rep(v, "burn_amount", "burn_redeem_amount");
            let e = mul_div_floor(ONE, ONE, k).unwrap_or(0);
            let ok = x.as_ref().map_or(false, |x| {
                let lo = mul_div_floor(x.amount, ONE, e).unwrap_or(0);
                x.denom == sc.base
                    && x.result <= desired
                    && desired - x.result < 5000
                    && (lo.saturating_sub(2)..lo + 8).any(|i| mul_div_floor(i, e, ONE) == Some(x.amount) && sc.proceeds(i, est).map(|c| c.0) == Some(x.result) && down(i).as_ref() == Some(&x.list))
            });
            cx.check(P04, ok, || format!("burn for {desired}{}: no index amount fits the answer {v}", sc.base));
        }
    }
}

// ---------------------------------------------------------------- migrations
type V = (u64, u64, u64, Vec<String>);
fn parse(s: &str) -> Option<V> {
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, Some(p)),
        None => (s, None),
    };
    let num = |x: &str| -> Option<u64> {
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) || (x.len() > 1 && x.starts_with('0')) {
            return None;
        }
        x.parse().ok()
    };
    let c: Vec<&str> = core.split('.').collect();
    if c.len() != 3 {
        return None;
    }
    let mut ids = vec![];
    if let Some(p) = pre {
        for i in p.split('.') {
            if i.is_empty() || !i.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') || (i.len() > 1 && i.starts_with('0') && i.bytes().all(|b| b.is_ascii_digit())) {
                return None;
            }
            ids.push(i.to_string());
        }
    }
    Some((num(c[0])?, num(c[1])?, num(c[2])?, ids))
}
fn less(a: &V, b: &V) -> bool {
    use std::cmp::Ordering::*;
    match (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2)) {
        Less => return true,
        Greater => return false,
        _ => {}
    }
    match (a.3.is_empty(), b.3.is_empty()) {
        (true, true) => return false,
        (true, false) => return false,
        (false, true) => return true,
        _ => {}
    }
    for (x, y) in a.3.iter().zip(&b.3) {
        let (dx, dy) = (x.bytes().all(|c| c.is_ascii_digit()), y.bytes().all(|c| c.is_ascii_digit()));
        let o = match (dx, dy) {
            (true, true) => x.len().cmp(&y.len()).then(x.cmp(y)),
            (true, false) => Less,
            (false, true) => Greater,
            _ => x.cmp(y),
        };
        match o {
            Less => return true,
            Greater => return false,
            _ => {}
        }
    }
    a.3.len() < b.3.len()
}
pub fn trace_migrate(cx: &mut Ctx) {
    let t: &[&'static str] = &["U01"];
    let names = [ibcx_core::CONTRACT_NAME, ibcx_airdrop::CONTRACT_NAME, ibcx_periphery::CONTRACT_NAME];
    let vers = [ibcx_core::CONTRACT_VERSION, ibcx_airdrop::CONTRACT_VERSION, ibcx_periphery::CONTRACT_VERSION];
    for _ in 0..10 {
        if cx.done() {
            return;
        }
        let which = cx.rng.below(3) as usize;
        let own = parse(vers[which]).expect("own version");
        let around = |cx: &mut Ctx, x: u64| match cx.rng.below(5) { 0 => x.saturating_sub(1), 1 => x + 1, 2 => cx.rng.below(20), _ => x };
        let mut v = format!("{}.{}.{}", around(cx, own.0), around(cx, own.1), around(cx, own.2));
        match cx.rng.below(8) {
            0 => v = vers[which].to_string(),
            1 => v += &format!("-rc.{}", cx.rng.below(12)),
            2 => v += &format!("-{}", cx.rng.pick(&["alpha", "beta.2", "1", "x-y", "alpha.1"])),
            3 => v = cx.rng.pick(&["1.0", "v1.0.0", "", "1.0.0.0", "01.0.0", "one", "1..0", "0.1.0-"]).to_string(),
            _ => {}
        }
        let vn = variant(&mut cx.rng, names[which]);
        let name = if cx.rng.chance(1, 4) { cx.rng.pick(&[names[0].to_string(), names[1].into(), names[2].into(), "other".into(), format!("{}x", names[which]), vn]).clone() } else { names[which].to_string() };
        let force = *cx.rng.pick(&[None, Some(false), Some(true)]);
        let mut st = Mem::default();
        let stored = !cx.rng.chance(1, 20);
        if stored {
            cw2::set_contract_version(&mut st, name.clone(), v.clone()).unwrap();
        }
        for _ in 0..3 {
            let (k, x) = (cx.rng.next(), cx.rng.next());
            st.0.insert(format!("k{k}").into_bytes(), format!("v{x}").into_bytes());
        }
        for k in ["config", "airdrops_index", "token", "paused", "gov"] {
            if cx.rng.chance(1, 2) {
                st.0.insert(k.as_bytes().to_vec(), b"{}".to_vec());
            }
        }
        let before = st.clone();
        cx.op(format!("migrate {} from {name} {v:?} (stored {stored}) force {force:?}", names[which]));
        let ap = api();
        let q = Q::default();
        let env = env_at(1_700_000_000);
        let d = DepsMut { storage: &mut st, api: &ap, querier: QuerierWrapper::new(&q) };
        let r = match which {
            0 => guarded(|| ibcx_core::contract::migrate(d, env, ibcx_interface::core::MigrateMsg { force })),
            1 => guarded(|| ibcx_airdrop::contract::migrate(d, env, ibcx_interface::airdrop::MigrateMsg { force })),
            _ => guarded(|| ibcx_periphery::contract::migrate(d, env, ibcx_interface::periphery::MigrateMsg { force })),
        };
        let ok = force == Some(true) || (stored && name == names[which] && parse(&v).map_or(false, |s| less(&s, &own)));
        cx.kind(if ok { "migrations" } else { "migrations refused" });
        cx.check(t, r.is_ok() == ok, || format!("migrating {} {} from {name} {v:?} (stored {stored}) with force {force:?}: should {}, got {:?}", names[which], vers[which], if ok { "succeed" } else { "fail" }, r.as_ref().err()));
        let mut want = before.clone();
        if ok {
            cw2::set_contract_version(&mut want, names[which], vers[which]).unwrap();
        }
        if let Ok(r) = &r {
            cx.check(t, msgs(r).is_empty(), || format!("a migration sends {:?}", msgs(r)));
            cx.check(t, st == want, || "a migration changed more than the recorded version".to_string());
        }
        // the shared version gate by itself, for any declared version
        let mut nv = format!("{}.{}.{}", around(cx, own.0), around(cx, own.1), around(cx, own.2));
        match cx.rng.below(8) {
            0 | 1 => nv = v.clone(),
            2 => nv += &format!("-rc.{}", cx.rng.below(12)),
            3 => nv += &format!("-{}", cx.rng.pick(&["alpha", "beta.2", "1", "x-y", "alpha.1"])),
            4 => nv = cx.rng.pick(&["1.0", "v1.0.0", "", "01.0.0", "0.1.0-"]).to_string(),
            _ => {}
        }
        let mut st = before.clone();
        let nm = names[which].to_string();
        let r = guarded(|| ibcx_utils::store_version(&mut st, nm.clone(), nv.clone()));
        let ok = stored && name == names[which] && parse(&v).map_or(false, |s| parse(&nv).map_or(false, |n| less(&s, &n)));
        cx.op(format!("version gate {name} {v:?} (stored {stored}) to {nm} {nv:?}"));
        cx.check(t, r.is_ok() == ok, || format!("moving {name} {v:?} (stored {stored}) to {nm} {nv:?}: should {}, got {:?}", if ok { "succeed" } else { "fail" }, r.as_ref().err()));
        let mut want = before.clone();
        if ok { cw2::set_contract_version(&mut want, nm, nv).unwrap(); }
        cx.check(t, r.is_err() || st == want, || "the version gate changed more than the recorded version".to_string());
    }
}
