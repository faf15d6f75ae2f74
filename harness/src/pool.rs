//! fixed-point power, weighted pools, route simulation and amount search: the compiled packages
//! against exact twins written from the properties
use crate::util::*;
use crate::world::*;
use cosmwasm_std::*;
use ibcx_interface::periphery::{RouteKey, SwapInfo};
use ibcx_interface::types::{SwapRoute, SwapRoutes};
use ibcx_pool::{OsmosisPool, Simulator};
use std::collections::BTreeMap;

pub type A = Uint256;
pub fn one() -> A {
    u256(ONE)
}
fn muldiv(a: A, b: A, d: A) -> Option<A> {
    if d.is_zero() {
        return None;
    }
    A::try_from(Uint512::from(a).checked_mul(Uint512::from(b)).ok()?.checked_div(Uint512::from(d)).ok()?).ok()
}
pub fn dmul(a: A, b: A) -> Option<A> {
    muldiv(a, b, one())
}
pub fn ddiv(a: A, b: A) -> Option<A> {
    muldiv(a, one(), b)
}
fn todec(a: A) -> Option<A> {
    a.checked_mul(one()).ok()
}

/// power as documented: integer part by squaring, fraction by the binomial series cut off at 1e-8
pub fn tpow(base: A, exp: A) -> Option<A> {
    if base.is_zero() || base >= u256(2 * ONE) {
        return None;
    }
    if exp == one() {
        return Some(base);
    }
    let int = exp / one();
    let frac = exp - int * one();
    let ip = tpow_int(base, int)?;
    if frac.is_zero() {
        return Some(ip);
    }
    dmul(ip, tpow_frac(base, frac)?)
}
fn tpow_int(mut base: A, mut i: A) -> Option<A> {
    if i.is_zero() {
        return Some(one());
    }
    let mut tmp = one();
    let two = u256(2);
    while i > u256(1) {
        if i % two != A::zero() {
            tmp = dmul(tmp, base)?;
        }
        i = i / two;
        base = dmul(base, base)?;
    }
    dmul(base, tmp)
}
fn tpow_frac(base: A, a: A) -> Option<A> {
    let x = base.abs_diff(one());
    let xneg = base < one();
    let (mut term, mut sum, mut neg) = (one(), one(), false);
    let mut i = 1u64;
    while term >= u256(10_000_000_000) {
        let k1 = u256(i as u128 - 1) * one();
        let c = a.abs_diff(k1);
        let cneg = a < k1;
        term = dmul(term, dmul(c, x)?)? / A::from(i);
        if term.is_zero() {
            break;
        }
        // the i-th factor is (a-(i-1))/i * (base-1)
        if xneg != cneg {
            neg = !neg;
        }
        sum = if neg { sum.checked_sub(term).ok()? } else { sum.checked_add(term).ok()? };
        i += 1;
    }
    Some(sum)
}

pub fn raw256(a: A) -> Decimal256 {
    Decimal256::new(a)
}
fn f(a: A) -> f64 {
    a.to_string().parse::<f64>().unwrap() / 1e18
}

/// M01
pub fn trace_math(cx: &mut Ctx) {
    let t: &[&'static str] = &["M01"];
    for _ in 0..40 {
        if cx.done() {
            return;
        }
        let base = match cx.rng.below(12) {
            0 => 0,
            1 => 2 * ONE + cx.rng.u128() % ONE,
            2 => 2 * ONE,
            3 => ONE,
            4 => 1 + cx.rng.u128() % (ONE / 1000),
            5 => ONE - 1 - cx.rng.u128() % 1000,
            6 => ONE + 1 + cx.rng.u128() % 1000,
            7 => cx.rng.u128() % (2 * ONE),
            8 => 2 * ONE - 1 - cx.rng.u128() % 1000,
            _ => ONE / 2 + cx.rng.u128() % (ONE * 14 / 10),
        };
        let near = base > ONE * 15 / 100 && base < ONE * 185 / 100 || base > ONE / 50 && base < ONE * 198 / 100 && cx.rng.chance(1, 8);
        let int = match cx.rng.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => cx.rng.u128() % 9, 4 => if cx.rng.chance(1, 4) { cx.rng.mag(18) } else { cx.rng.u128() % 70 }, _ => cx.rng.u128() % 4 };
        let frac = if !near { 0 } else { match cx.rng.below(6) { 0 => 0, 1 => ONE / 2, 2 => 1, 3 => ONE - 1, _ => cx.rng.u128() % ONE } };
        let exp = int * ONE + frac;
        cx.op(format!("pow({}, {})", dec_str(base), dec_str(exp)));
        let got = guarded(|| ibcx_math::pow(raw256(u256(base)), raw256(u256(exp)))).ok().map(|d| d.atomics());
        let want = tpow(u256(base), u256(exp));
        cx.kind(if want.is_some() { if frac == 0 { "integer powers" } else { "fractional powers" } } else { "powers outside the range" });
        cx.check(t, got == want, || format!("pow({}, {}): expected {:?} (1e-18), the code gave {:?}", dec_str(base), dec_str(exp), want.map(|x| x.to_string()), got.map(|x| x.to_string())));
        if let Some(g) = got {
            if base >= ONE / 2 && base < 2 * ONE && int <= 1 && f(u256(base)) < 1.9 {
                let v = f(u256(base)).powf(f(u256(exp)));
                cx.check(t, (f(g) - v).abs() < 2.1e-7, || format!("pow({}, {}) = {} is away from {}", dec_str(base), dec_str(exp), f(g), v));
            }
        }
        let (x, y) = (cx.rng.mag(30), cx.rng.mag(30));
        let y = if cx.rng.chance(1, 4) { x } else { y };
        let r = guarded(|| Ok::<_, String>(ibcx_math::abs_diff_with_sign(raw256(u256(x)), raw256(u256(y)))));
        let want = (u256(x.abs_diff(y)), x > y);
        cx.kind("signed differences");
        cx.check(t, r.as_ref().ok().map(|r| (r.0.atomics(), r.1)) == Some(want), || format!("abs_diff_with_sign({}, {}): expected {want:?}, the code gave {r:?}", dec_str(x), dec_str(y)));
    }
}

// ---------------------------------------------------------------- pools
#[derive(Clone, Debug, PartialEq)]
pub enum TP {
    W { id: u64, fee: u128, assets: Vec<(String, A, A)> },
    /// concentrated: quotes come from the chain
    C { id: u64, fee: u128 },
}
impl TP {
    pub fn id(&self) -> u64 {
        match self {
            TP::W { id, .. } | TP::C { id, .. } => *id,
        }
    }
    pub fn json(&self) -> serde_json::Value {
        match self {
            TP::W { id, fee, assets } => {
                let tw = assets.iter().fold(A::zero(), |s, a| s + a.2);
                serde_json::json!({
                    "@type": "/osmosis.gamm.v1beta1.Pool", "address": format!("pooladdr{id}"), "id": id.to_string(), "future_pool_governor": "168h",
                    "pool_params": {"swap_fee": dec_str(*fee), "exit_fee": "0", "smooth_weight_change_params": null},
                    "pool_assets": assets.iter().map(|(d, a, w)| serde_json::json!({"token": {"denom": d, "amount": a.to_string()}, "weight": w.to_string()})).collect::<Vec<_>>(),
                    "total_shares": {"denom": format!("gamm/pool/{id}"), "amount": "100000000000000000000"}, "total_weight": tw.to_string()
                })
            }
            TP::C { id, fee } => serde_json::json!({
                "@type": "/osmosis.concentratedliquidity.v1beta1.Pool", "address": format!("pooladdr{id}"), "id": id.to_string(),
                "incentives_address": "x", "spread_rewards_address": "y", "token0": "a", "token1": "b", "current_tick_liquidity": "1", "current_sqrt_price": "1",
                "current_tick": "0", "tick_spacing": "100", "spread_factor": dec_str(*fee), "exponent_at_price_one": "-6", "last_liquidity_update": "2023"
            }),
        }
    }
    /// the chain's answer to a pool query ("@type" first, as the chain sends it)
    pub fn answer(&self) -> Vec<u8> {
        let v = self.json();
        let o = v.as_object().unwrap();
        let mut s = format!("{{\"pool\":{{\"@type\":{}", o["@type"]);
        for (k, x) in o {
            if k != "@type" {
                s += &format!(",{}:{}", serde_json::Value::String(k.clone()), x);
            }
        }
        s += "}}";
        s.into_bytes()
    }
    pub fn real(&self) -> Box<dyn OsmosisPool> {
        let b = serde_json::to_vec(&self.json()).unwrap();
        match self {
            TP::W { .. } => Box::new(from_json::<ibcx_pool::WeightedPool>(&b).unwrap()),
            TP::C { .. } => Box::new(from_json::<ibcx_pool::ConcentratedPool>(&b).unwrap()),
        }
    }
    fn get(&self, d: &str) -> Option<(A, A)> {
        match self {
            TP::W { assets, .. } => assets.iter().find(|a| a.0 == d).map(|a| (a.1, a.2)),
            _ => None,
        }
    }
    fn shift(&mut self, din: &str, dout: &str, ain: A, aout: A) -> Option<()> {
        if let TP::W { assets, .. } = self {
            for a in assets.iter_mut() {
                if a.0 == din {
                    a.1 = a.1.checked_add(ain).ok()?;
                } else if a.0 == dout {
                    a.1 = a.1.checked_sub(aout).ok()?;
                }
            }
        }
        Some(())
    }
    /// exact input
    pub fn swap_in(&mut self, din: &str, ain: u128, dout: &str, est: &Est) -> Option<A> {
        match self {
            TP::C { id, .. } => est(&SQ::EstIn { pool: *id, token_in: format!("{ain}{din}"), routes: vec![(*id, dout.to_string())] }).map(u256),
            TP::W { fee, .. } => {
                let fee = *fee;
                let (bin, win) = self.get(din)?;
                let (bout, wout) = self.get(dout)?;
                let after = muldiv(u256(ain), one().checked_sub(u256(fee)).ok()?, one())?;
                let y = ddiv(todec(bin)?, todec(bin.checked_add(after).ok()?)?)?;
                let p = tpow(y, ddiv(todec(win)?, todec(wout)?)?)?;
                if p >= one() {
                    return None;
                }
                let out = dmul(todec(bout)?, one() - p)? / one();
                self.shift(din, dout, u256(ain), out)?;
                Some(out)
            }
        }
    }
    /// exact output
    pub fn swap_out(&mut self, din: &str, dout: &str, aout: u128, est: &Est) -> Option<A> {
        match self {
            TP::C { id, .. } => est(&SQ::EstOut { pool: *id, token_out: format!("{aout}{dout}"), routes: vec![(*id, din.to_string())] }).map(u256),
            TP::W { fee, .. } => {
                let fee = *fee;
                let (bin, win) = self.get(din)?;
                let (bout, wout) = self.get(dout)?;
                let y = ddiv(todec(bout)?, todec(bout.checked_sub(u256(aout)).ok()?)?)?;
                let p = tpow(y, ddiv(todec(wout)?, todec(win)?)?)?;
                if p < one() {
                    return None;
                }
                let v = ddiv(dmul(todec(bin)?, p - one())?, one().checked_sub(u256(fee)).ok()?)?;
                let ain = v / one() + if (v % one()).is_zero() { A::zero() } else { u256(1) };
                self.shift(din, dout, ain, u256(aout))?;
                Some(ain)
            }
        }
    }
}
pub type Est = dyn Fn(&SQ) -> Option<u128>;
fn h(s: &str, seed: u64) -> u64 {
    let mut r = seed;
    for b in s.bytes() {
        r = Rng::new(r ^ b as u64).next();
    }
    r
}
/// the chain's quotes: every part of the question matters
pub fn estimator(seed: u64) -> impl Fn(&SQ) -> Option<u128> + Clone {
    move |q: &SQ| {
        let (tok, rest) = match q {
            SQ::EstIn { pool, token_in, routes } => (token_in, format!("i{pool}{routes:?}")),
            SQ::EstOut { pool, token_out, routes } => (token_out, format!("o{pool}{routes:?}")),
            _ => return None,
        };
        let n = tok.bytes().take_while(|b| b.is_ascii_digit()).count();
        let (num, den) = tok.split_at(n);
        let amt: u128 = num.parse().ok()?;
        let rate = 500_000 + h(&format!("{den}{rest}"), seed) % 1_500_000;
        // monotone, zero to zero
        mul_div_floor(amt, rate as u128, 1_000_000)
    }
}

fn rand_weighted(cx: &mut Ctx, id: u64, denoms: &[String], lo: u32) -> TP {
    let eq = cx.rng.chance(1, 2);
    // balances beyond 128 bits and uneven weights are legal too
    let huge = lo < 10 && cx.rng.chance(1, 10);
    let wild = lo < 10 && cx.rng.chance(1, 10);
    let w0 = 1_073_741_824u128;
    let assets = denoms
        .iter()
        .map(|d| {
            let a = 10u128.pow(lo + cx.rng.below(7) as u32) + cx.rng.u128() % 1_000_000;
            let a = if huge { u256(a) * u256(10u128.pow(22)) + u256(a) } else { u256(a) };
            let w = if eq { w0 } else if wild { 1 + cx.rng.u128() % (1 << 45) } else { w0 * (1 + cx.rng.below(5) as u128) / (1 + cx.rng.below(2) as u128) };
            (d.clone(), a, u256(w))
        })
        .collect();
    let fee = if cx.rng.chance(1, 10) { *cx.rng.pick(&[1, ONE / 2, ONE - 1, ONE * 4 / 5]) } else { *cx.rng.pick(&[0, ONE / 1000, ONE * 2 / 1000, ONE / 100, ONE * 3 / 1000]) };
    TP::W { id, fee, assets }
}

/// W01
pub fn trace_weighted(cx: &mut Ctx) {
    let t: &[&'static str] = &["W01"];
    let n = 2 + cx.rng.below(if cx.rng.clone().chance(1, 4) { 7 } else { 3 }) as usize;
    let look = cx.rng.chance(1, 4);
    let ds: Vec<String> = (0..n).map(|i| if look { ["uatom", "UATOM", "uatom2", "uato", "ibc/aB", "ibc/AB", "IBC/AB", "ibc/ab", "u"][i].to_string() } else { format!("d{}", 12 - i) }).collect();
    let mut tw = { let lo = 2 + cx.rng.below(8) as u32; let id = 1 + cx.rng.below(1000); rand_weighted(cx, id, &ds, lo) };
    let mut real: ibcx_pool::WeightedPool = from_json(serde_json::to_vec(&tw.json()).unwrap()).unwrap();
    let q = Q::default();
    let st = Mem::default();
    let ap = api();
    let deps = Deps { storage: &st, api: &ap, querier: QuerierWrapper::new(&q) };
    cx.op(format!("weighted pool {}", tw.json()));
    for _ in 0..12 {
        if cx.done() {
            return;
        }
        let din = if cx.rng.chance(1, 25) { "ghost".to_string() } else { cx.rng.pick(&ds).clone() };
        let dout = if cx.rng.chance(1, 25) { "ghost2".to_string() } else { cx.rng.pick(&ds).clone() };
        if din == dout {
            continue;
        }
        let exact_in = cx.rng.chance(1, 2);
        let own = match &tw { TP::W { fee, .. } => *fee, _ => 0 };
        // the spread factor is the caller's, usually the pool's own
        let fee = match cx.rng.below(8) { 0 => ONE * 7 / 1000, 1 => 0, _ => own };
        let rin = tw.get(&din).map(|x| x.0.to_string().parse::<u128>().unwrap_or(u128::MAX)).unwrap_or(1000);
        let rout = tw.get(&dout).map(|x| x.0.to_string().parse::<u128>().unwrap_or(u128::MAX)).unwrap_or(1000);
        let before = tw.clone();
        let mut next = tw.clone();
        if let TP::W { fee: f, .. } = &mut next { *f = fee; }
        let noest: &Est = &|_| None;
        let (want, got, what);
        if exact_in {
            // keep the remaining fraction well inside the series' range
            let amt = match cx.rng.below(6) { 0 => 1, 1 => cx.rng.below(10) as u128, 2 => rin.saturating_mul(3), 3 => rin / 1000 + 1, _ => cx.rng.u128() % rin.saturating_mul(2).max(1) };
            what = format!("swap exact in {amt}{din} -> {dout}");
            want = next.swap_in(&din, amt, &dout, noest);
            let mut r2 = real.clone();
            got = guarded(|| r2.swap_exact_amount_in(&deps, coin(amt, &din), dout.clone(), Uint256::zero(), dec(fee)));
            if got.is_ok() { real = r2; }
        } else {
            let amt = match cx.rng.below(8) { 0 => 1, 1 => cx.rng.below(10) as u128, 2 => rout, 3 => rout / 2 + rout % 2, 4 => rout.saturating_add(1), 5 => rout / 2 + 1, _ => cx.rng.u128() % (rout / 100 * 45).max(1) };
            what = format!("swap exact out {din} -> {amt}{dout}");
            want = next.swap_out(&din, &dout, amt, noest);
            let mut r2 = real.clone();
            got = guarded(|| r2.swap_exact_amount_out(&deps, din.clone(), Uint256::from(u128::MAX), coin(amt, &dout), dec(fee)));
            if got.is_ok() { real = r2; }
        }
        cx.op(what.clone());
        cx.kind(if want.is_some() { "weighted swaps" } else { "weighted swaps refused" });
        cx.check(t, got.as_ref().ok().copied() == want, || format!("{what}: expected {:?}, the code gave {:?}", want.map(|x| x.to_string()), got.as_ref().map(|x| x.to_string())));
        if let (true, Ok(g)) = (exact_in, &got) {
            cx.check(t, *g <= before.get(&dout).map(|x| x.0).unwrap_or_default(), || format!("{what} returned more than the reserve"));
        }
        if let TP::W { fee: f, .. } = &mut next { *f = own; }
        if want.is_some() { tw = next } else { tw = before }
        let now: serde_json::Value = serde_json::from_slice(&to_json_vec(&real).unwrap()).unwrap();
        let mut exp = tw.json();
        // decimals are printed by the code's own type
        exp["pool_params"]["exit_fee"] = now["pool_params"]["exit_fee"].clone();
        cx.check(t, now == exp, || format!("after {what} the pool should be {exp}, the code has {now}"));
    }
}

// ---------------------------------------------------------------- routes
#[derive(Clone, Debug)]
pub struct Scene {
    pub base: String,
    pub pools: Vec<TP>,
    /// asset -> path of (pool, denom before the pool) from the base to the asset
    pub paths: BTreeMap<String, Vec<(u64, String)>>,
    pub units: Vec<(String, u128)>,
    pub infos: Vec<SwapInfo>,
    pub seed: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub denom: String,
    pub amount: u128,
    pub quote: u128,
    /// hops as they have to appear in the message
    pub hops: Option<Vec<(u64, String)>>,
}
impl Scene {
    pub fn hops(&self, from: &str, to: &str) -> Option<Vec<(u64, String)>> {
        self.infos.iter().find(|i| i.0 .0 .0 .0 == from && i.0 .0 .0 .1 == to).map(|i| i.0 .1 .0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect())
    }
    /// spending the base for `amount` index tokens
    pub fn cost(&self, amount: u128, est: &Est) -> Option<(u128, Vec<Entry>)> {
        let mut ps: BTreeMap<u64, TP> = self.pools.iter().map(|p| (p.id(), p.clone())).collect();
        let mut out = vec![];
        let mut total = 0u128;
        for (d, u) in &self.units {
            let need = mul_div_ceil(amount, *u, ONE)?;
            let e = if *d == self.base {
                Entry { denom: d.clone(), amount: need, quote: need, hops: None }
            } else {
                let hops = self.hops(&self.base, d)?;
                let (mut cd, mut ca) = (d.clone(), need);
                for (p, din) in hops.iter().rev() {
                    let a = ps.get_mut(p)?.swap_out(din, &cd, ca, est)?;
                    ca = a.to_string().parse().ok()?;
                    cd = din.clone();
                }
                Entry { denom: d.clone(), amount: need, quote: ca, hops: Some(hops) }
            };
            total = total.checked_add(e.quote)?;
            out.push(e);
        }
        Some((total, out))
    }
    /// redeeming `amount` index tokens into the base
    pub fn proceeds(&self, amount: u128, est: &Est) -> Option<(u128, Vec<Entry>)> {
        let mut ps: BTreeMap<u64, TP> = self.pools.iter().map(|p| (p.id(), p.clone())).collect();
        let mut out = vec![];
        let mut total = 0u128;
        for (d, u) in &self.units {
            let have = mul_div_floor(amount, *u, ONE)?;
            let e = if *d == self.base {
                Entry { denom: d.clone(), amount: have, quote: have, hops: None }
            } else {
                let hops = self.hops(d, &self.base)?;
                let (mut cd, mut ca) = (d.clone(), have);
                for (p, dout) in &hops {
                    let a = ps.get_mut(p)?.swap_in(&cd, ca, dout, est)?;
                    ca = a.to_string().parse().ok()?;
                    cd = dout.clone();
                }
                Entry { denom: d.clone(), amount: have, quote: ca, hops: Some(hops) }
            };
            total = total.checked_add(e.quote)?;
            out.push(e);
        }
        Some((total, out))
    }
    pub fn real_units(&self) -> Vec<(String, Decimal)> {
        self.units.iter().map(|(d, u)| (d.clone(), dec(*u))).collect()
    }
}
pub fn scene(cx: &mut Ctx) -> Scene {
    let style = cx.rng.below(8);
    let base = match style { 1 => "ibc/AB", 2 => "d1", 3 => "zbase", _ => "ubase" }.to_string();
    let n = if style == 2 && cx.rng.chance(1, 3) { 12 } else if style > 4 && cx.rng.chance(1, 20) { 17 + cx.rng.below(6) as usize } else { 1 + cx.rng.below(4) as usize };
    let mids: Vec<String> = (0..2).map(|i| match style { 1 => ["ibc/aB", "IBC/AB"][i].to_string(), 2 => ["d2", "d01"][i].into(), _ => format!("umid{i}") }).collect();
    // amounts and reserves beyond 64 bits, and routes of many hops, are legal too
    let up = if cx.rng.chance(1, 10) { *cx.rng.pick(&[8u32, 10, 12]) } else { 0 };
    SCALE.with(|c| c.set(10u128.pow(up)));
    let long = n < 15 && cx.rng.chance(1, 12);
    let alike = ["ibc/ab", "ibc/Ab", "ibc/ABc", "ibc/A"];
    let mut assets: Vec<String> = (0..n).map(|i| match style { 1 => alike[i].to_string(), 2 => format!("d{}", 12 - i), 3 => format!("factory/osmo1x/sub{i}"), _ => format!("uasset{i}") }).collect();
    assets.retain(|a| *a != base && !mids.contains(a));
    let with_base = cx.rng.chance(1, 3);
    if with_base {
        let at = cx.rng.below(assets.len() as u64 + 1) as usize;
        assets.insert(at, base.clone());
    }
    // the contract lists units in denom order or not: both are legal
    if cx.rng.chance(1, 2) {
        assets.sort();
    }
    let mut pools: Vec<TP> = vec![];
    let mut ids: Vec<u64> = (1..=40).chain([99, 100, 256, 257, 1000, 65_537, 1 << 32, (1 << 32) + 1]).collect();
    ids.extend((0..20).map(|i| 300 + i));
    let mut paths = BTreeMap::new();
    for a in assets.clone() {
        if a == base {
            continue;
        }
        let mut chain = vec![base.clone()];
        match cx.rng.below(4) {
            0 => chain.push(mids[0].clone()),
            1 => { chain.push(mids[1].clone()); if cx.rng.chance(1, 2) { chain.push(mids[0].clone()) } }
            _ => {}
        }
        if long { for i in 0..cx.rng.below(5) { chain.push(format!("ulong{i}")); } }
        chain.push(a.clone());
        let mut path = vec![];
        for w in chain.windows(2) {
            let found: Vec<u64> = pools.iter().filter(|p| p.get(&w[0]).is_some() && p.get(&w[1]).is_some()).map(|p| p.id()).collect();
            let id = if !found.is_empty() && cx.rng.chance(4, 5) {
                *cx.rng.pick(&found)
            } else {
                let k = cx.rng.below(ids.len() as u64) as usize;
                let id = ids.remove(k);
                if cx.rng.chance(1, 6) {
                    pools.push(TP::C { id, fee: ONE / 500 });
                } else {
                    let mut ds = vec![w[0].clone(), w[1].clone()];
                    if cx.rng.chance(1, 3) {
                        for x in &assets { if !ds.contains(x) && cx.rng.chance(1, 2) { ds.push(x.clone()); } }
                    }
                    let lo = if cx.rng.chance(1, 4) { 10 } else { 13 } + cx.rng.below(3) as u32 + up;
                    let p = rand_weighted(cx, id, &ds, lo);
                    pools.push(p);
                }
                id
            };
            path.push((id, w[0].clone(), w[1].clone()));
        }
        paths.insert(a.clone(), path);
    }
    let units: Vec<(String, u128)> = assets
        .iter()
        .map(|a| (a.clone(), match cx.rng.below(5) { 0 => ONE, 1 => ONE / 3, 2 => 1 + cx.rng.u128() % ONE, 3 => match cx.rng.below(5) { 0 => 1, 1 => ONE * 1000 + 1, 2 => ONE - 1, _ => ONE * 2 + 7 }, _ => ONE / 100 + cx.rng.u128() % 1000 }))
        .collect();
    let mut infos = vec![];
    for (a, p) in &paths {
        infos.push(SwapInfo((RouteKey((base.clone(), a.clone())), SwapRoutes(p.iter().map(|x| SwapRoute { pool_id: x.0, token_denom: x.1.clone() }).collect()))));
        infos.push(SwapInfo((RouteKey((a.clone(), base.clone())), SwapRoutes(p.iter().rev().map(|x| SwapRoute { pool_id: x.0, token_denom: x.1.clone() }).collect()))));
    }
    // burn hops name the asset that comes out of each pool: from the asset towards the base
    if cx.rng.chance(1, 3) {
        infos.push(SwapInfo((RouteKey(("x".into(), base.clone())), SwapRoutes(vec![SwapRoute { pool_id: pools.first().map(|p| p.id()).unwrap_or(1), token_denom: base.clone() }]))));
        infos.push(SwapInfo((RouteKey((base.clone(), "x".into())), SwapRoutes(vec![SwapRoute { pool_id: pools.first().map(|p| p.id()).unwrap_or(1), token_denom: base.clone() }]))));
    }
    // a second route for a pair that has one already: the first in the list is the one in force
    if cx.rng.chance(1, 6) && !infos.is_empty() && !pools.is_empty() {
        let k = cx.rng.below(infos.len() as u64) as usize;
        let (a, b) = (infos[k].0 .0 .0 .0.clone(), infos[k].0 .0 .0 .1.clone());
        let id = pools[cx.rng.below(pools.len() as u64) as usize].id();
        let named = if paths.contains_key(&b) { a.clone() } else { b.clone() };
        let other = SwapInfo((RouteKey((a, b)), SwapRoutes(vec![SwapRoute { pool_id: id, token_denom: named }])));
        infos.push(other);
    }
    for i in (1..infos.len()).rev() {
        let j = cx.rng.below(i as u64 + 1) as usize;
        infos.swap(i, j);
    }
    if cx.rng.chance(1, 15) && !infos.is_empty() {
        infos.pop();
    }
    for i in (1..pools.len()).rev() {
        let j = cx.rng.below(i as u64 + 1) as usize;
        pools.swap(i, j);
    }
    let paths = paths.into_iter().map(|(a, p)| (a, p.into_iter().map(|x| (x.0, x.1)).collect())).collect();
    Scene { base, pools, paths, units, infos, seed: cx.rng.next() }
}
impl Scene {
    pub fn describe(&self) -> String {
        format!("base {} units {:?} pools {} routes {}", self.base, self.units, serde_json::json!(self.pools.iter().map(|p| p.json()).collect::<Vec<_>>()), serde_json::to_string(&self.infos).unwrap())
    }
    pub fn querier(&self) -> Q {
        Q { est: Some(Box::new(estimator(self.seed))), pools: self.pools.iter().map(|p| (p.id(), p.answer())).collect(), ..Default::default() }
    }
}
/// the swap messages of a mint-side simulation: same order, whole entries, limits within the budget
pub fn check_in_msgs(cx: &mut Ctx, t: &[&'static str], what: &str, entries: &[Entry], ms: &[Msg], limit: u128, sender: &str) {
    let exp: Vec<&Entry> = entries.iter().filter(|e| e.hops.is_some()).collect();
    cx.check(t, ms.len() == exp.len(), || format!("{what}: {} swaps expected, got {ms:?}", exp.len()));
    let mut sum = Some(entries.iter().filter(|e| e.hops.is_none()).map(|e| e.quote).sum::<u128>());
    for (m, e) in ms.iter().zip(exp) {
        match m {
            Msg::SwapOut { sender: s, routes, denom, amount, limit } => {
                cx.check(t, s == sender && Some(routes) == e.hops.as_ref() && *denom == e.denom && *amount == e.amount, || format!("{what}: expected {e:?} swapped by {sender}, got {m:?}"));
                cx.check(t, *limit >= e.quote, || format!("{what}: limit below the simulated input {e:?}: {m:?}"));
                sum = sum.and_then(|x| x.checked_add(*limit));
            }
            _ => cx.fail(t, format!("{what}: not a swap with exact output: {m:?}")),
        }
    }
    cx.check(t, sum.map_or(false, |s| s <= limit), || format!("{what}: the maximum inputs exceed {limit}: {ms:?} with entries {entries:?}"));
}
pub fn check_out_msgs(cx: &mut Ctx, t: &[&'static str], what: &str, entries: &[Entry], ms: &[Msg], limit: u128, sender: &str) {
    let exp: Vec<&Entry> = entries.iter().filter(|e| e.hops.is_some()).collect();
    cx.check(t, ms.len() == exp.len(), || format!("{what}: {} swaps expected, got {ms:?}", exp.len()));
    let mut sum = Some(entries.iter().filter(|e| e.hops.is_none()).map(|e| e.quote).sum::<u128>());
    for (m, e) in ms.iter().zip(exp) {
        match m {
            Msg::SwapIn { sender: s, routes, denom, amount, limit } => {
                cx.check(t, s == sender && Some(routes) == e.hops.as_ref() && *denom == e.denom && *amount == e.amount, || format!("{what}: expected {e:?} swapped by {sender}, got {m:?}"));
                cx.check(t, *limit <= e.quote, || format!("{what}: minimum above the simulated output {e:?}: {m:?}"));
                sum = sum.and_then(|x| x.checked_add(*limit));
            }
            _ => cx.fail(t, format!("{what}: not a swap with exact input: {m:?}")),
        }
    }
    cx.check(t, sum.map_or(true, |s| s >= limit), || format!("{what}: the minimum outputs do not reach {limit}: {ms:?} with entries {entries:?}"));
}
thread_local! { pub static SCALE: std::cell::Cell<u128> = const { std::cell::Cell::new(1) }; }
pub fn amt_for(cx: &mut Ctx) -> u128 {
    let k = SCALE.with(|c| c.get());
    if k > 1 { return (cx.rng.mag(9) + 1) * k + cx.rng.u128() % k; }
    match cx.rng.below(7) {
        6 => cx.rng.mag(14) + 1,
        0 => 1 + cx.rng.below(20) as u128,
        1 => 1000 + cx.rng.below(100000) as u128,
        _ => cx.rng.mag(9) + 1,
    }
}
fn near(cx: &mut Ctx, total: u128) -> u128 {
    match cx.rng.below(8) {
        0 => total.saturating_sub(1),
        1 => total,
        2 => total + 1,
        3 => total + total / 3,
        4 => total * 2,
        5 => total - total / 7,
        6 => total / 2 + 1,
        _ => total + 10000,
    }
}
macro_rules! same_entries {
    ($cx:expr, $t:expr, $what:expr, $want:expr, $got:expr, $coin:ident, $quote:ident) => {{
        let g: Vec<(String, u128, u128, bool)> = $got.0.iter().map(|e| (e.$coin.denom.clone(), e.$coin.amount.u128(), e.$quote.u128(), e.routes.is_some())).collect();
        let w: Vec<(String, u128, u128, bool)> = $want.iter().map(|e: &Entry| (e.denom.clone(), e.amount, e.quote, e.hops.is_some())).collect();
        $cx.check($t, g == w, || format!("{}: expected entries {w:?}, the code gave {g:?}", $what));
    }};
}
/// S01 and S02 (and T01: hops, senders and limits of estimates and messages)
pub fn trace_sim(cx: &mut Ctx) {
    let t1: &[&'static str] = &["S01"];
    let tm: &[&'static str] = &["S01", "T01"];
    let t2: &[&'static str] = &["S02"];
    let sc = scene(cx);
    cx.op(sc.describe());
    let q = sc.querier();
    let st = Mem::default();
    let ap = api();
    let deps = Deps { storage: &st, api: &ap, querier: QuerierWrapper::new(&q) };
    let est = estimator(sc.seed);
    // the pools come from the caller or from the chain
    let pools: Vec<Box<dyn OsmosisPool>> = if cx.rng.chance(1, 2) {
        match guarded(|| ibcx_pool::query_pools(&deps, sc.pools.iter().map(|p| p.id()).collect())) {
            Ok(p) => p,
            Err(e) => {
                cx.fail(t1, format!("reading the pools failed: {e}"));
                return;
            }
        }
    } else {
        sc.pools.iter().map(|p| p.real()).collect()
    };
    cx.check(t1, pools.len() == sc.pools.len(), || format!("{} pools asked for, {} read", sc.pools.len(), pools.len()));
    let units = sc.real_units();
    let sim = Simulator::new(&deps, &pools, &sc.infos, &units);
    let me = Addr::unchecked(SELF);
    for _ in 0..4 {
        if cx.done() {
            return;
        }
        // --- fixed amounts
        let a = amt_for(cx);
        cx.op(format!("estimate_input_for_index {a}"));
        let want = sc.cost(a, &est);
        let got = guarded(|| sim.estimate_input_for_index(&sc.base, a.into()));
        cx.kind("cost simulations");
        match (&want, &got) {
            (None, Ok(r)) => cx.fail(t1, format!("cost of {a}: should fail, the code gave {r:?}")),
            (Some(w), Err(e)) => cx.fail(t1, format!("cost of {a}: expected {w:?}, the code failed: {e}")),
            (Some((total, es)), Ok(r)) => {
                cx.check(t1, r.total_input.u128() == *total && r.index_out.u128() == a, || format!("cost of {a}: expected {total}, the code gave {r:?}"));
                same_entries!(cx, t1, format!("cost of {a}"), es, r.sim_routes, amount_out, sim_amount_in);
                for _ in 0..3 {
                    let lim = near(cx, *total);
                    let m = guarded(|| r.sim_routes.to_msgs(&me, lim.into()));
                    cx.kind("cost limits");
                    match m {
                        Ok(ms) => {
                            cx.check(t1, lim >= *total, || format!("limit {lim} is below the total {total} but was accepted"));
                            let ms: Vec<Msg> = ms.iter().map(decode).collect();
                            check_in_msgs(cx, tm, &format!("swaps for {a} with limit {lim}"), es, &ms, lim, SELF);
                        }
                        Err(e) => cx.check(t1, lim < *total || *total == 0, || format!("limit {lim} covers the total {total} but was refused: {e}")),
                    }
                }
            }
            _ => {}
        }
        cx.op(format!("estimate_output_for_index {a}"));
        let want = sc.proceeds(a, &est);
        let got = guarded(|| sim.estimate_output_for_index(a.into(), &sc.base));
        cx.kind("proceeds simulations");
        match (&want, &got) {
            (None, Ok(r)) => cx.fail(t1, format!("proceeds of {a}: should fail, the code gave {r:?}")),
            (Some(w), Err(e)) => cx.fail(t1, format!("proceeds of {a}: expected {w:?}, the code failed: {e}")),
            (Some((total, es)), Ok(r)) => {
                cx.check(t1, r.total_output.u128() == *total && r.index_in.u128() == a, || format!("proceeds of {a}: expected {total}, the code gave {r:?}"));
                same_entries!(cx, t1, format!("proceeds of {a}"), es, r.sim_routes, amount_in, sim_amount_out);
                for _ in 0..3 {
                    let lim = near(cx, *total);
                    let m = guarded(|| r.sim_routes.to_msgs(&me, lim.into()));
                    cx.kind("proceeds limits");
                    match m {
                        Ok(ms) => {
                            cx.check(t1, lim <= *total, || format!("minimum {lim} is above the total {total} but was accepted"));
                            let ms: Vec<Msg> = ms.iter().map(decode).collect();
                            check_out_msgs(cx, tm, &format!("swaps for {a} with minimum {lim}"), es, &ms, lim, SELF);
                        }
                        Err(e) => cx.check(t1, lim > *total || *total == 0, || format!("total {total} reaches the minimum {lim} but it was refused: {e}")),
                    }
                }
            }
            _ => {}
        }
        // --- search
        if !cx.concerns(t2) {
            continue;
        }
        let near_total = |w: &Option<(u128, Vec<Entry>)>| w.as_ref().map(|x| x.0).unwrap_or(1_000_000);
        let desired = match cx.rng.below(3) { 0 => 1 + near_total(&sc.cost(a, &est)), 1 => near_total(&sc.cost(a.saturating_mul(3), &est)), _ => cx.rng.mag(9) + 1 };
        let init = if cx.rng.chance(1, 2) { Some(Uint128::from(amt_for(cx))) } else { None };
        let min = match cx.rng.below(4) { 0 => None, 1 => Some(Uint128::from(a)), 2 => Some(Uint128::from(a - a / 4)), _ => Some(Uint128::from(cx.rng.u128() % (a + 1))) };
        let tol = match cx.rng.below(4) { 0 => None, 1 => Some(Decimal::one()), 2 => Some(Decimal::zero()), _ => Some(dec(cx.rng.u128() % ONE)) };
        cx.op(format!("estimate_index_for_input {desired} init {init:?} min {min:?} tol {tol:?}"));
        match guarded(|| sim.estimate_index_for_input(coin(desired, &sc.base), init, min, tol)) {
            Err(_) => cx.kind("input searches refused"),
            Ok(r) => {
                cx.kind("input searches");
                let spent = r.max.max_token_in.u128();
                cx.check(t2, spent <= desired && desired - spent < 5000, || format!("search for {desired}: found {r:?}"));
                let idx = r.max.est_min_token_out.u128();
                let fresh = sc.cost(idx, &est);
                cx.check(t2, fresh.as_ref().map(|f| f.0) == Some(spent), || format!("search for {desired}: {idx} costs {fresh:?}, the code reports {r:?}"));
                if let Some(f) = &fresh {
                    same_entries!(cx, t2, "search result", f.1, r.max.sim_routes, amount_out, sim_amount_in);
                }
                cx.check(t2, min.is_none() == r.est.is_none(), || format!("minimum {min:?} with {r:?}"));
                if let (Some(m), Some(e)) = (min, &r.est) {
                    let m = m.u128();
                    cx.check(t2, idx >= m, || format!("minimum {m} cannot be met by {idx} but was accepted"));
                    let k = e.est_min_token_out.u128();
                    cx.check(t2, m <= k && k <= idx, || format!("revised {k} outside [{m}, {idx}]"));
                    let fresh = sc.cost(k, &est);
                    cx.check(t2, fresh.as_ref().map(|f| f.0) == Some(e.max_token_in.u128()), || format!("revised {k} costs {fresh:?}, the code reports {e:?}"));
                    if let Some(f) = &fresh {
                        same_entries!(cx, t2, "revised result", f.1, e.sim_routes, amount_out, sim_amount_in);
                    }
                }
            }
        }
        let desired = match cx.rng.below(3) { 0 => 1 + near_total(&sc.proceeds(a, &est)), 1 => near_total(&sc.proceeds(a.saturating_mul(3), &est)), _ => cx.rng.mag(9) + 1 };
        let max = match cx.rng.below(4) { 0 => None, 1 => Some(Uint128::from(a)), 2 => Some(Uint128::from(a + a / 4)), _ => Some(Uint128::from(a + cx.rng.u128() % (3 * a + 1))) };
        cx.op(format!("estimate_index_for_output {desired} init {init:?} max {max:?} tol {tol:?}"));
        match guarded(|| sim.estimate_index_for_output(coin(desired, &sc.base), init, max, tol)) {
            Err(_) => cx.kind("output searches refused"),
            Ok(r) => {
                cx.kind("output searches");
                let got = r.min.max_token_out.u128();
                cx.check(t2, got <= desired && desired - got < 5000, || format!("search for {desired}: found {r:?}"));
                let idx = r.min.est_min_token_in.u128();
                let fresh = sc.proceeds(idx, &est);
                cx.check(t2, fresh.as_ref().map(|f| f.0) == Some(got), || format!("search for {desired}: {idx} yields {fresh:?}, the code reports {r:?}"));
                if let Some(f) = &fresh {
                    same_entries!(cx, t2, "search result", f.1, r.min.sim_routes, amount_in, sim_amount_out);
                }
                cx.check(t2, max.is_none() == r.est.is_none(), || format!("maximum {max:?} with {r:?}"));
                if let (Some(m), Some(e)) = (max, &r.est) {
                    let m = m.u128();
                    cx.check(t2, idx <= m, || format!("maximum {m} cannot be met by {idx} but was accepted"));
                    let k = e.est_min_token_in.u128();
                    cx.check(t2, idx <= k && k <= m, || format!("revised {k} outside [{idx}, {m}]"));
                    let fresh = sc.proceeds(k, &est);
                    cx.check(t2, fresh.as_ref().map(|f| f.0) == Some(e.max_token_out.u128()), || format!("revised {k} yields {fresh:?}, the code reports {e:?}"));
                    if let Some(f) = &fresh {
                        same_entries!(cx, t2, "revised result", f.1, e.sim_routes, amount_in, sim_amount_out);
                    }
                }
            }
        }
    }
}

/// T01: descriptions, needed pools, estimates and messages of a route
pub fn trace_routes(cx: &mut Ctx) {
    let t: &[&'static str] = &["T01"];
    use ibcx_interface::periphery::{extract_pool_ids, SwapInfoCompact, SwapInfosCompact};
    let name = |cx: &mut Ctx| -> String {
        match cx.rng.below(4) { 0 => format!("ibc/{:X}", cx.rng.next()), 1 => format!("factory/osmo1x{}/sub", cx.rng.below(50)), 2 => "uosmo".into(), _ => format!("denom{}", cx.rng.below(9)) }
    };
    let mut want = vec![];
    let mut compact = vec![];
    let most = if cx.rng.chance(1, 8) { 30 } else { 5 };
    for _ in 0..cx.rng.below(most) {
        let (a, b) = (name(cx), name(cx));
        let most = if cx.rng.chance(1, 8) { 20 } else { 5 };
        let hops: Vec<(u64, String)> = (0..cx.rng.below(most)).map(|_| (match cx.rng.below(3) { 0 => cx.rng.below(6), 1 => cx.rng.below(2000), _ => cx.rng.next() }, name(cx))).collect();
        compact.push(SwapInfoCompact { key: format!("{a},{b}"), routes: hops.iter().map(|h| format!("{},{}", h.0, h.1)).collect() });
        want.push((a, b, hops));
    }
    cx.op(format!("{want:?}"));
    let got = guarded(|| Ok::<_, String>(Vec::<SwapInfo>::from(SwapInfosCompact(compact.clone()))));
    let flat = |v: &Vec<SwapInfo>| -> Vec<(String, String, Vec<(u64, String)>)> { v.iter().map(|i| (i.0 .0 .0 .0.clone(), i.0 .0 .0 .1.clone(), i.0 .1 .0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect())).collect() };
    cx.kind("route descriptions");
    match &got {
        Ok(v) => {
            let g = flat(v);
            cx.check(t, g == want, || format!("expected {want:?}, the code gave {g:?}"));
            let mut ids: Vec<u64> = want.iter().flat_map(|w| w.2.iter().map(|h| h.0)).collect();
            ids.sort();
            ids.dedup();
            let e = extract_pool_ids(v.clone());
            cx.check(t, e == ids, || format!("pools needed: expected {ids:?}, the code gave {e:?}"));
        }
        Err(e) => cx.fail(t, format!("conversion failed: {e}")),
    }
    // estimates and messages
    let hops: Vec<(u64, String)> = (0..1 + cx.rng.below(4)).map(|_| (cx.rng.below(5000), name(cx))).collect();
    let rs = SwapRoutes(hops.iter().map(|h| SwapRoute { pool_id: h.0, token_denom: h.1.clone() }).collect());
    let (amount, limit, d, who) = (cx.rng.mag(30), cx.rng.mag(30), name(cx), format!("addr{}", cx.rng.below(100)));
    cx.op(format!("route {hops:?} amount {amount}{d} limit {limit} sender {who}"));
    let answer = cx.rng.mag(30);
    let q = Q { est: Some(Box::new(move |_| Some(answer))), ..Default::default() };
    let w = QuerierWrapper::new(&q);
    let i = guarded(|| rs.sim_swap_exact_in(&w, &who, coin(amount, &d)));
    cx.kind("route estimates");
    let asked = q.asked.borrow_mut().drain(..).collect::<Vec<_>>();
    let exp = vec![SQ::EstIn { pool: hops[0].0, token_in: format!("{amount}{d}"), routes: hops.clone() }];
    cx.check(t, i.as_ref().map(|x| x.u128()) == Ok(answer) && asked == exp, || format!("estimate with exact input: expected {answer} from {exp:?}, got {i:?} from {asked:?}"));
    let o = guarded(|| rs.sim_swap_exact_out(&w, &who, coin(amount, &d)));
    let asked = q.asked.borrow_mut().drain(..).collect::<Vec<_>>();
    let exp = vec![SQ::EstOut { pool: hops[0].0, token_out: format!("{amount}{d}"), routes: hops.clone() }];
    cx.check(t, o.as_ref().map(|x| x.u128()) == Ok(answer) && asked == exp, || format!("estimate with exact output: expected {answer} from {exp:?}, got {o:?} from {asked:?}"));
    cx.kind("route messages");
    let m = decode(&rs.msg_swap_exact_in(&Addr::unchecked(&who), &d, amount.into(), limit.into()));
    let e = Msg::SwapIn { sender: who.clone(), routes: hops.clone(), denom: d.clone(), amount, limit };
    cx.check(t, m == e, || format!("swap message: expected {e:?}, the code gave {m:?}"));
    let m = decode(&rs.msg_swap_exact_out(&Addr::unchecked(&who), &d, amount.into(), limit.into()));
    let e = Msg::SwapOut { sender: who, routes: hops, denom: d, amount, limit };
    cx.check(t, m == e, || format!("swap message: expected {e:?}, the code gave {m:?}"));
}
