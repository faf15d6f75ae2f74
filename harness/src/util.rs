//! randomness, exact arithmetic, divergence bookkeeping
use cosmwasm_std::{Uint256, Uint512};
use std::collections::BTreeMap;

pub const ONE: u128 = 1_000_000_000_000_000_000;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// amount with random magnitude up to 10^maxexp
    pub fn mag(&mut self, maxexp: u32) -> u128 {
        let e = self.below(maxexp as u64 + 1) as u32;
        let base = 10u128.pow(e);
        match self.below(4) {
            0 => base,
            1 => base + 1,
            2 => base.saturating_sub(1),
            _ => self.u128() % (base.saturating_mul(10)).max(2),
        }
    }
}

/// a string that is easily taken for `s` but is another one (or, rarely, `s` itself)
pub fn variant(r: &mut Rng, s: &str) -> String {
    let cut = |n: usize| -> String { s.chars().take(n).collect() };
    let n = s.chars().count();
    match r.below(20) {
        0 | 1 => s.to_uppercase(),
        2 | 3 => s.to_lowercase(),
        4 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_uppercase().to_string() } else { c.to_string() }).collect(),
        5 => format!("{s} "),
        6 => format!(" {s}"),
        7 => format!("{s}0"),
        8 => format!("0{s}"),
        9 => cut(n.saturating_sub(1)),
        10 => s.chars().rev().collect(),
        11 => format!("{s}/"),
        12 => format!("/{s}"),
        13 => format!("{s}\u{0}"),
        14 => s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        15 => format!("0x{s}"),
        16 => format!("{s}{s}"),
        17 => String::new(),
        18 => format!("{s}\u{301}"),
        _ => s.chars().skip(1).collect(),
    }
}

pub fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
pub fn mul_div_floor(a: u128, b: u128, d: u128) -> Option<u128> {
    if d == 0 {
        return None;
    }
    let r = Uint256::from(a).checked_mul(Uint256::from(b)).ok()?.checked_div(Uint256::from(d)).ok()?;
    cosmwasm_std::Uint128::try_from(r).ok().map(|v| v.u128())
}
pub fn mul_div_ceil(a: u128, b: u128, d: u128) -> Option<u128> {
    if d == 0 {
        return None;
    }
    let p = Uint256::from(a).checked_mul(Uint256::from(b)).ok()?;
    let r = p.checked_add(Uint256::from(d - 1)).ok()?.checked_div(Uint256::from(d)).ok()?;
    cosmwasm_std::Uint128::try_from(r).ok().map(|v| v.u128())
}
#[allow(dead_code)]
pub fn w512(x: u128) -> Uint512 {
    Uint512::from(x)
}

pub fn dec(x: u128) -> cosmwasm_std::Decimal {
    cosmwasm_std::Decimal::raw(x)
}
pub fn dec_str(x: u128) -> String {
    dec(x).to_string()
}

#[derive(Clone, Debug)]
pub struct Div {
    pub tags: Vec<&'static str>,
    pub what: String,
}

/// one exploration: collects what was done and the first divergence that concerns `prop`
pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub log: Vec<String>,
    pub found: Option<Div>,
    pub evals: u64,
    pub kinds: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn new(prop: &str, seed: u64) -> Self {
        Ctx { prop: prop.into(), rng: Rng::new(seed), log: vec![], found: None, evals: 0, kinds: BTreeMap::new() }
    }
    pub fn done(&self) -> bool {
        self.found.is_some()
    }
    pub fn op(&mut self, s: String) {
        self.log.push(s);
    }
    pub fn kind(&mut self, k: &str) {
        *self.kinds.entry(k.to_string()).or_insert(0) += 1;
        self.evals += 1;
    }
    pub fn concerns(&self, tags: &[&'static str]) -> bool {
        self.prop == "ALL" || tags.iter().any(|t| *t == self.prop)
    }
    pub fn fail(&mut self, tags: &[&'static str], what: String) {
        if self.found.is_none() && self.concerns(tags) {
            self.found = Some(Div { tags: tags.to_vec(), what });
        }
    }
    pub fn check(&mut self, tags: &[&'static str], ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.fail(tags, what());
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, tags: &[&'static str], what: &str, expected: &T, got: &T) {
        if expected != got {
            self.fail(tags, format!("{what}: expected {expected:?}, the code gave {got:?}"));
        }
    }
}

/// run something that may panic; a panic is a revert on chain
pub fn guarded<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}
