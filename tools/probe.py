#!/usr/bin/env python3
"""probe.py: which Rust idioms does the proof layer still take? One idiom per function of the core crate, one run."""
import os, re, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '''String::from("a").to_lowercase()
String::from("a").to_ascii_lowercase()
"a".to_string().to_uppercase()
String::from("a").starts_with("a")
"ab".ends_with("b")
String::from("a").contains("a")
String::from("a").contains('/')
"a,b".split(',').count()
"a,b".split(',').last().map(|x| x.to_string())
"a".trim().to_string()
"a/b".rsplit_once('/').is_some()
"a/b".split_once('/').is_some()
"a".strip_prefix("a").is_some()
"a".replace("a", "b")
"abc".chars().count()
"abc".chars().next()
"abc".chars().rev().collect::<String>()
"abc".len() > 2
"abc".bytes().next()
"abc".as_bytes()[0]
"abc".eq_ignore_ascii_case("ABC")
"abc"[..1].to_string()
vec![1u64, 2].contains(&1)
vec![1u64, 2].iter().any(|x| *x == 1)
{ let mut v = vec![2u64, 1]; v.sort(); v.dedup(); v }
{ let mut v = vec![2u64, 1]; v.sort_unstable(); v.truncate(1); v }
{ let mut v = vec![2u64, 1]; v.swap(0, 1); v }
{ let mut v = vec![2u64, 1]; v.pop(); v }
{ let mut v = vec![2u64, 1]; v.insert(0, 3); v }
{ let mut v = vec![2u64, 1]; v.remove(0); v }
{ let mut v = vec![2u64, 1]; v.sort_by(|a, b| b.cmp(a)); v }
{ let mut v = vec![2u64, 1]; v.sort_by_key(|a| *a); v }
{ let mut v = vec![2u64, 1]; v.dedup_by_key(|a| *a); v }
{ let mut v = vec![2u64, 1]; v.extend(vec![1u64]); v }
{ let mut v = vec![2u64, 1]; v.append(&mut vec![1u64]); v }
vec![1u64, 2].windows(2).all(|w| w[0] < w[1])
vec![1u64, 2].iter().max().copied()
vec![1u64, 2].iter().min().copied()
vec![1u64, 2].iter().max_by_key(|x| **x).copied()
vec![1u64, 2].iter().take_while(|x| **x < 2).count()
vec![1u64, 2].iter().skip_while(|x| **x < 2).count()
vec![1u64, 2].iter().find_map(|x| if *x > 1 { Some(*x) } else { None })
vec![1u64, 2].iter().step_by(2).count()
vec![1u64, 2].iter().partition::<Vec<u64>, _>(|x| **x > 1).0
vec![1u64, 2].iter().sum::<u64>()
vec![1u64, 2].iter().product::<u64>()
vec![1u64, 2].chunks(2).count()
vec![1u64, 2].is_empty()
vec![1u64, 2].get(0).is_some()
vec![1u64, 2].first().cloned()
vec![1u64, 2].split_first().is_some()
vec![1u64, 2].binary_search(&1).is_ok()
vec![1u64, 2].concat_check()
vec![1u64, 2].into_iter().rev().skip(1).collect::<Vec<_>>()
vec![1u64, 2].into_iter().collect::<std::collections::BTreeSet<_>>().len()
vec![1u64, 2].into_iter().collect::<std::collections::HashSet<_>>().len()
vec![(1u64, 2u64)].into_iter().collect::<std::collections::BTreeMap<_, _>>().len()
vec![(1u64, 2u64)].into_iter().collect::<std::collections::HashMap<_, _>>().len()
{ let mut s = std::collections::BTreeSet::new(); s.insert(1u64) }
{ let mut s = std::collections::HashSet::new(); s.insert("a".to_string()) }
{ let mut s = std::collections::BTreeMap::new(); s.insert(1u64, 2u64); s.get(&1).copied() }
{ let mut s = std::collections::BTreeMap::new(); *s.entry(1u64).or_insert(0u64) += 1; s.len() }
Some(1u64).filter(|x| *x > 0)
Some(1u64).or(Some(2)).is_some()
Some(1u64).or_else(|| Some(2)).is_some()
Some(1u64).map_or(false, |x| x > 0)
Some(1u64).map_or_else(|| 1, |x| x)
Some(1u64).is_some_and(|x| x > 0)
Some(1u64).xor(None)
Some(1u64).zip(Some(2u64)).is_some()
{ let mut o = Some(1u64); o.take() }
{ let mut o = Some(1u64); o.replace(2) }
matches!(Some(1u64), Some(x) if x > 0)
Ok::<u64, u64>(1).unwrap_or(2)
Ok::<u64, u64>(1).is_ok()
Ok::<u64, u64>(1).ok().is_some()
5u64.pow(2)
5u64.checked_pow(2)
5u64.wrapping_sub(6)
5u64.wrapping_add(6)
5u64.saturating_mul(6)
5u64.abs_diff(6)
5u64.min(6).max(3)
5u64.clamp(1, 3)
5u64.is_power_of_two()
5u64.rem_euclid(2)
5u64 % 3 == 1 && 5u64 & 1 == 1
(5u64 << 2) >> 1
5u64 as u32 as u128
u64::MAX - 1
u64::try_from(5u128).is_ok()
u64::from(5u32)
(0..5u64).map(|x| x + 1).collect::<Vec<_>>()
(1..=5u64).rev().sum::<u64>()
std::cmp::min(1u64, 2)
std::cmp::max(1u64, 2)
std::mem::take(&mut vec![1u64])
format!("{}-{}", 1u64, "a")
Uint128::new(5).saturating_sub(Uint128::new(6))
Uint128::new(5).checked_rem(Uint128::new(6)).is_ok()
Uint128::new(5).min(Uint128::new(6))
std::cmp::max(Uint128::new(5), Uint128::new(6))
Uint128::new(5).u128() / 1_000_000
Uint128::new(5).wrapping_sub(Uint128::new(6))
Uint128::new(5).saturating_add(Uint128::new(6))
Uint128::new(5).abs_diff(Uint128::new(6))
Uint128::new(5).checked_div(Uint128::new(6)).is_ok()
Uint128::new(5).pow(2)
Uint128::new(5).multiply_ratio(1u128, 2u128)
Uint128::new(5).checked_multiply_ratio(1u128, 2u128).is_ok()
Uint128::new(5).mul_floor(Decimal::percent(5))
Uint128::new(5) * Decimal::percent(5)
Uint128::new(5) + Uint128::one() - Uint128::MAX
Uint128::from(5u64).is_zero()
Uint128::MAX
vec![Uint128::new(5)].iter().sum::<Uint128>()
Decimal::percent(5).floor()
Decimal::percent(5).ceil()
Decimal::percent(5).to_uint_floor()
Decimal::percent(5).to_uint_ceil()
Decimal::percent(5).min(Decimal::one())
Decimal::percent(5).saturating_sub(Decimal::one())
Decimal::percent(5).checked_pow(2).is_ok()
Decimal::percent(5).sqrt()
Decimal::percent(5).atomics().u128()
Decimal::percent(5).checked_add(Decimal::one()).is_ok()
Decimal::percent(5).abs_diff(Decimal::one())
Decimal::from_ratio(1u128, 2u128).inv().is_some()
Decimal::from_atomics(1u128, 18).is_ok()
Decimal::raw(5) / Decimal::one()
Decimal::percent(5) > Decimal::zero()
Decimal::bps(5)
env.block.time.plus_seconds(5).seconds()
env.block.time.minus_seconds(5).nanos()
env.block.height % 2 == 0
Addr::unchecked("a").to_string()
Addr::unchecked("a").as_str().len()
Addr::unchecked("a").into_string()
info.funds.len() > 1
info.funds.iter().map(|x| x.amount).sum::<Uint128>()
{ let mut t = 0u64; let mut i = 0u64; while i < 3 { t += i; i += 1; } t }
{ let mut t = 0u64; for i in 0..3u64 { if i == 1 { continue; } t += i; } t }
{ let mut t = 0u64; for x in vec![1u64, 2].iter() { t += x; } t }
{ let mut t = 0u64; for x in [1u64, 2] { t += x; } t }
{ let mut t = 0u64; for (i, x) in vec![1u64, 2].iter().enumerate() { t += i as u64 + x; if t > 5 { break; } } t }
{ let mut t = 0u64; loop { t += 1; if t > 3 { break; } } t }
{ let mut v = vec![1u64, 2]; for x in v.iter_mut() { *x += 1; } v }
{ let mut v = vec![1u64, 2]; v[0] = 3; v }
{ let f = |x: u64| x + 1; f(1) }
{ let (a, b) = if true { (1u64, 2u64) } else { (2, 1) }; a + b }
{ let v = [1u64, 2, 3]; v[0] + v[1] }
{ struct T { a: u64 } T { a: 1 }.a }
{ fn twice(x: u64) -> u64 { x * 2 } twice(2) }
{ const K: u64 = 5; K }'''.split('\n')
def main():
    unit = 'core'
    s = [x for x in S if 'concat_check' not in x]
    if len(sys.argv) > 1: s = [x for x in s if re.search(sys.argv[1], x)]
    d = tempfile.mkdtemp(prefix='probe_')
    subprocess.run(f'cd /repo && git archive HEAD | tar x -C {d}', shell=True, check=True)
    # three idioms' worth of new private functions per file would not be under contract: use one function copy each
    f = d + '/contracts/core/src/execute/token.rs'
    t = open(f).read()
    out = ''
    for k, x in enumerate(s):
        out += f'''
pub fn probe_{k}(env: &cosmwasm_std::Env, info: &cosmwasm_std::MessageInfo) -> u64 {{
    let _ = (env, info);
    let _p = {x};
    7
}}
'''
    t = t.replace('#[cfg(test)]', out + '\n#[cfg(test)]', 1)
    t = t.replace('use cosmwasm_std::{', 'use cosmwasm_std::{Decimal, ', 1)
    open(f, 'w').write(t)
    spec = V + '/verus/specs/core_exec.vspec'
    # contract for every probe function, in a scratch copy of /verif's machinery
    v = tempfile.mkdtemp(prefix='probev_')
    subprocess.run(f'cp -a {V}/verus {V}/vlib {v}/', shell=True, check=True)
    sp = open(v + '/verus/specs/core_exec.vspec').read()
    head = '\n@@ crate ibcx_core\n@@ file execute/token.rs\n' + ''.join(f'@@ fn probe_{k}(env, info) -> r\n@ens[C01] r == 7\n\n' for k in range(len(s)))
    open(v + '/verus/specs/core_exec.vspec', 'a').write(head)
    code = f'''
import os, sys, json
os.environ["VX_REPO"] = {d!r}
sys.path.insert(0, {v + '/vlib'!r})
import vrun
r = vrun.run_unit("core", {d!r} + "/vx", False, None)
S = {s!r}
print("fatal", r["fatal"])
bad = dict()
for k, why in r["degraded"].items():
    n = k.split("::probe_")
    if len(n) == 2: bad[int(n[1])] = why
    else: print("other", k, why[:150])
fails = [f for f in r["fails"] if f["fn"] and "probe_" in f["fn"]]
m = r["map"]["fns"]
seen = [k for k in m if "probe_" in k]
print(len(seen), "of", len(S), "seen;", len(bad), "degraded;", len(fails), "failing;", len(r["limits"]), "limits")
for k, w in sorted(bad.items()): print("DEGRADED", S[k], "|", w[:170].replace(chr(10), " "))
for f in fails: print("FAIL", f)
for f in r["limits"]: print("LIMIT", f)
'''
    subprocess.run([sys.executable, '-c', code])
    print(d, v)
    if not os.environ.get('KEEP'):
        shutil.rmtree(d); shutil.rmtree(v)
main()
