//! ibcx-airdrop: random histories against an exact twin (own sha256 / ripemd160 / bech32, scripted signature check)
use crate::util::*;
use crate::world::Coins;
use crate::world::*;
use cosmwasm_std::*;
use ibcx_airdrop::contract as c;
use ibcx_interface::airdrop::*;
use ibcx_interface::types::RangeOrder;
use serde_json::Value;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- chain api with a scripted signature scheme
/// Signatures are checked by the chain; here sig = sha256("sig"|pub|hash) twice, malformed input is an error as on chain.
#[derive(Clone, Copy)]
pub struct FApi;
pub fn sign(hash: &[u8], key: &[u8]) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"sig");
    h.update(key);
    h.update(hash);
    let x = h.finalize().to_vec();
    [x.clone(), x].concat()
}
pub fn sig_check(hash: &[u8], sig: &[u8], key: &[u8]) -> Result<bool, VerificationError> {
    if hash.len() != 32 {
        return Err(VerificationError::InvalidHashFormat);
    }
    if sig.len() != 64 {
        return Err(VerificationError::InvalidSignatureFormat);
    }
    if key.len() != 33 && key.len() != 65 {
        return Err(VerificationError::InvalidPubkeyFormat);
    }
    Ok(sig == sign(hash, key).as_slice())
}
impl Api for FApi {
    fn addr_validate(&self, h: &str) -> StdResult<Addr> { api().addr_validate(h) }
    fn addr_canonicalize(&self, h: &str) -> StdResult<CanonicalAddr> { api().addr_canonicalize(h) }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> { api().addr_humanize(c) }
    fn secp256k1_verify(&self, hash: &[u8], sig: &[u8], key: &[u8]) -> Result<bool, VerificationError> { sig_check(hash, sig, key) }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> { unimplemented!() }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unimplemented!() }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> { unimplemented!() }
    fn debug(&self, _: &str) {}
}

pub fn sha(b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(b);
    h.finalize().into()
}
fn addr_of(key: &[u8]) -> String {
    use ripemd::Ripemd160;
    let mut r = Ripemd160::new();
    ripemd::Digest::update(&mut r, sha(key));
    let h: [u8; 20] = ripemd::Digest::finalize(r).into();
    use bech32::ToBase32;
    bech32::encode("osmo", h.to_base32(), bech32::Variant::Bech32).unwrap()
}
fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    sha(&[&x[..], &y[..]].concat())
}
fn unhex32(s: &str) -> Option<[u8; 32]> {
    hex::decode(s).ok()?.try_into().ok()
}
/// the merkle rule of the property
fn proof_ok(root: &str, proof: &[String], key: &str, amount: u128) -> bool {
    let mut h = sha(format!("{key}:{amount}").as_bytes());
    for p in proof {
        match unhex32(p) {
            Some(x) => h = pair(&h, &x),
            None => return false,
        }
    }
    unhex32(root) == Some(h)
}

// ---------------------------------------------------------------- twin
#[derive(Clone, Debug, PartialEq)]
pub struct Air {
    pub signer: Option<(String, Vec<u8>)>,
    pub creator: String,
    pub denom: String,
    pub total: u128,
    pub claimed: u128,
    pub root: String,
    pub label: Option<String>,
    pub created: u64,
    pub closed: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct St {
    pub latest: u64,
    pub air: BTreeMap<u64, Air>,
    pub labels: BTreeMap<String, u64>,
    pub claims: BTreeMap<(u64, String), u128>,
}
fn ju(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).or(v.as_u64().map(|x| x as u128)).expect("number")
}
fn air_of(v: &Value) -> Air {
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    Air {
        signer: (k == "bearer").then(|| (x["signer"].as_str().unwrap().to_string(), Binary::from_base64(x["signer_pub"].as_str().unwrap()).unwrap().0)),
        creator: x["creator"].as_str().unwrap().into(),
        denom: x["denom"].as_str().unwrap().into(),
        total: ju(&x["total_amount"]),
        claimed: ju(&x["total_claimed"]),
        root: x["merkle_root"].as_str().unwrap().into(),
        label: x["label"].as_str().map(|s| s.into()),
        created: x["created_at"].as_u64().unwrap(),
        closed: x["closed_at"].as_u64(),
    }
}
fn ns(n: &str) -> Vec<u8> {
    let mut v = (n.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(n.as_bytes());
    v
}
fn load(m: &Mem) -> St {
    let mut s = St { latest: jget(m, "latest_airdrop").expect("latest"), ..Default::default() };
    let (pa, pl, pc) = (ns("airdrops"), ns("labels"), ns("claim_logs"));
    for (k, v) in m.0.iter() {
        if k.starts_with(&pa) {
            s.air.insert(u64::from_be_bytes(k[pa.len()..].try_into().unwrap()), air_of(&serde_json::from_slice(v).unwrap()));
        } else if k.starts_with(&pl) {
            s.labels.insert(String::from_utf8(k[pl.len()..].to_vec()).unwrap(), serde_json::from_slice(v).unwrap());
        } else if k.starts_with(&pc) {
            let r = &k[pc.len() + 2..];
            s.claims.insert((u64::from_be_bytes(r[..8].try_into().unwrap()), String::from_utf8(r[8..].to_vec()).unwrap()), ju(&serde_json::from_slice(v).unwrap()));
        }
    }
    s
}

#[derive(Clone, Debug)]
enum Op {
    Reg { bearer: Option<(Vec<u8>, String, String)>, root: String, denom: String, label: Option<String> },
    Fund(AirdropId),
    Claim { id: AirdropId, amount: u128, account: Option<String>, hash: Option<(String, String)>, proof: Vec<String> },
    Close(AirdropId),
}
fn payload(op: &Op) -> Option<ClaimPayload> {
    match op {
        Op::Claim { id, amount, account, hash, proof } => Some(match hash {
            None => ClaimPayload::Open { airdrop: id.clone(), amount: (*amount).into(), account: account.clone(), merkle_proof: proof.clone() },
            Some((h, s)) => ClaimPayload::Bearer {
                airdrop: id.clone(), amount: (*amount).into(), account: account.clone(), claim_hash: h.clone(), claim_sign: s.clone(), merkle_proof: proof.clone(),
            },
        }),
        _ => None,
    }
}
fn msg(op: &Op) -> ExecuteMsg {
    match op {
        Op::Reg { bearer: None, root, denom, label } => ExecuteMsg::Register(RegisterPayload::Open { merkle_root: root.clone(), denom: denom.clone(), label: label.clone() }),
        Op::Reg { bearer: Some((_, p, s)), root, denom, label } => ExecuteMsg::Register(RegisterPayload::Bearer {
            merkle_root: root.clone(), denom: denom.clone(), signer_pub: p.clone(), signer_sig: s.clone(), label: label.clone(),
        }),
        Op::Fund(i) => ExecuteMsg::Fund(i.clone()),
        Op::Close(i) => ExecuteMsg::Close(i.clone()),
        Op::Claim { .. } => ExecuteMsg::Claim(payload(op).unwrap()),
    }
}
type T = Vec<&'static str>;
/// what the properties demand of one operation: the new state and the sends, or a refusal with the properties that demand it
fn expect(s: &St, op: &Op, who: &str, funds: &Coins, height: u64) -> Result<(St, Vec<(String, String, u128)>), (T, String)> {
    let mut n = s.clone();
    let no = |t: &[&'static str], w: &str| Err((t.to_vec(), w.to_string()));
    let find = |i: &AirdropId| -> Option<u64> {
        let id = match i {
            AirdropId::Id(x) => *x,
            AirdropId::Label(l) => *s.labels.get(l)?,
        };
        s.air.contains_key(&id).then_some(id)
    };
    let paid = |d: &str| -> Option<u128> { (funds.len() == 1 && funds[0].0 == d && funds[0].1 > 0).then(|| funds[0].1) };
    match op {
        Op::Reg { bearer, root, denom, label } => {
            if unhex32(root).is_none() { return no(&["A05"], "merkle root is not 32 bytes"); }
            let signer = match bearer {
                None => None,
                Some((_, p, sg)) => {
                    let (Ok(p), Ok(sg)) = (hex::decode(p), hex::decode(sg)) else { return no(&["A05"], "malformed key or signature") };
                    let a = addr_of(&p);
                    match sig_check(&sha(a.as_bytes()), &sg, &p) {
                        Ok(true) => {}
                        _ => return no(&["A05"], "signature over the signer's address missing"),
                    }
                    if !addr_ok(&a) { return no(&[], "signer address"); }
                    Some((a, p))
                }
            };
            let Some(total) = paid(denom) else { return no(&["A05"], "payment is not a positive amount of the named denom") };
            let l = label.as_ref().map(|x| format!("{who}/{x}"));
            if let Some(l) = &l {
                if s.labels.contains_key(l) { return no(&["A05"], "label taken"); }
                n.labels.insert(l.clone(), s.latest);
            }
            n.air.insert(s.latest, Air { signer, creator: who.into(), denom: denom.clone(), total, claimed: 0, root: root.clone(), label: l, created: height, closed: None });
            n.latest = s.latest + 1;
            Ok((n, vec![]))
        }
        Op::Fund(i) | Op::Close(i) => {
            let Some(id) = find(i) else { return no(&["A04"], "no such airdrop") };
            let a = n.air.get_mut(&id).unwrap();
            if a.creator != who { return no(&["A04"], "not the creator"); }
            if a.closed.is_some() { return no(&["A01", "A04"], "closed"); }
            if let Op::Fund(_) = op {
                let Some(p) = paid(&a.denom) else { return no(&["A04"], "payment is not a positive amount of the airdrop's denom") };
                a.total = match a.total.checked_add(p) { Some(x) => x, None => return no(&["A04", "A01"], "total too large") };
                Ok((n, vec![]))
            } else {
                a.closed = Some(height);
                let r = vec![(a.creator.clone(), a.denom.clone(), a.total - a.claimed)];
                Ok((n, r))
            }
        }
        Op::Claim { id, amount, account, hash, proof } => {
            let to = match account {
                Some(x) if !addr_ok(x) => return no(&[], "bad account"),
                Some(x) => x.clone(),
                None => who.to_string(),
            };
            let Some(id) = find(id) else { return no(&["A03"], "no such airdrop") };
            let a = n.air.get_mut(&id).unwrap();
            if a.signer.is_some() != hash.is_some() { return no(&["A03"], "wrong kind of claim"); }
            if a.closed.is_some() { return no(&["A01"], "closed"); }
            let key = hash.as_ref().map(|h| h.0.clone()).unwrap_or(to.clone());
            if s.claims.contains_key(&(id, key.clone())) { return no(&["A02"], "already claimed"); }
            if !proof_ok(&a.root, proof, &key, *amount) { return no(&["A03"], "proof does not lead to the root"); }
            if let (Some((h, sg)), Some((_, p))) = (hash, &a.signer) {
                let d = sha(format!("{h}/{to}/{amount}").as_bytes());
                match hex::decode(sg) {
                    Ok(sg) if sig_check(&d, &sg, p) == Ok(true) => {}
                    _ => return no(&["A03"], "the signer's signature is missing"),
                }
            }
            a.claimed = match a.claimed.checked_add(*amount) { Some(x) if x <= a.total => x, _ => return no(&["A01"], "more than the funds left") };
            let r = vec![(to, a.denom.clone(), *amount)];
            n.claims.insert((id, key), *amount);
            Ok((n, r))
        }
    }
}

// ---------------------------------------------------------------- exploration
struct Leafs { root: String, leaves: Vec<(String, u128, Vec<String>)> }
fn tree(leaves: Vec<(String, u128)>) -> Leafs {
    let mut lvl: Vec<([u8; 32], Vec<usize>)> = leaves.iter().enumerate().map(|(i, (k, a))| (sha(format!("{k}:{a}").as_bytes()), vec![i])).collect();
    let mut pr: Vec<Vec<String>> = vec![vec![]; leaves.len()];
    while lvl.len() > 1 {
        let mut nx = vec![];
        for c in lvl.chunks(2) {
            if c.len() == 1 { nx.push(c[0].clone()); continue; }
            for i in &c[0].1 { pr[*i].push(hex::encode(c[1].0)); }
            for i in &c[1].1 { pr[*i].push(hex::encode(c[0].0)); }
            nx.push((pair(&c[0].0, &c[1].0), [c[0].1.clone(), c[1].1.clone()].concat()));
        }
        lvl = nx;
    }
    Leafs { root: hex::encode(lvl[0].0), leaves: leaves.into_iter().zip(pr).map(|((k, a), p)| (k, a, p)).collect() }
}
const WHO: [&str; 5] = ["alice1", "bobby2", "carol3", "alice", "osmo1abcdefghij"];
const HASHES: [&str; 12] = ["2d711642b726b04401627ca9fbac32f5c8530fb1903cc4db02258717921a4881", "2d711642b726b04401627ca9fbac32f5c8530fb1903cc4db02258717921a4880", "h1", "h2", "H1", "ab12CD", "AB12cd", "", "alice1", "salt:7", "h1/alice1", "a-much-longer-claim-hash-0123456789abcdef0123456789abcdef0123456789abcdef"];
const DEN: [&str; 6] = ["uosmo", "uatom", "uosmo2", "UOSMO", "ibc/27AB", "ibc/27ab"];
const CALLERS: [&str; 8] = ["alice1", "bobby2", "carol3", "alice", "osmo1abcdefghij", "ALICE1", "cosmos2contract", "Bobby2"];
/// a claim key: a known one, or one that is easily confused with it
fn some_key(r: &mut Rng, known: &[String]) -> String {
    let b = if known.is_empty() || r.chance(1, 2) { r.pick(&HASHES).to_string() } else { r.pick(known).clone() };
    if r.chance(1, 3) { variant(r, &b) } else { b }
}
fn q<R: serde::de::DeserializeOwned>(m: &Mem, h: u64, msg: QueryMsg) -> Result<R, String> {
    let qq = Q::default();
    let a = FApi;
    let mut e = env_at(1_700_000_000);
    e.block.height = h;
    let b = guarded(|| c::query(Deps { storage: m, api: &a, querier: QuerierWrapper::new(&qq) }, e, msg))?;
    from_json(b).map_err(|e| e.to_string())
}
fn resp_of(id: u64, a: &Air) -> Value {
    let mut v = serde_json::json!({"id": id, "creator": a.creator, "denom": a.denom, "total_amount": a.total.to_string(), "total_claimed": a.claimed.to_string(),
        "merkle_root": a.root, "label": a.label, "created_at": a.created, "closed_at": a.closed});
    if let Some((s, p)) = &a.signer {
        v["signer"] = s.clone().into();
        v["signer_pub"] = hex::encode(p).into();
        serde_json::json!({"bearer": v})
    } else {
        serde_json::json!({"open": v})
    }
}
fn jv<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}
/// checks one paginated listing against the entries that should be enumerated, key by key
pub fn page_want<K: Ord + Clone, V: Clone>(all: &BTreeMap<K, V>, after: &Option<K>, limit: Option<u32>, asc: bool) -> Option<Vec<(K, V)>> {
    let l = limit.unwrap_or(10);
    if l > 30 { return None; }
    let mut v: Vec<(K, V)> = all.iter().filter(|(k, _)| match after { None => true, Some(a) if asc => *k > a, Some(a) => *k < a }).map(|(k, v)| (k.clone(), v.clone())).collect();
    if !asc { v.reverse(); }
    v.truncate(l as usize);
    Some(v)
}
fn ord(asc: bool, r: &mut Rng) -> Option<RangeOrder> {
    if asc { if r.chance(1, 2) { None } else { Some(RangeOrder::Asc) } } else { Some(RangeOrder::Desc) }
}
pub fn lim(r: &mut Rng) -> Option<u32> {
    match r.below(8) { 0 | 1 => None, 2 => Some(30), 3 => Some(31), 4 => Some(0), 5 => Some(1), 6 => Some(r.below(40) as u32), _ => Some(*r.pick(&[2u32, 3, 29, u32::MAX, 256, 65536, 65546, 1 << 31])) }
}
fn listing(cx: &mut Ctx, what: &str, want: Option<Vec<Value>>, got: Result<Vec<Value>, String>) {
    match (want, got) {
        (None, Ok(_)) => cx.fail(&["L01"], format!("{what}: a limit above 30 was not refused")),
        (Some(w), Ok(g)) => {
            if w.len() != g.len() || w != g {
                let tags: &[&'static str] = if w.len() == g.len() && { let (mut a, mut b): (Vec<String>, Vec<String>) = (w.iter().map(|x| x.to_string()).collect(), g.iter().map(|x| x.to_string()).collect()); a.sort(); b.sort(); a == b } { &["L01"] } else { &["L01", "A06"] };
                cx.fail(tags, format!("{what}: expected {w:?}, got {g:?}"));
            }
        }
        (Some(_), Err(e)) => cx.fail(&["L01"], format!("{what}: failed: {e}")),
        (None, Err(_)) => {}
    }
}
pub fn listings(cx: &mut Ctx, m: &Mem, s: &St, h: u64) {
    let mut r = cx.rng.clone();
    cx.rng.next();
    let (l, asc) = (lim(&mut r), r.chance(1, 2));
    let airs: BTreeMap<u64, Value> = s.air.iter().map(|(k, a)| (*k, resp_of(*k, a))).collect();
    let cur = |r: &mut Rng| if r.chance(1, 3) { None } else { Some((s.latest + 2).saturating_sub(r.below(s.air.len() as u64 + 3))) };
    let scur = |r: &mut Rng, ks: Vec<String>| match r.below(8) {
        0 | 1 => None,
        2 => Some("m".to_string()),
        3 => Some(String::new()),
        _ if ks.is_empty() => Some("a/".to_string()),
        4 => { let k = r.pick(&ks).clone(); Some(if r.chance(1, 2) { variant(r, &k) } else { let n = k.chars().count(); k.chars().take(r.below(n as u64 + 1) as usize).collect() }) }
        _ => Some(r.pick(&ks).clone()),
    };
    let list = |o: ListAirdropsQueryOptions| q::<ListAirdropsResponse>(m, h, QueryMsg::ListAirdrops { option: o }).map(|x| x.0.iter().map(jv).collect::<Vec<_>>());
    let vs = |v: Option<Vec<(u64, Value)>>| v.map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>());
    cx.kind("listing");
    match r.below(6) {
        0 => {
            let a = cur(&mut r);
            let got = list(ListAirdropsQueryOptions::ByID { start_after: a, limit: l, order: ord(asc, &mut r) });
            listing(cx, &format!("airdrops by id after {a:?} limit {l:?} asc {asc}"), vs(page_want(&airs, &a, l, asc)), got);
        }
        1 => {
            let a = cur(&mut r);
            let b = r.chance(1, 2);
            let f: BTreeMap<u64, Value> = airs.iter().filter(|(k, _)| s.air[k].signer.is_some() == b).map(|(k, v)| (*k, v.clone())).collect();
            let got = list(ListAirdropsQueryOptions::ByType { typ: if b { AirdropType::Bearer } else { AirdropType::Open }, start_after: a, limit: l, order: ord(asc, &mut r) });
            listing(cx, &format!("airdrops by type bearer={b} after {a:?} limit {l:?} asc {asc}"), vs(page_want(&f, &a, l, asc)), got);
        }
        2 => {
            let a = cur(&mut r);
            let who = r.pick(&WHO).to_string();
            let f: BTreeMap<u64, Value> = airs.iter().filter(|(k, _)| s.air[k].creator == who).map(|(k, v)| (*k, v.clone())).collect();
            let got = list(ListAirdropsQueryOptions::ByCreator { creator: who.clone(), start_after: a, limit: l, order: ord(asc, &mut r) });
            listing(cx, &format!("airdrops of {who} after {a:?} limit {l:?} asc {asc}"), vs(page_want(&f, &a, l, asc)), got);
        }
        3 => {
            let a = scur(&mut r, s.labels.keys().cloned().collect());
            let f: BTreeMap<String, Value> = s.labels.iter().map(|(k, i)| (k.clone(), airs[i].clone())).collect();
            let got = list(ListAirdropsQueryOptions::ByLabel { start_after: a.clone(), limit: l, order: ord(asc, &mut r) });
            listing(cx, &format!("airdrops by label after {a:?} limit {l:?} asc {asc}"), page_want(&f, &a, l, asc).map(|v| v.into_iter().map(|x| x.1).collect()), got);
        }
        4 => {
            let a = scur(&mut r, s.labels.keys().cloned().collect());
            let f: BTreeMap<String, Value> = s.labels.iter().map(|(k, i)| (k.clone(), label_resp(k, *i))).collect();
            let got = q::<ListLabelsResponse>(m, h, QueryMsg::ListLabels { start_after: a.clone(), limit: l, order: ord(asc, &mut r) }).map(|x| x.0.iter().map(jv).collect());
            listing(cx, &format!("labels after {a:?} limit {l:?} asc {asc}"), page_want(&f, &a, l, asc).map(|v| v.into_iter().map(|x| x.1).collect()), got);
        }
        _ => {
            if s.air.is_empty() { return; }
            let ids: Vec<u64> = s.air.keys().copied().collect();
            let id = *r.pick(&ids);
            let f: BTreeMap<String, Value> = s.claims.iter().filter(|((i, _), _)| *i == id).map(|((i, k), v)| (k.clone(), serde_json::json!({"id": i, "amount": v.to_string(), "claim_key": k}))).collect();
            let a = scur(&mut r, f.keys().cloned().collect());
            let by = match &s.air[&id].label { Some(x) if r.chance(1, 2) => AirdropId::Label(x.clone()), _ => AirdropId::Id(id) };
            let got = q::<ListClaimsResponse>(m, h, QueryMsg::ListClaims { airdrop: by, start_after: a.clone(), limit: l, order: ord(asc, &mut r) }).map(|x| x.0.iter().map(jv).collect());
            listing(cx, &format!("claims of {id} after {a:?} limit {l:?} asc {asc}"), page_want(&f, &a, l, asc).map(|v| v.into_iter().map(|x| x.1).collect()), got);
        }
    }
}
fn label_resp(full: &str, id: u64) -> Value {
    let (c, l) = full.split_once('/').unwrap();
    serde_json::json!({"creator": c, "label": l, "airdrop_id": id})
}
fn lookups(cx: &mut Ctx, m: &Mem, s: &St, h: u64) {
    cx.kind("lookup");
    let t = &["A06"][..];
    match q::<LatestAirdropResponse>(m, h, QueryMsg::LatestAirdropId {}) {
        Ok(v) => cx.eq(&["A06", "A05"], "latest id", &s.latest, &v.0),
        Err(e) => cx.fail(t, format!("latest id: {e}")),
    }
    for (id, a) in s.air.iter() {
        let mut by = vec![AirdropId::Id(*id)];
        if let Some(l) = &a.label { by.push(AirdropId::Label(l.clone())); }
        for b in by {
            match q::<GetAirdropResponse>(m, h, QueryMsg::GetAirdrop { id: b.clone() }) {
                Ok(v) => cx.eq(&["A06", "A05"], &format!("get airdrop {b:?}"), &resp_of(*id, a), &jv(&v)),
                Err(e) => cx.fail(t, format!("get airdrop {b:?}: {e}")),
            }
        }
    }
    for (l, id) in s.labels.iter() {
        match q::<GetLabelResponse>(m, h, QueryMsg::GetLabel { label: l.clone() }) {
            Ok(v) => cx.eq(&["A06", "A05"], &format!("get label {l}"), &label_resp(l, *id), &jv(&v)),
            Err(e) => cx.fail(t, format!("get label {l}: {e}")),
        }
    }
    for ((id, k), v) in s.claims.iter() {
        match q::<GetClaimResponse>(m, h, QueryMsg::GetClaim { airdrop: AirdropId::Id(*id), claim_key: k.clone() }) {
            Ok(g) => cx.eq(&["A06", "A02"], &format!("get claim {id} {k}"), &(*id, *v, k.clone()), &(g.id, g.amount.u128(), g.claim_key)),
            Err(e) => cx.fail(t, format!("get claim {id} {k}: {e}")),
        }
    }
    // neighbours of stored keys and labels name nothing
    let mut r = cx.rng.clone();
    cx.rng.next();
    if !s.claims.is_empty() {
        let ks: Vec<&(u64, String)> = s.claims.keys().collect();
        let (id, k) = (*r.pick(&ks)).clone();
        let v = variant(&mut r, &k);
        let i = if r.chance(1, 3) { id + 1 } else { id };
        let got = q::<GetClaimResponse>(m, h, QueryMsg::GetClaim { airdrop: AirdropId::Id(i), claim_key: v.clone() }).ok().map(|x| x.amount.u128());
        cx.eq(&["A06", "A02"], &format!("claim {i} {v:?}"), &s.claims.get(&(i, v.clone())).copied(), &got);
    }
    if !s.labels.is_empty() {
        let ks: Vec<&String> = s.labels.keys().collect();
        let v = match r.below(4) { 0 => s.labels.values().next().unwrap().to_string(), _ => { let l = (*r.pick(&ks)).clone(); variant(&mut r, &l) } };
        let got = q::<GetLabelResponse>(m, h, QueryMsg::GetLabel { label: v.clone() }).ok().map(|x| x.airdrop_id);
        cx.eq(&["A06", "A05"], &format!("label {v:?}"), &s.labels.get(&v).copied(), &got);
        let got = q::<GetAirdropResponse>(m, h, QueryMsg::GetAirdrop { id: AirdropId::Label(v.clone()) }).is_ok();
        cx.eq(&["A06", "A05"], &format!("airdrop labelled {v:?}"), &s.labels.contains_key(&v), &got);
    }
    let r: Result<GetAirdropResponse, _> = q(m, h, QueryMsg::GetAirdrop { id: AirdropId::Id(s.latest) });
    cx.check(t, r.is_err(), || "an unknown id is found".into());
}

pub fn trace(cx: &mut Ctx) { run(cx, false) }
pub fn trace_lists(cx: &mut Ctx) { run(cx, true) }
fn run(cx: &mut Ctx, lists: bool) {
    let qq = Q::default();
    let fa = FApi;
    let mut m = Mem::default();
    let mut h = 100u64;
    let mk = |h: u64| { let mut e = env_at(1_700_000_000); e.block.height = h; e };
    guarded(|| c::instantiate(DepsMut { storage: &mut m, api: &fa, querier: QuerierWrapper::new(&qq) }, mk(h), info("gov", &[]), InstantiateMsg {})).expect("instantiate");
    let mut s = load(&m);
    cx.eq(&["A05"], "first id", &0u64, &s.latest);
    // sometimes as if many airdrops had been registered (and are not looked at) before
    let first = if lists || cx.rng.chance(4, 5) { 0u64 } else { *cx.rng.pick(&[9u64, 255, 256, 65_535, u32::MAX as u64, 1 << 53]) };
    if first > 0 {
        Storage::set(&mut m, b"latest_airdrop", &serde_json::to_vec(&first).unwrap());
        s = load(&m);
    }
    let keys: Vec<Vec<u8>> = (0..3u8).map(|i| { let mut k = vec![2 + i % 2]; k.extend_from_slice(&sha(&[i])); k }).collect();
    let mut trees: BTreeMap<u64, Leafs> = BTreeMap::new();
    // per airdrop money in and out, by our own books
    let mut book: BTreeMap<u64, (u128, u128)> = BTreeMap::new();
    let steps = if lists { 45 } else { 6 + cx.rng.below(30) };
    for _ in 0..steps {
        if cx.done() { return; }
        h += cx.rng.below(3);
        let mut r = Rng::new(cx.rng.next());
        let who = { let odd = r.chance(1, 3); r.pick(if odd { &CALLERS[..] } else { &WHO[..] }).to_string() };
        let id_of = |r: &mut Rng, s: &St| -> AirdropId {
            if s.air.is_empty() || r.chance(1, 12) { return if r.chance(1, 2) { AirdropId::Id(s.latest + r.below(2)) } else { AirdropId::Label("nobody/x".into()) }; }
            let i = first + r.below(s.latest - first);
            if r.chance(1, 25) { if let Some(l) = s.air.get(&i).and_then(|a| a.label.clone()) { return AirdropId::Label(variant(r, &l)); } }
            if r.chance(1, 16) { return AirdropId::Label(match r.below(4) { 0 => format!("{i} "), 1 => format!("+{i}"), _ => i.to_string() }); }
            match s.air.get(&i).and_then(|a| a.label.clone()) { Some(l) if r.chance(1, 2) => AirdropId::Label(l), _ => AirdropId::Id(i) }
        };
        let kind = if lists { if r.chance(1, 2) { 0 } else { 4 } } else if s.air.is_empty() { 0 } else { r.below(12) };
        let mut new_tree = None;
        let (op, funds, who) = match kind {
            0 | 1 => {
                let bearer = r.chance(1, 2);
                let n = if r.chance(1, 20) { 40 } else { 1 + r.below(6) as usize };
                let mut lv: Vec<(String, u128)> = vec![];
                for _ in 0..n {
                    let before: Vec<String> = lv.iter().map(|x| x.0.clone()).collect();
                    let k = if bearer == r.chance(9, 10) { some_key(&mut r, &before) } else { r.pick(&CALLERS).to_string() };
                    let a = match r.below(24) { 0 => 0, 1 | 2 => 1, 3 => u128::MAX - r.below(2) as u128, 4..=6 => r.mag(20), 7 | 8 => r.mag(37), 9..=11 => 100, _ => r.below(100) as u128 };
                    lv.push((k, a));
                }
                // the same recipients and amounts as another airdrop
                if !trees.is_empty() && r.chance(1, 4) {
                    let ts: Vec<&Leafs> = trees.values().collect();
                    lv = r.pick(&ts).leaves.iter().map(|x| (x.0.clone(), x.1)).collect();
                }
                let sum: u128 = lv.iter().map(|x| x.1).fold(0, |a, b| a.saturating_add(b));
                let t = tree(lv);
                let root = match r.below(14) { 0 => t.root[2..].to_string(), 1 => t.root.to_uppercase(), 2 => format!("{}00", t.root), 3 => "zz".repeat(32), 4 => { let mut x = hex::decode(&t.root).unwrap(); let i = *r.pick(&[0usize, 1, 15, 30, 31, 31]); x[i] ^= 1 << r.below(8); hex::encode(x) } _ => t.root.clone() };
                let denom = r.pick(&DEN).to_string();
                let total = match r.below(10) { 0 => (sum / 2).max(1), 1 => 1, 2 => 150, 3 => r.mag(36).max(1), 4 => sum.saturating_sub(1).max(1), 5 => sum.saturating_add(1), _ => sum.max(1) };
                let funds = match r.below(14) { 0 => vec![], 1 => vec![(denom.clone(), 0)], 2 => vec![(if r.chance(1, 2) { "ufoo".into() } else { variant(&mut r, &denom) }, total)], 3 => vec![(denom.clone(), total), ("ufoo".into(), 1)], _ => vec![(denom.clone(), total)] };
                let label = if r.chance(1, 3) { None } else { Some(match r.below(8) { 5 => "Drop".to_string(), 6 => "drop ".into(), 7 => { let l = s.labels.keys().next().map(|x| x.split_once('/').unwrap().1.to_string()).unwrap_or_default(); variant(&mut r, &l) } 0 => "x".to_string(), 1 => "a/b".into(), 2 => "".into(), 3 => format!("L{}", r.below(50)), _ => "drop".into() }) };
                let b = bearer.then(|| {
                    let k = r.pick(&keys).clone();
                    let a = addr_of(&k);
                    let good = sign(&sha(a.as_bytes()), &k);
                    let sg = match r.below(8) { 0 => sign(&sha(who.as_bytes()), &k), 1 => sign(&sha(a.as_bytes()), &keys[0]), 2 => good[..63].to_vec(), 3 => { let mut g = good.clone(); g[5] ^= 1; g } _ => good };
                    let kx = match r.below(12) { 0 => k[..32].to_vec(), _ => k.clone() };
                    (k, if r.chance(1, 15) { "0x12".into() } else { hex::encode(kx) }, if r.chance(1, 15) { "xyz".into() } else { hex::encode(sg) })
                });
                new_tree = Some(t);
                (Op::Reg { bearer: b, root, denom, label }, funds, who)
            }
            2 | 3 => {
                let id = id_of(&mut r, &s);
                let ai = match &id { AirdropId::Id(i) => s.air.get(i), AirdropId::Label(l) => s.labels.get(l).and_then(|i| s.air.get(i)) };
                let who = match ai { Some(a) if r.chance(4, 5) => a.creator.clone(), Some(a) if a.signer.is_some() && r.chance(1, 2) => a.signer.clone().unwrap().0, Some(a) if r.chance(1, 2) => variant(&mut r, &a.creator), _ => who };
                if r.chance(1, 4) {
                    (Op::Close(id), vec![], who)
                } else {
                    let d = match ai { Some(a) if r.chance(4, 5) => a.denom.clone(), Some(a) if r.chance(1, 2) => variant(&mut r, &a.denom), _ => r.pick(&DEN).to_string() };
                    let a = match r.below(6) { 0 => 0, 1 => u128::MAX, _ => r.mag(20) };
                    let f = match r.below(8) { 0 => vec![], 1 => vec![(d.clone(), a), ("ufoo".into(), 2)], _ => vec![(d, a)] };
                    (Op::Fund(id), f, who)
                }
            }
            _ => {
                let id = id_of(&mut r, &s);
                let n = match &id { AirdropId::Id(i) => *i, AirdropId::Label(l) => s.labels.get(l).copied().unwrap_or(0) };
                let src = if r.chance(1, 10) && !s.air.is_empty() { first + r.below(s.latest - first) } else { n };
                let Some(t) = trees.get(&src) else { continue };
                let (k, a, p) = r.pick(&t.leaves).clone();
                let bearer = s.air.get(&n).map_or(false, |x| x.signer.is_some()) != r.chance(1, 15);
                let mut proof = p;
                match r.below(24) {
                    0 => { proof.pop(); }
                    1 => proof.push(hex::encode(sha(b"x"))),
                    2 if !proof.is_empty() => { let i = r.below(proof.len() as u64) as usize; proof[i] = hex::encode(sha(b"y")); }
                    3 if !proof.is_empty() => { proof[0] = proof[0].to_uppercase(); }
                    4 if !proof.is_empty() => { proof[0].truncate(62); }
                    5 if proof.len() > 1 => proof.swap(0, 1),
                    6 | 7 => {
                        let root = s.air.get(&n).map_or(String::new(), |x| x.root.clone());
                        let node = proof.first().cloned().unwrap_or_default();
                        let odd = match r.below(8) { 0 | 1 => String::new(), 2 => format!("0x{node}"), 3 => "0".repeat(64), 4 => format!("{node}00"), 5 => root, 6 => "zz".repeat(32), _ => node };
                        if r.chance(1, 2) { let i = r.below(proof.len() as u64 + 1) as usize; proof.insert(i, odd); } else { proof = vec![odd; 1 + r.below(2) as usize]; }
                    }
                    _ => {}
                }
                let amount = match r.below(16) { 0 => a.wrapping_add(1), 1 => 0, _ => a };
                let known: Vec<String> = t.leaves.iter().map(|x| x.0.clone()).chain(s.claims.keys().map(|x| x.1.clone())).collect();
                let key = if r.chance(1, 10) { some_key(&mut r, &known) } else { k };
                let caller = if r.chance(1, 2) && addr_ok(&key) { key.clone() } else { who };
                let account = match r.below(6) { 0 => None, 1 => Some(r.pick(&WHO).to_string()), 2 if r.chance(1, 6) => Some("No".into()), _ if !bearer => Some(key.clone()), 3 | 4 => Some(r.pick(&WHO).to_string()), _ => None };
                let to = account.clone().unwrap_or(caller.clone());
                let hash = bearer.then(|| {
                    let sk = s.air.get(&n).and_then(|x| x.signer.clone()).map(|x| x.1).unwrap_or(keys[0].clone());
                    let dig = |h: &str, t: &str, a: u128| sha(format!("{h}/{t}/{a}").as_bytes());
                    let sg = match r.below(12) {
                        0 => sign(&dig(&key, "mallory", amount), &sk),
                        1 => sign(&dig("h9", &to, amount), &sk),
                        2 => sign(&dig(&key, &to, amount.wrapping_add(1)), &sk),
                        3 => sign(&dig(&key, &to, amount), &keys[1]),
                        4 => sign(&dig(&key, &to, amount), &sk)[..40].to_vec(),
                        _ => sign(&dig(&key, &to, amount), &sk),
                    };
                    (key.clone(), if r.chance(1, 25) { "q".into() } else { hex::encode(sg) })
                });
                (Op::Claim { id, amount, account, hash, proof }, vec![], caller)
            }
        };
        cx.op(format!("height {h} {who}: {op:?} funds {funds:?}"));
        // what the verification query says before
        let verify = match &op {
            Op::Claim { account: Some(_), .. } => Some(q::<VerifyClaimResponse>(&m, h, QueryMsg::VerifyClaim { claim: payload(&op).unwrap() })),
            _ => None,
        };
        let want = expect(&s, &op, &who, &funds, h);
        let mut m2 = m.clone();
        let got = guarded(|| c::execute(DepsMut { storage: &mut m2, api: &fa, querier: QuerierWrapper::new(&qq) }, mk(h), info(&who, &funds), msg(&op)));
        let k0 = match &op { Op::Reg { bearer: None, .. } => "register open", Op::Reg { .. } => "register bearer", Op::Fund(_) => "fund", Op::Close(_) => "close", Op::Claim { hash: None, .. } => "claim open", Op::Claim { .. } => "claim bearer" };
        cx.kind(&format!("{} {k0}", if got.is_ok() { "accepted" } else { "refused" }));
        if let (Some(v), Op::Claim { id, amount, account: Some(acc), hash, proof }) = (&verify, &op) {
            // proof and signature acceptable right now, earlier claims and balance aside
            let id = match id { AirdropId::Id(i) => Some(*i), AirdropId::Label(l) => s.labels.get(l).copied() };
            let ok = match id.and_then(|i| s.air.get(&i)) {
                Some(a) => a.closed.is_none() && a.signer.is_some() == hash.is_some()
                    && proof_ok(&a.root, proof, hash.as_ref().map_or(acc.as_str(), |x| x.0.as_str()), *amount)
                    && match (hash, &a.signer) {
                        (Some((hh, sg)), Some((_, p))) => hex::decode(sg).map_or(false, |sg| sig_check(&sha(format!("{hh}/{acc}/{amount}").as_bytes()), &sg, p) == Ok(true)),
                        _ => true,
                    },
                None => false,
            };
            let said = matches!(v, Ok(r) if r.valid);
            cx.check(&["A06"], said == ok, || format!("verify claim says {v:?}, the claim's proof and signature are {}", if ok { "acceptable" } else { "not acceptable" }));
        }
        match (want, got) {
            (Err((t, w)), Ok(_)) => cx.fail(&t, format!("{k0} accepted although: {w}")),
            (Ok(_), Err(e)) => {
                let mut t: T = vec![];
                if let Op::Claim { hash, account, .. } = &op {
                    if matches!(&verify, Some(Ok(v)) if v.valid) { t.push("A06"); }
                    let key = hash.as_ref().map(|h| h.0.clone()).unwrap_or(account.clone().unwrap_or(who.clone()));
                    if s.claims.keys().any(|(_, k)| *k == key) { t.push("A02"); }
                    t.push("A03");
                } else if matches!(op, Op::Reg { .. }) { t.push("A05"); } else { t.push("A04"); if matches!(op, Op::Close(_)) { t.push("A01"); } }
                cx.fail(&t, format!("{k0} refused ({e}) although nothing speaks against it"));
            }
            (Err(_), Err(_)) => {}
            (Ok((n, pay)), Ok(resp)) => {
                let got_net = net(&msgs(&resp));
                let mut exp_net = Net::default();
                for (to, d, a) in &pay { if *a > 0 { *exp_net.sends.entry((to.clone(), d.clone())).or_insert(0) += a; } }
                let ptag: &[&'static str] = match &op { Op::Claim { .. } => &["A01", "A02"], Op::Close(_) => &["A01", "A04"], Op::Reg { .. } => &["A05", "A01"], _ => &["A04", "A01"] };
                cx.eq(ptag, &format!("money sent by {k0}"), &exp_net, &got_net);
                m = m2;
                let now = load(&m);
                cx.eq(&["A05"], "next id", &n.latest, &now.latest);
                cx.eq(&["A05", "A04"], "labels", &n.labels, &now.labels);
                cx.eq(&["A02", "A04"], "claim records", &n.claims, &now.claims);
                for (i, a) in &n.air {
                    match now.air.get(i) {
                        None => cx.fail(&["A04", "A05"], format!("airdrop {i} is gone")),
                        Some(b) => {
                            let fresh = !s.air.contains_key(i);
                            if fresh { cx.eq(&["A05", if matches!(op, Op::Reg { .. }) { "A05" } else { "A04" }], &format!("new airdrop {i}"), a, b); }
                            else {
                                cx.eq(&["A01", "A04"], &format!("total of {i}"), &a.total, &b.total);
                                cx.eq(&["A01", "A04"], &format!("claimed of {i}"), &a.claimed, &b.claimed);
                                cx.eq(&["A01", "A04"], &format!("closing of {i}"), &a.closed, &b.closed);
                                cx.eq(&["A04"], &format!("fixed data of {i}"), a, b);
                            }
                        }
                    }
                }
                cx.check(&["A04", "A05"], now.air.len() == n.air.len(), || "number of airdrops".into());
                // our own books
                match &op {
                    Op::Reg { .. } => { book.insert(s.latest, (funds[0].1, 0)); trees.insert(s.latest, new_tree.take().unwrap()); }
                    Op::Fund(id) | Op::Close(id) | Op::Claim { id, .. } => {
                        let i = match id { AirdropId::Id(i) => *i, AirdropId::Label(l) => s.labels[l] };
                        let e = book.entry(i).or_insert((0, 0));
                        if matches!(op, Op::Fund(_)) { e.0 = e.0.saturating_add(funds.iter().map(|x| x.1).sum::<u128>()); }
                        for ((_, d), a) in &got_net.sends { if *d == now.air[&i].denom { e.1 = e.1.saturating_add(*a); } }
                        let e = *e;
                        cx.check(&["A01"], e.1 <= e.0, || format!("airdrop {i} received {} and paid out {}", e.0, e.1));
                        if matches!(op, Op::Close(_)) { cx.check(&["A01"], e.1 == e.0, || format!("airdrop {i} closed: received {}, paid out {}", e.0, e.1)); }
                    }
                }
                s = now;
            }
        }
        if r.chance(1, 3) && !cx.done() { lookups(cx, &m, &s, h); }
        if r.chance(1, 2) { listings(cx, &m, &s, h); }
    }
    if lists {
        for _ in 0..20 { if cx.done() { return; } listings(cx, &m, &s, h); }
        walk(cx, &m, &s, h);
    }
}
/// following the cursor to the end enumerates every airdrop and label exactly once
fn walk(cx: &mut Ctx, m: &Mem, s: &St, h: u64) {
    let lm = 1 + cx.rng.below(12) as u32;
    for asc in [true, false] {
        let o = || Some(if asc { RangeOrder::Asc } else { RangeOrder::Desc });
        let (mut seen, mut cur) = (vec![], None);
        for _ in 0..100 {
            let Ok(p) = q::<ListAirdropsResponse>(m, h, QueryMsg::ListAirdrops { option: ListAirdropsQueryOptions::ByID { start_after: cur, limit: Some(lm), order: o() } }) else { break };
            if p.0.is_empty() { break; }
            for a in &p.0 { let v = jv(a); let x = v.as_object().unwrap().values().next().unwrap()["id"].as_u64().unwrap(); seen.push(x); cur = Some(x); }
        }
        let mut want: Vec<u64> = s.air.keys().copied().collect();
        if !asc { want.reverse(); }
        cx.eq(&["L01"], "airdrops enumerated by following the cursor", &want, &seen);
        let (mut seen, mut cur) = (vec![], None::<String>);
        for _ in 0..100 {
            let Ok(p) = q::<ListLabelsResponse>(m, h, QueryMsg::ListLabels { start_after: cur.clone(), limit: Some(lm), order: o() }) else { break };
            if p.0.is_empty() { break; }
            for a in &p.0 { let x = format!("{}/{}", a.creator, a.label); seen.push(x.clone()); cur = Some(x); }
        }
        let mut want: Vec<String> = s.labels.keys().cloned().collect();
        if !asc { want.reverse(); }
        cx.eq(&["L01"], "labels enumerated by following the cursor", &want, &seen);
    }
}
