verus! {
// vocabulary of the airdrop contract's specifications
pub mod cs {
use vstd::prelude::*;
use crate::vx::*;
pub use crate::vocab::*; pub use crate::cry::*; pub use crate::cosmwasm_std::{MessageInfo, Env, Coin, Addr};
use crate::cosmwasm_std::{Uint128, Order};
use crate::ibcx_airdrop::airdrop::*;
use crate::ibcx_interface::airdrop::*;
use crate::ibcx_interface::types::RangeOrder;

pub type St = Map<VKey, Val>;
pub open spec fn n_air() -> Seq<char> { "airdrops"@ }
pub open spec fn n_lab() -> Seq<char> { "labels"@ }
pub open spec fn n_log() -> Seq<char> { "claim_logs"@ }
pub open spec fn k_air(id: u64) -> VKey { VKey::MU(n_air(), id as nat) }
pub open spec fn k_lab(l: Seq<char>) -> VKey { VKey::M1(n_lab(), l) }
pub open spec fn k_log(id: u64, k: Seq<char>) -> VKey { VKey::MUS(n_log(), id as nat, k) }
pub open spec fn k_latest() -> VKey { VKey::Item("latest_airdrop"@) }

// what is recorded about an airdrop
pub ghost struct AV { pub bearer: bool, pub creator: Seq<char>, pub signer: Seq<char>, pub spub: Seq<u8>, pub denom: Seq<char>, pub total: int, pub claimed: int, pub root: Seq<char>, pub label: Option<Seq<char>>, pub created: u64, pub closed: Option<u64> }
pub open spec fn os(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn av(a: Airdrop) -> AV { match a {
    Airdrop::Open(o) => AV { bearer: false, creator: o.creator@, signer: Seq::empty(), spub: Seq::empty(), denom: o.denom@, total: o.total_amount.v as int, claimed: o.total_claimed.v as int, root: o.merkle_root@, label: os(o.label), created: o.created_at, closed: o.closed_at },
    Airdrop::Bearer(o) => AV { bearer: true, creator: o.creator@, signer: o.signer@, spub: o.signer_pub@, denom: o.denom@, total: o.total_amount.v as int, claimed: o.total_claimed.v as int, root: o.merkle_root@, label: os(o.label), created: o.created_at, closed: o.closed_at },
} }
pub open spec fn type_s(a: Airdrop) -> Seq<char> { match a { Airdrop::Open(_) => "open"@, Airdrop::Bearer(_) => "bearer"@ } }
pub open spec fn tstr(t: AirdropType) -> Seq<char> { match t { AirdropType::Open => "open"@, AirdropType::Bearer => "bearer"@ } }
pub open spec fn hasair(st: St, id: u64) -> bool { st.dom().contains(k_air(id)) }
pub open spec fn air(st: St, id: u64) -> AV { av(dec::<Airdrop>(st[k_air(id)])) }
pub open spec fn latest(st: St) -> u64 { dec::<u64>(st[k_latest()]) }
pub open spec fn lab(st: St, l: Seq<char>) -> u64 { dec::<u64>(st[k_lab(l)]) }
pub open spec fn haslab(st: St, l: Seq<char>) -> bool { st.dom().contains(k_lab(l)) }
pub open spec fn haslog(st: St, id: u64, k: Seq<char>) -> bool { st.dom().contains(k_log(id, k)) }
pub open spec fn logged(st: St, id: u64, k: Seq<char>) -> int { dec::<Uint128>(st[k_log(id, k)]).v as int }
// the airdrop an identifier stands for
pub open spec fn names(st: St, a: AirdropId, id: u64) -> bool { match a { AirdropId::Id(i) => i == id, AirdropId::Label(l) => haslab(st, l@) && id == lab(st, l@) } }

// everything but the listed keys is unchanged
pub open spec fn keeps(a: St, b: St, k: VKey) -> bool { a.dom().contains(k) == b.dom().contains(k) && (a.dom().contains(k) ==> a[k] == b[k]) }
pub open spec fn same1(a: St, b: St, x: VKey) -> bool { forall|k: VKey| k != x ==> #[trigger] keeps(a, b, k) }
pub open spec fn same2(a: St, b: St, x: VKey, y: VKey) -> bool { forall|k: VKey| k != x && k != y ==> #[trigger] keeps(a, b, k) }

// ---- Merkle trees of sorted pairs
pub open spec fn sorted_pair(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if bytes_le(a, b) { a + b } else { b + a } }
pub open spec fn hex32(s: Seq<char>) -> bool { unhex(utf8(s)) is Some && (unhex(utf8(s))->0).len() == 32 }
pub open spec fn unhexs(s: Seq<char>) -> Seq<u8> { unhex(utf8(s))->0 }
pub open spec fn fold_proof(h: Seq<u8>, p: Seq<String>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { h } else { sha256(sorted_pair(fold_proof(h, p.drop_last()), unhexs(p.last()@))) } }
pub open spec fn leaf(key: Seq<char>, amount: int) -> Seq<u8> { sha256(utf8(key + ":"@ + int_str(amount))) }
pub open spec fn proof_ok(root: Seq<char>, p: Seq<String>, key: Seq<char>, amount: int) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> hex32(#[trigger] p[i]@)
    &&& hex32(root)
    &&& fold_proof(leaf(key, amount), p) == unhexs(root)
}
// the registered signer signed the claim
pub open spec fn sign_ok(a: AV, hash: Seq<char>, claimer: Seq<char>, amount: int, sign: Seq<char>) -> bool {
    unhex(utf8(sign)) is Some && secp_ok(sha256(utf8(hash + "/"@ + claimer + "/"@ + int_str(amount))), unhexs(sign), a.spub)
}

// ---- operations
pub open spec fn send(to: Seq<char>, denom: Seq<char>, amount: int) -> MsgV { MsgV::Send { to, amount: seq![CoinV { denom, amount }] } }
pub open spec fn paid(i: MessageInfo, denom: Seq<char>) -> bool { i.funds@.len() == 1 && i.funds@[0].denom@ == denom && i.funds@[0].amount.v > 0 }
pub open spec fn pay_amt(i: MessageInfo) -> int { i.funds@[0].amount.v as int }

pub open spec fn fund_in(s0: St, s1: St, i: MessageInfo, id: u64, a: AV, m: Seq<MsgV>) -> bool {
    &&& a.creator == i.sender@ && a.closed is None
    &&& paid(i, a.denom)
    &&& hasair(s1, id) && air(s1, id) == (AV { total: a.total + pay_amt(i), ..a })
    &&& same1(s0, s1, k_air(id))
    &&& m == Seq::<MsgV>::empty()
}
pub open spec fn fund_id(s0: St, s1: St, i: MessageInfo, aid: AirdropId, id: u64, m: Seq<MsgV>) -> bool { names(s0, aid, id) && hasair(s0, id) && fund_in(s0, s1, i, id, air(s0, id), m) }
pub open spec fn fund_post(s0: St, s1: St, i: MessageInfo, aid: AirdropId, m: Seq<MsgV>) -> bool { exists|id: u64| #![trigger fund_id(s0, s1, i, aid, id, m)] #![trigger names(s0, aid, id)] fund_id(s0, s1, i, aid, id, m) }

pub open spec fn close_in(s0: St, s1: St, e: Env, i: MessageInfo, id: u64, a: AV, m: Seq<MsgV>) -> bool {
    &&& a.creator == i.sender@ && a.closed is None
    &&& a.claimed <= a.total
    &&& hasair(s1, id) && air(s1, id) == (AV { closed: Some(e.block.height), ..a })
    &&& same1(s0, s1, k_air(id))
    &&& m == seq![send(a.creator, a.denom, a.total - a.claimed)]
}
pub open spec fn close_id(s0: St, s1: St, e: Env, i: MessageInfo, aid: AirdropId, id: u64, m: Seq<MsgV>) -> bool { names(s0, aid, id) && hasair(s0, id) && close_in(s0, s1, e, i, id, air(s0, id), m) }
pub open spec fn close_post(s0: St, s1: St, e: Env, i: MessageInfo, aid: AirdropId, m: Seq<MsgV>) -> bool { exists|id: u64| #![trigger close_id(s0, s1, e, i, aid, id, m)] #![trigger names(s0, aid, id)] close_id(s0, s1, e, i, aid, id, m) }

// a claim of `amount` under `key`, paid to `claimer`
pub open spec fn pays_claim(s0: St, s1: St, id: u64, key: Seq<char>, claimer: Seq<char>, amount: int, m: Seq<MsgV>) -> bool {
    let a = air(s0, id);
    &&& hasair(s0, id) && a.closed is None && !haslog(s0, id, key)
    &&& a.claimed + amount <= a.total
    &&& hasair(s1, id) && air(s1, id) == (AV { claimed: a.claimed + amount, ..a })
    &&& haslog(s1, id, key) && logged(s1, id, key) == amount
    &&& same2(s0, s1, k_air(id), k_log(id, key))
    &&& m == seq![send(claimer, a.denom, amount)]
}
// what a claim leaves as it was: the airdrop's identity, funding and closing, and every other record
pub open spec fn claim_keeps(s0: St, s1: St, id: u64, key: Seq<char>) -> bool {
    hasair(s1, id) && air(s1, id) == (AV { claimed: air(s1, id).claimed, ..air(s0, id) }) && same2(s0, s1, k_air(id), k_log(id, key))
}
pub open spec fn open_id(s0: St, s1: St, aid: AirdropId, id: u64, amount: int, claimer: Seq<char>, proof: Seq<String>, m: Seq<MsgV>) -> bool {
    names(s0, aid, id) && pays_claim(s0, s1, id, claimer, claimer, amount, m) && !air(s0, id).bearer && proof_ok(air(s0, id).root, proof, claimer, amount)
}
pub open spec fn bearer_id(s0: St, s1: St, aid: AirdropId, id: u64, amount: int, claimer: Seq<char>, hash: Seq<char>, sign: Seq<char>, proof: Seq<String>, m: Seq<MsgV>) -> bool {
    names(s0, aid, id) && pays_claim(s0, s1, id, hash, claimer, amount, m) && air(s0, id).bearer && proof_ok(air(s0, id).root, proof, hash, amount) && sign_ok(air(s0, id), hash, claimer, amount, sign)
}
pub open spec fn claimer_of(i: MessageInfo, account: Option<String>) -> Seq<char> { match account { Some(x) => x@, None => i.sender@ } }
pub open spec fn claim_post(s0: St, s1: St, i: MessageInfo, p: ClaimPayload, m: Seq<MsgV>) -> bool { match p {
    ClaimPayload::Open { airdrop, amount, account, merkle_proof } =>
        (account is Some ==> addr_ok(account->0@)) && exists|id: u64| #![trigger open_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), merkle_proof@, m)] #![trigger names(s0, airdrop, id)] open_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), merkle_proof@, m),
    ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } =>
        (account is Some ==> addr_ok(account->0@)) && exists|id: u64| #![trigger bearer_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m)] #![trigger names(s0, airdrop, id)] bearer_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m),
} }

pub open spec fn full_label(i: MessageInfo, l: Option<String>) -> Option<Seq<char>> { match l { Some(x) => Some(i.sender@ + "/"@ + x@), None => None } }
// a new airdrop `a` at the next free id
pub open spec fn reg_common(s0: St, s1: St, e: Env, i: MessageInfo, a: AV, root: Seq<char>, denom: Seq<char>, label: Option<String>, m: Seq<MsgV>) -> bool {
    let id = latest(s0);
    &&& s0.dom().contains(k_latest()) && s1.dom().contains(k_latest()) && latest(s1) == id + 1
    &&& hex32(root) && paid(i, denom)
    &&& hasair(s1, id) && air(s1, id) == a
    &&& a.creator == i.sender@ && a.denom == denom && a.total == pay_amt(i) && a.claimed == 0 && a.root == root && a.label == full_label(i, label) && a.created == e.block.height && a.closed is None
    &&& (label is Some ==> !haslab(s0, full_label(i, label)->0) && haslab(s1, full_label(i, label)->0) && lab(s1, full_label(i, label)->0) == id)
    &&& forall|k: VKey| k != k_latest() && k != k_air(id) && (label is Some ==> k != k_lab(full_label(i, label)->0)) ==> #[trigger] keeps(s0, s1, k)
    &&& m == Seq::<MsgV>::empty()
}
// address of a public key
pub open spec fn pub_addr(k: Seq<u8>, hrp: Seq<char>) -> Seq<char> { bech32s(hrp, ripemd160(sha256(k)), false) }
pub open spec fn reg_post(s0: St, s1: St, e: Env, i: MessageInfo, p: RegisterPayload, m: Seq<MsgV>) -> bool { match p {
    RegisterPayload::Open { merkle_root, denom, label } => reg_common(s0, s1, e, i, air(s1, latest(s0)), merkle_root@, denom@, label, m) && !air(s1, latest(s0)).bearer,
    RegisterPayload::Bearer { merkle_root, denom, signer_pub, signer_sig, label } => reg_common(s0, s1, e, i, air(s1, latest(s0)), merkle_root@, denom@, label, m) && bearer_reg(air(s1, latest(s0)), signer_pub@, signer_sig@),
} }
pub open spec fn bearer_reg(a: AV, spub: Seq<char>, sig: Seq<char>) -> bool {
    &&& a.bearer && unhex(utf8(spub)) is Some && unhex(utf8(sig)) is Some
    &&& a.spub == unhexs(spub) && a.signer == pub_addr(a.spub, "osmo"@) && addr_ok(a.signer)
    &&& secp_ok(sha256(utf8(a.signer)), unhexs(sig), a.spub)
}
pub open spec fn exec_post(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>) -> bool { match msg {
    ExecuteMsg::Register(p) => reg_post(s0, s1, e, i, p, m),
    ExecuteMsg::Fund(a) => fund_post(s0, s1, i, a, m),
    ExecuteMsg::Claim(p) => claim_post(s0, s1, i, p, m),
    ExecuteMsg::Close(a) => close_post(s0, s1, e, i, a, m),
} }
pub open spec fn inst_post(s0: St, s1: St) -> bool { s1.dom().contains(k_latest()) && latest(s1) == 0 && same2(s0, s1, k_latest(), version_key()) }

// ---- queries
pub open spec fn resp_is(r: GetAirdropResponse, i: u64, a: AV) -> bool { match r {
    GetAirdropResponse::Open { id, creator, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } =>
        !a.bearer && id == i && creator@ == a.creator && denom@ == a.denom && total_amount.v == a.total && total_claimed.v == a.claimed && merkle_root@ == a.root && os(label) == a.label && created_at == a.created && closed_at == a.closed,
    GetAirdropResponse::Bearer { id, creator, signer, signer_pub, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } =>
        a.bearer && id == i && creator@ == a.creator && signer@ == a.signer && signer_pub@ == hexs(a.spub) && denom@ == a.denom && total_amount.v == a.total && total_claimed.v == a.claimed && merkle_root@ == a.root && os(label) == a.label && created_at == a.created && closed_at == a.closed,
} }
pub open spec fn air_q(st: St, aid: AirdropId, id: u64, r: GetAirdropResponse) -> bool { names(st, aid, id) && hasair(st, id) && resp_is(r, id, air(st, id)) }
pub open spec fn claim_q(st: St, aid: AirdropId, id: u64, key: Seq<char>, r: GetClaimResponse) -> bool { names(st, aid, id) && hasair(st, id) && haslog(st, id, key) && r.id == id && r.claim_key@ == key && r.amount.v == logged(st, id, key) }
// "<creator>/<label>"
pub open spec fn lab_parts(l: Seq<char>, c: Seq<char>, rest: Seq<char>) -> bool { if l.contains('/') { !c.contains('/') && l == c + seq!['/'] + rest } else { c == l && rest == Seq::<char>::empty() } }
pub open spec fn lab_is(st: St, l: Seq<char>, r: GetLabelResponse) -> bool { haslab(st, l) && r.airdrop_id == lab(st, l) && lab_parts(l, r.creator@, r.label@) }
// what a claim would be judged by at this moment
pub open spec fn ver_open(st: St, aid: AirdropId, id: u64, account: Option<String>, amount: int, proof: Seq<String>, valid: bool) -> bool {
    names(st, aid, id) && hasair(st, id) && !air(st, id).bearer && if air(st, id).closed is Some { !valid } else { account is Some && valid == proof_ok(air(st, id).root, proof, account->0@, amount) } }
pub open spec fn ver_bearer(st: St, aid: AirdropId, id: u64, account: Option<String>, hash: Seq<char>, sign: Seq<char>, amount: int, proof: Seq<String>, valid: bool) -> bool {
    names(st, aid, id) && hasair(st, id) && air(st, id).bearer && account is Some && valid == (air(st, id).closed is None && proof_ok(air(st, id).root, proof, hash, amount) && sign_ok(air(st, id), hash, account->0@, amount, sign)) }
pub open spec fn verify_post(st: St, p: ClaimPayload, r: VerifyClaimResponse) -> bool { match p {
    ClaimPayload::Open { airdrop, amount, account, merkle_proof } => exists|id: u64| #![trigger ver_open(st, airdrop, id, account, amount.v as int, merkle_proof@, r.valid)] #![trigger names(st, airdrop, id)] ver_open(st, airdrop, id, account, amount.v as int, merkle_proof@, r.valid),
    ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => exists|id: u64| #![trigger ver_bearer(st, airdrop, id, account, claim_hash@, claim_sign@, amount.v as int, merkle_proof@, r.valid)] #![trigger names(st, airdrop, id)] ver_bearer(st, airdrop, id, account, claim_hash@, claim_sign@, amount.v as int, merkle_proof@, r.valid),
} }

// ---- listings
pub open spec fn asc_of(o: Option<RangeOrder>) -> bool { o is None || o->0 is Asc }
pub open spec fn ord_of(asc: bool) -> Order { if asc { Order::Ascending } else { Order::Descending } }
pub open spec fn lim_of(l: Option<u32>) -> int { match l { Some(x) => x as int, None => 10 } }
pub open spec fn slo(s: Option<String>, asc: bool) -> Option<(Seq<char>, bool)> { if asc && s is Some { Some((s->0@, true)) } else { None } }
pub open spec fn shi(s: Option<String>, asc: bool) -> Option<(Seq<char>, bool)> { if !asc && s is Some { Some((s->0@, true)) } else { None } }
pub open spec fn ulo(s: Option<u64>, asc: bool) -> Option<(u64, bool)> { if asc && s is Some { Some((s->0, true)) } else { None } }
pub open spec fn uhi(s: Option<u64>, asc: bool) -> Option<(u64, bool)> { if !asc && s is Some { Some((s->0, true)) } else { None } }
pub open spec fn page_len(l: int, n: int) -> int { if n <= l { n } else { l } }
pub open spec fn f_type(s: Seq<char>) -> spec_fn(Airdrop) -> bool { |a: Airdrop| type_s(a) == s }
pub open spec fn f_creator(s: Seq<char>) -> spec_fn(Airdrop) -> bool { |a: Airdrop| av(a).creator == s }
pub open spec fn shown(st: St, id: u64, r: GetAirdropResponse) -> bool { hasair(st, id) && resp_is(r, id, air(st, id)) }
pub open spec fn page_u(st: St, ks: Seq<u64>, l: Option<u32>, rr: Seq<GetAirdropResponse>) -> bool {
    lim_of(l) <= 30 && rr.len() == page_len(lim_of(l), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> resp_is(#[trigger] rr[i], ks[i], air(st, ks[i])) }
pub open spec fn list_post(st: St, o: ListAirdropsQueryOptions, rr: Seq<GetAirdropResponse>) -> bool { match o {
    ListAirdropsQueryOptions::ByID { start_after, limit, order } => exists|ks: Seq<u64>| #[trigger] listed_u(st, mu_key(n_air()), ulo(start_after, asc_of(order)), uhi(start_after, asc_of(order)), ord_of(asc_of(order)), ks) && page_u(st, ks, limit, rr),
    ListAirdropsQueryOptions::ByType { typ, start_after, limit, order } => exists|ks: Seq<u64>| #[trigger] listed_f(st, n_air(), f_type(tstr(typ)), ulo(start_after, asc_of(order)), uhi(start_after, asc_of(order)), ord_of(asc_of(order)), ks) && page_u(st, ks, limit, rr),
    ListAirdropsQueryOptions::ByCreator { creator, start_after, limit, order } => exists|ks: Seq<u64>| #[trigger] listed_f(st, n_air(), f_creator(creator@), ulo(start_after, asc_of(order)), uhi(start_after, asc_of(order)), ord_of(asc_of(order)), ks) && page_u(st, ks, limit, rr),
    ListAirdropsQueryOptions::ByLabel { start_after, limit, order } => exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, m1_key(n_lab()), slo(start_after, asc_of(order)), shi(start_after, asc_of(order)), ord_of(asc_of(order)), ks)
        && lim_of(limit) <= 30 && rr.len() == page_len(lim_of(limit), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> shown(st, lab(st, ks[i]), #[trigger] rr[i]),
} }
pub open spec fn log_key(id: u64) -> spec_fn(Seq<char>) -> VKey { pk_key(PKey::U(n_log(), id as nat)) }
pub open spec fn claims_of(st: St, aid: AirdropId, id: u64, s: Option<String>, l: Option<u32>, o: Option<RangeOrder>, rr: Seq<GetClaimResponse>) -> bool {
    names(st, aid, id) && hasair(st, id) && exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, log_key(id), slo(s, asc_of(o)), shi(s, asc_of(o)), ord_of(asc_of(o)), ks)
        && lim_of(l) <= 30 && rr.len() == page_len(lim_of(l), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> (#[trigger] rr[i]).id == id && rr[i].claim_key@ == ks[i] && rr[i].amount.v == logged(st, id, ks[i]) }
pub open spec fn labels_post(st: St, s: Option<String>, l: Option<u32>, o: Option<RangeOrder>, rr: Seq<GetLabelResponse>) -> bool {
    exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, m1_key(n_lab()), slo(s, asc_of(o)), shi(s, asc_of(o)), ord_of(asc_of(o)), ks)
        && lim_of(l) <= 30 && rr.len() == page_len(lim_of(l), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> lab_is(st, ks[i], #[trigger] rr[i]) }
pub open spec fn query_post(st: St, msg: QueryMsg, b: Seq<u8>) -> bool { match msg {
    QueryMsg::GetAirdrop { id } => exists|n: u64, r: GetAirdropResponse| #[trigger] air_q(st, id, n, r) && b == json::<GetAirdropResponse>(r),
    QueryMsg::ListAirdrops { option } => exists|r: ListAirdropsResponse| list_post(st, option, r.0@) && b == #[trigger] json::<ListAirdropsResponse>(r),
    QueryMsg::LatestAirdropId {} => st.dom().contains(k_latest()) && b == json::<LatestAirdropResponse>(LatestAirdropResponse(latest(st))),
    QueryMsg::GetClaim { airdrop, claim_key } => exists|n: u64, r: GetClaimResponse| #[trigger] claim_q(st, airdrop, n, claim_key@, r) && b == json::<GetClaimResponse>(r),
    QueryMsg::VerifyClaim { claim } => exists|r: VerifyClaimResponse| verify_post(st, claim, r) && b == #[trigger] json::<VerifyClaimResponse>(r),
    QueryMsg::ListClaims { airdrop, start_after, limit, order } => exists|n: u64, r: ListClaimsResponse| #[trigger] claims_of(st, airdrop, n, start_after, limit, order, r.0@) && b == json::<ListClaimsResponse>(r),
    QueryMsg::GetLabel { label } => exists|r: GetLabelResponse| lab_is(st, label@, r) && b == #[trigger] json::<GetLabelResponse>(r),
    QueryMsg::ListLabels { start_after, limit, order } => exists|r: ListLabelsResponse| labels_post(st, start_after, limit, order, r.0@) && b == #[trigger] json::<ListLabelsResponse>(r),
} }
pub open spec fn migrate_post(s0: St, s1: St, force: Option<bool>, name: Seq<char>, ver: Seq<char>) -> bool {
    &&& stored_version(s1).contract@ == name && stored_version(s1).version@ == ver && s1.dom().contains(version_key())
    &&& same1(s0, s1, version_key())
    &&& (force is None || !force->0 ==> stored_version(s0).contract@ == name && ver_lt(stored_version(s0).version@, ver))
}
pub proof fn lemma_fold(acc: Seq<[u8; 32]>, h: Seq<u8>, p: Seq<String>, n: int)
    requires acc.len() == p.len() + 1, 0 <= n <= p.len(), acc[0]@ == h, forall|i: int| #![trigger acc[i]] 0 <= i < p.len() ==> acc[i + 1]@ == sha256(sorted_pair(acc[i]@, unhexs(p[i]@)))
    ensures acc[n]@ == fold_proof(h, p.take(n)) decreases n
{
    if n > 0 { lemma_fold(acc, h, p, n - 1); assert(p.take(n).drop_last() =~= p.take(n - 1)); assert(p.take(n).last() == p[n - 1]); assert(acc[n - 1 + 1]@ == sha256(sorted_pair(acc[n - 1]@, unhexs(p[n - 1]@)))); }
    else { assert(p.take(0).len() == 0); }
}
// a filter that says the same about every airdrop lists the same
pub proof fn lemma_listed_f(st: St, t: Seq<char>, lo: Option<(u64, bool)>, hi: Option<(u64, bool)>, o: Order)
    ensures forall|f: spec_fn(Airdrop) -> bool, ks: Seq<u64>| (forall|x: Airdrop| #[trigger] f(x) == (type_s(x) == t)) && #[trigger] listed_f(st, n_air(), f, lo, hi, o, ks) ==> listed_f(st, n_air(), f_type(t), lo, hi, o, ks)
{
    assert forall|f: spec_fn(Airdrop) -> bool, ks: Seq<u64>| (forall|x: Airdrop| #[trigger] f(x) == (type_s(x) == t)) && #[trigger] listed_f(st, n_air(), f, lo, hi, o, ks) implies listed_f(st, n_air(), f_type(t), lo, hi, o, ks) by { assert(f =~= f_type(t)); }
}
pub proof fn lemma_listed_c(st: St, t: Seq<char>, lo: Option<(u64, bool)>, hi: Option<(u64, bool)>, o: Order)
    ensures forall|f: spec_fn(Airdrop) -> bool, ks: Seq<u64>| (forall|x: Airdrop| #[trigger] f(x) == (av(x).creator == t)) && #[trigger] listed_f(st, n_air(), f, lo, hi, o, ks) ==> listed_f(st, n_air(), f_creator(t), lo, hi, o, ks)
{
    assert forall|f: spec_fn(Airdrop) -> bool, ks: Seq<u64>| (forall|x: Airdrop| #[trigger] f(x) == (av(x).creator == t)) && #[trigger] listed_f(st, n_air(), f, lo, hi, o, ks) implies listed_f(st, n_air(), f_creator(t), lo, hi, o, ks) by { assert(f =~= f_creator(t)); }
}
pub proof fn lemma_slash() ensures "/"@ =~= seq!['/'] { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
// ---- splitting a label at its first '/'
pub proof fn lemma_split(s: Seq<char>, c: char)
    ensures splitc(s, c).len() >= 1, !splitc(s, c)[0].contains(c),
        !s.contains(c) ==> splitc(s, c) == seq![s],
        s.contains(c) ==> splitc(s, c).len() >= 2 && s == splitc(s, c)[0] + seq![c] + joinc(splitc(s, c).skip(1), seq![c]),
    decreases s.len(), 0int
{
    reveal_with_fuel(joinc, 2);
    if s.len() == 0 { assert(seq![s] =~= splitc(s, c)); } else {
        let t = s.skip(1); let r = splitc(t, c);
        lemma_split(t, c);
        assert(s =~= seq![s[0]] + t);
        if s[0] == c {
            let v = splitc(s, c);
            assert(v =~= seq![Seq::<char>::empty()] + r);
            assert(v.skip(1) =~= r);
            assert(s.contains(c));
            lemma_join(t, c);
            assert(s =~= v[0] + seq![c] + joinc(v.skip(1), seq![c]));
        } else {
            let v = splitc(s, c);
            assert(v =~= r.update(0, seq![s[0]] + r[0]));
            assert(v[0] == seq![s[0]] + r[0]);
            assert(!v[0].contains(c)) by { if v[0].contains(c) { let j = choose|j: int| 0 <= j < v[0].len() && v[0][j] == c; assert(r[0][j - 1] == c); } }
            assert(v.skip(1) =~= r.skip(1));
            if s.contains(c) {
                let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(t[j - 1] == c);
                assert(s =~= v[0] + seq![c] + joinc(v.skip(1), seq![c]));
            } else {
                assert(!t.contains(c)) by { if t.contains(c) { let j = choose|j: int| 0 <= j < t.len() && t[j] == c; assert(s[j + 1] == c); } }
                assert(v =~= seq![s]);
            }
        }
    }
}
pub proof fn lemma_join(s: Seq<char>, c: char) ensures joinc(splitc(s, c), seq![c]) == s decreases s.len(), 1int {
    reveal_with_fuel(joinc, 3);
    lemma_split(s, c);
    let v = splitc(s, c);
    if !s.contains(c) { assert(v.len() == 1); } else { assert(joinc(v, seq![c]) == v[0] + seq![c] + joinc(v.skip(1), seq![c])); }
}
}

// The listed properties as theorems over the contracts of the entry points.
pub mod thm {
use vstd::prelude::*;
use crate::vx::*;
use crate::cs::*;
use crate::ibcx_airdrop::airdrop::*;
use crate::ibcx_interface::airdrop::*;

// ---------- the state the contract keeps
pub open spec fn air_ok(st: St, id: u64) -> bool { hasair(st, id) ==> id < latest(st) && 0 <= air(st, id).claimed <= air(st, id).total }
pub open spec fn lab_ok(st: St, l: Seq<char>) -> bool { haslab(st, l) ==> hasair(st, lab(st, l)) && air(st, lab(st, l)).label == Some(l) }
pub open spec fn log_ok(st: St, id: u64, k: Seq<char>) -> bool { haslog(st, id, k) ==> hasair(st, id) }
pub open spec fn inv(st: St) -> bool {
    &&& st.dom().contains(k_latest())
    &&& forall|id: u64| #[trigger] air_ok(st, id)
    &&& forall|l: Seq<char>| #[trigger] lab_ok(st, l)
    &&& forall|id: u64, k: Seq<char>| #[trigger] log_ok(st, id, k)
}
pub proof fn inv_init(s0: St, s1: St) requires s0 == vstd::map::Map::<VKey, Val>::empty(), inst_post(s0, s1) ensures inv(s1), latest(s1) == 0
{
    crate::ibcx_airdrop::vx_keys();
    assert forall|id: u64| #[trigger] air_ok(s1, id) by { assert(keeps(s0, s1, k_air(id))); }
    assert forall|l: Seq<char>| #[trigger] lab_ok(s1, l) by { assert(keeps(s0, s1, k_lab(l))); }
    assert forall|id: u64, k: Seq<char>| #[trigger] log_ok(s1, id, k) by { assert(keeps(s0, s1, k_log(id, k))); }
}
// what one accepted message may have done
pub ghost enum Op { Reg, Fund(u64), Close(u64), Claim(u64, Seq<char>, Seq<char>, int) }
pub open spec fn op_is(s0: St, s1: St, e: Env, i: MessageInfo, m: Seq<MsgV>, o: Op) -> bool { match o {
    Op::Reg => exists|root: Seq<char>, d: Seq<char>, label: Option<String>| #[trigger] reg_common(s0, s1, e, i, air(s1, latest(s0)), root, d, label, m),
    Op::Fund(id) => hasair(s0, id) && fund_in(s0, s1, i, id, air(s0, id), m),
    Op::Close(id) => hasair(s0, id) && close_in(s0, s1, e, i, id, air(s0, id), m),
    Op::Claim(id, key, to, x) => pays_claim(s0, s1, id, key, to, x, m) && x >= 0,
} }
pub proof fn ops(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>)
    requires exec_post(s0, s1, e, i, msg, m)
    ensures exists|o: Op| #[trigger] op_is(s0, s1, e, i, m, o)
{
    match msg {
        ExecuteMsg::Register(p) => { assert(op_is(s0, s1, e, i, m, Op::Reg)); }
        ExecuteMsg::Fund(a) => { let id = choose|id: u64| #[trigger] fund_id(s0, s1, i, a, id, m); assert(op_is(s0, s1, e, i, m, Op::Fund(id))); }
        ExecuteMsg::Close(a) => { let id = choose|id: u64| #[trigger] close_id(s0, s1, e, i, a, id, m); assert(op_is(s0, s1, e, i, m, Op::Close(id))); }
        ExecuteMsg::Claim(p) => match p {
            ClaimPayload::Open { airdrop, amount, account, merkle_proof } => {
                let c = claimer_of(i, account);
                let id = choose|id: u64| #[trigger] open_id(s0, s1, airdrop, id, amount.v as int, c, merkle_proof@, m);
                assert(op_is(s0, s1, e, i, m, Op::Claim(id, c, c, amount.v as int)));
            }
            ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => {
                let c = claimer_of(i, account);
                let id = choose|id: u64| #[trigger] bearer_id(s0, s1, airdrop, id, amount.v as int, c, claim_hash@, claim_sign@, merkle_proof@, m);
                assert(op_is(s0, s1, e, i, m, Op::Claim(id, claim_hash@, c, amount.v as int)));
            }
        },
    }
}
// every airdrop but the one the operation is about is as before; which one that is
pub open spec fn about(s0: St, o: Op) -> u64 { match o { Op::Reg => latest(s0), Op::Fund(id) => id, Op::Close(id) => id, Op::Claim(id, _, _, _) => id } }
pub proof fn frame(s0: St, s1: St, e: Env, i: MessageInfo, m: Seq<MsgV>, o: Op)
    requires inv(s0), op_is(s0, s1, e, i, m, o)
    ensures
        forall|id: u64| #![trigger hasair(s1, id)] #![trigger hasair(s0, id)] id != about(s0, o) ==> hasair(s0, id) == hasair(s1, id) && (hasair(s0, id) ==> air(s1, id) == air(s0, id)),
        hasair(s1, about(s0, o)), o is Reg == !hasair(s0, about(s0, o)),
        s1.dom().contains(k_latest()), latest(s1) == if o is Reg { latest(s0) + 1 } else { latest(s0) as int },
        forall|l: Seq<char>| #![trigger haslab(s1, l)] #![trigger haslab(s0, l)] haslab(s0, l) ==> haslab(s1, l) && lab(s1, l) == lab(s0, l),
        forall|l: Seq<char>| #![trigger haslab(s1, l)] haslab(s1, l) && !haslab(s0, l) ==> o is Reg && lab(s1, l) == latest(s0) && air(s1, latest(s0)).label == Some(l),
        forall|id: u64, k: Seq<char>| #![trigger haslog(s1, id, k)] #![trigger haslog(s0, id, k)] haslog(s0, id, k) ==> haslog(s1, id, k) && logged(s1, id, k) == logged(s0, id, k),
        forall|id: u64, k: Seq<char>| #![trigger haslog(s1, id, k)] haslog(s1, id, k) && !haslog(s0, id, k) ==> o is Claim && o->Claim_0 == id && o->Claim_1 == k && logged(s1, id, k) == o->Claim_3,
{
    crate::ibcx_airdrop::vx_keys();
    let x = about(s0, o);
    assert(air_ok(s0, x));
    match o { Op::Reg => {
        let (root, d, label) = choose|root: Seq<char>, d: Seq<char>, label: Option<String>| #[trigger] reg_common(s0, s1, e, i, air(s1, latest(s0)), root, d, label, m);
        assert(reg_common(s0, s1, e, i, air(s1, latest(s0)), root, d, label, m));
    } _ => {} }
    assert forall|id: u64| id != x implies keeps(s0, s1, k_air(id)) by {}
    assert forall|id: u64| #![trigger hasair(s1, id)] #![trigger hasair(s0, id)] id != x implies hasair(s0, id) == hasair(s1, id) && (hasair(s0, id) ==> air(s1, id) == air(s0, id)) by { assert(keeps(s0, s1, k_air(id))); }
    assert forall|l: Seq<char>| #![trigger haslab(s1, l)] #![trigger haslab(s0, l)] haslab(s0, l) implies haslab(s1, l) && lab(s1, l) == lab(s0, l) by { assert(keeps(s0, s1, k_lab(l))); }
    assert forall|l: Seq<char>| #![trigger haslab(s1, l)] haslab(s1, l) && !haslab(s0, l) implies o is Reg && lab(s1, l) == latest(s0) && air(s1, latest(s0)).label == Some(l) by { if !(o is Reg) { assert(keeps(s0, s1, k_lab(l))); } else {
        let (root, d, label) = choose|root: Seq<char>, d: Seq<char>, label: Option<String>| #[trigger] reg_common(s0, s1, e, i, air(s1, latest(s0)), root, d, label, m);
        if !(label is Some && full_label(i, label)->0 == l) { assert(keeps(s0, s1, k_lab(l))); }
    } }
    assert forall|id: u64, k: Seq<char>| #![trigger haslog(s1, id, k)] #![trigger haslog(s0, id, k)] haslog(s0, id, k) implies haslog(s1, id, k) && logged(s1, id, k) == logged(s0, id, k) by { assert(keeps(s0, s1, k_log(id, k)) || (o is Claim && o->Claim_0 == id && o->Claim_1 == k)); }
    assert forall|id: u64, k: Seq<char>| #![trigger haslog(s1, id, k)] haslog(s1, id, k) && !haslog(s0, id, k) implies o is Claim && o->Claim_0 == id && o->Claim_1 == k && logged(s1, id, k) == o->Claim_3 by { assert(keeps(s0, s1, k_log(id, k)) || (o is Claim && o->Claim_0 == id && o->Claim_1 == k)); }
    if !(o is Reg) { assert(keeps(s0, s1, k_latest())); }
}
pub proof fn inv_step(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>)
    requires inv(s0), exec_post(s0, s1, e, i, msg, m) ensures inv(s1)
{
    ops(s0, s1, e, i, msg, m);
    let o = choose|o: Op| #[trigger] op_is(s0, s1, e, i, m, o);
    frame(s0, s1, e, i, m, o);
    let x = about(s0, o);
    assert(air_ok(s0, x));
    assert forall|id: u64| #[trigger] air_ok(s1, id) by { assert(air_ok(s0, id)); if id != x { assert(hasair(s0, id) == hasair(s1, id)); } }
    assert forall|l: Seq<char>| #[trigger] lab_ok(s1, l) by { assert(lab_ok(s0, l)); if haslab(s1, l) { let id = lab(s1, l); if haslab(s0, l) { assert(lab(s0, l) == id); assert(hasair(s0, id)); if id != x { assert(air(s1, id) == air(s0, id)); } } } }
    assert forall|id: u64, k: Seq<char>| #[trigger] log_ok(s1, id, k) by { assert(log_ok(s0, id, k)); if haslog(s1, id, k) { if haslog(s0, id, k) { assert(hasair(s0, id)); assert(hasair(s1, id)); } } }
}

// ---------- A01: what is owed to claimants and creators, and the tokens that moved
pub open spec fn esc(a: AV) -> int { if a.closed is None { a.total - a.claimed } else { 0 } }
pub open spec fn esc_at(st: St, d: Seq<char>, id: u64) -> int { if hasair(st, id) && air(st, id).denom == d { esc(air(st, id)) } else { 0 } }
pub open spec fn owed(st: St, d: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { owed(st, d, n - 1) + esc_at(st, d, (n - 1) as u64) } }
pub proof fn l_owed(s0: St, s1: St, d: Seq<char>, x: u64, n: int)
    requires 0 <= n <= u64::MAX, forall|id: u64| id != x ==> #[trigger] esc_at(s1, d, id) == esc_at(s0, d, id)
    ensures owed(s1, d, n) == owed(s0, d, n) + if x < n { esc_at(s1, d, x) - esc_at(s0, d, x) } else { 0 } decreases n
{ if n > 0 { l_owed(s0, s1, d, x, n - 1); assert(((n - 1) as u64) as int == n - 1); if (n - 1) as u64 != x { assert(esc_at(s1, d, (n - 1) as u64) == esc_at(s0, d, (n - 1) as u64)); } } }
pub open spec fn cin(c: CoinV, d: Seq<char>) -> int { if c.denom == d { c.amount } else { 0 } }
pub open spec fn csum(s: Seq<CoinV>, d: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { csum(s.drop_last(), d) + cin(s.last(), d) } }
pub proof fn l_csum1(c: CoinV, d: Seq<char>) ensures csum(seq![c], d) == cin(c, d) { assert(seq![c].drop_last() =~= Seq::<CoinV>::empty()); assert(csum(Seq::<CoinV>::empty(), d) == 0); }
pub proof fn l_csum_nonneg(s: Seq<Coin>, d: Seq<char>) ensures csum(coinsv(s), d) >= 0 decreases s.len() { if s.len() > 0 { l_csum_nonneg(s.drop_last(), d); assert(coinsv(s).drop_last() =~= coinsv(s.drop_last())); } }
pub open spec fn sent(m: Seq<MsgV>, d: Seq<char>) -> int decreases m.len() { if m.len() == 0 { 0 } else { sent(m.drop_last(), d) + match m.last() { MsgV::Send { to: _, amount } => csum(amount, d), _ => 0 } } }
pub proof fn l_sent1(to: Seq<char>, dn: Seq<char>, x: int, d: Seq<char>) ensures sent(seq![send(to, dn, x)], d) == if dn == d { x } else { 0 }
{ let q = seq![send(to, dn, x)]; assert(q.drop_last() =~= Seq::<MsgV>::empty()); assert(sent(Seq::<MsgV>::empty(), d) == 0); l_csum1(CoinV { denom: dn, amount: x }, d); }
pub proof fn a01(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>, d: Seq<char>)
    requires inv(s0), exec_post(s0, s1, e, i, msg, m)
    ensures owed(s1, d, latest(s1) as int) - owed(s0, d, latest(s0) as int) <= csum(coinsv(i.funds@), d) - sent(m, d),
        (msg is Register || msg is Fund) ==> owed(s1, d, latest(s1) as int) - owed(s0, d, latest(s0) as int) == csum(coinsv(i.funds@), d),
        forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] is Send, m.len() <= 1,
{
    ops(s0, s1, e, i, msg, m);
    match msg {
        ExecuteMsg::Register(p) => { }
        ExecuteMsg::Fund(a) => { let id = choose|id: u64| #[trigger] fund_id(s0, s1, i, a, id, m); assert(op_is(s0, s1, e, i, m, Op::Fund(id))); }
        _ => {}
    }
    let o = if msg is Register { Op::Reg } else { choose|o: Op| #[trigger] op_is(s0, s1, e, i, m, o) && (msg is Fund ==> o is Fund) };
    frame(s0, s1, e, i, m, o);
    let x = about(s0, o);
    assert(air_ok(s0, x));
    l_csum_nonneg(i.funds@, d);
    assert forall|id: u64| id != x implies #[trigger] esc_at(s1, d, id) == esc_at(s0, d, id) by { assert(hasair(s0, id) == hasair(s1, id)); }
    assert(sent(Seq::<MsgV>::empty(), d) == 0);
    match o {
        Op::Reg => {
            let (root, dn, label) = choose|root: Seq<char>, dn: Seq<char>, label: Option<String>| #[trigger] reg_common(s0, s1, e, i, air(s1, latest(s0)), root, dn, label, m);
            assert(x < latest(s1));
            l_owed(s0, s1, d, x, latest(s0) as int);
            assert((latest(s1) - 1) as u64 == x);
            assert(coinsv(i.funds@) =~= seq![i.funds@[0]@]); l_csum1(i.funds@[0]@, d);
        }
        Op::Fund(id) => { l_owed(s0, s1, d, x, latest(s0) as int); assert(coinsv(i.funds@) =~= seq![i.funds@[0]@]); l_csum1(i.funds@[0]@, d); }
        Op::Close(id) => { l_owed(s0, s1, d, x, latest(s0) as int); let a = air(s0, id); l_sent1(a.creator, a.denom, a.total - a.claimed, d); }
        Op::Claim(id, k, to, y) => { l_owed(s0, s1, d, x, latest(s0) as int); l_sent1(to, air(s0, id).denom, y, d); }
    }
}
pub proof fn a01_init(s0: St, s1: St, d: Seq<char>) requires s0 == vstd::map::Map::<VKey, Val>::empty(), inst_post(s0, s1) ensures owed(s1, d, latest(s1) as int) == 0 { crate::ibcx_airdrop::vx_keys(); }
// nobody is ever left without cover: what an open airdrop still owes is never negative
pub proof fn a01_solvent(s: St, d: Seq<char>, n: int) requires inv(s), 0 <= n <= u64::MAX ensures owed(s, d, n) >= 0 decreases n
{ if n > 0 { a01_solvent(s, d, n - 1); assert(air_ok(s, (n - 1) as u64)); } }

// ---------- A02: each key is paid once per airdrop, ever
pub proof fn a02(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>, id: u64, key: Seq<char>)
    requires inv(s0), exec_post(s0, s1, e, i, msg, m)
    ensures
        haslog(s0, id, key) ==> haslog(s1, id, key) && logged(s1, id, key) == logged(s0, id, key),
        haslog(s1, id, key) && !haslog(s0, id, key) ==> msg is Claim && m.len() == 1 && m[0] is Send && m[0]->Send_amount == seq![CoinV { denom: air(s0, id).denom, amount: logged(s1, id, key) }],
        hasair(s0, id) && hasair(s1, id) && air(s1, id).claimed != air(s0, id).claimed ==> exists|k: Seq<char>| !#[trigger] haslog(s0, id, k) && haslog(s1, id, k) && air(s1, id).claimed - air(s0, id).claimed == logged(s1, id, k),
{
    ops(s0, s1, e, i, msg, m);
    let o = match msg {
        ExecuteMsg::Register(p) => Op::Reg,
        ExecuteMsg::Fund(a) => { let n = choose|n: u64| #[trigger] fund_id(s0, s1, i, a, n, m); Op::Fund(n) }
        ExecuteMsg::Close(a) => { let n = choose|n: u64| #[trigger] close_id(s0, s1, e, i, a, n, m); Op::Close(n) }
        _ => choose|o: Op| #[trigger] op_is(s0, s1, e, i, m, o),
    };
    assert(op_is(s0, s1, e, i, m, o));
    frame(s0, s1, e, i, m, o);
    if hasair(s0, id) { if id != about(s0, o) { assert(hasair(s1, id)); assert(air(s1, id) == air(s0, id)); } }
    if o is Claim && o->Claim_0 == id { assert(!haslog(s0, id, o->Claim_1) && haslog(s1, id, o->Claim_1)); }
    if haslog(s1, id, key) && !haslog(s0, id, key) { }
}
// ---------- A03: only what the Merkle root (and the signer) vouch for is paid, and to the right account
pub proof fn a03(s0: St, s1: St, e: Env, i: MessageInfo, p: ClaimPayload, m: Seq<MsgV>)
    requires exec_post(s0, s1, e, i, ExecuteMsg::Claim(p), m)
    ensures match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => exists|id: u64| #[trigger] names(s0, airdrop, id) && hasair(s0, id) && !air(s0, id).bearer && air(s0, id).closed is None && proof_ok(air(s0, id).root, merkle_proof@, claimer_of(i, account), amount.v as int) && m == seq![send(claimer_of(i, account), air(s0, id).denom, amount.v as int)],
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => exists|id: u64| #[trigger] names(s0, airdrop, id) && hasair(s0, id) && air(s0, id).bearer && air(s0, id).closed is None && proof_ok(air(s0, id).root, merkle_proof@, claim_hash@, amount.v as int) && sign_ok(air(s0, id), claim_hash@, claimer_of(i, account), amount.v as int, claim_sign@) && m == seq![send(claimer_of(i, account), air(s0, id).denom, amount.v as int)],
    }
{
    match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => { let id = choose|id: u64| #[trigger] open_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), merkle_proof@, m); assert(names(s0, airdrop, id)); }
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => { let id = choose|id: u64| #[trigger] bearer_id(s0, s1, airdrop, id, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m); assert(names(s0, airdrop, id)); }
    }
}
// ---------- A04: what a registered airdrop is never changes; its creator alone adds and closes; closed is final
pub proof fn a04(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>, id: u64)
    requires inv(s0), exec_post(s0, s1, e, i, msg, m), hasair(s0, id)
    ensures hasair(s1, id), ({ let a = air(s0, id); let b = air(s1, id);
        &&& b == (AV { total: b.total, claimed: b.claimed, closed: b.closed, ..a })
        &&& b.total >= a.total && b.claimed >= a.claimed
        &&& a.closed is Some ==> b == a
        &&& b.total != a.total ==> msg is Fund && i.sender@ == a.creator
        &&& b.closed != a.closed ==> msg is Close && i.sender@ == a.creator && b.closed == Some(e.block.height) && m == seq![send(a.creator, a.denom, a.total - a.claimed)]
    })
{
    ops(s0, s1, e, i, msg, m);
    let o = match msg {
        ExecuteMsg::Register(p) => Op::Reg,
        ExecuteMsg::Fund(a) => { let n = choose|n: u64| #[trigger] fund_id(s0, s1, i, a, n, m); Op::Fund(n) }
        ExecuteMsg::Close(a) => { let n = choose|n: u64| #[trigger] close_id(s0, s1, e, i, a, n, m); Op::Close(n) }
        _ => choose|o: Op| #[trigger] op_is(s0, s1, e, i, m, o) && o is Claim,
    };
    if let ExecuteMsg::Claim(p) = msg { match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => { let n = choose|n: u64| #[trigger] open_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), merkle_proof@, m); assert(op_is(s0, s1, e, i, m, Op::Claim(n, claimer_of(i, account), claimer_of(i, account), amount.v as int))); }
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => { let n = choose|n: u64| #[trigger] bearer_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m); assert(op_is(s0, s1, e, i, m, Op::Claim(n, claim_hash@, claimer_of(i, account), amount.v as int))); }
    } }
    assert(op_is(s0, s1, e, i, m, o));
    frame(s0, s1, e, i, m, o);
    if id != about(s0, o) { assert(hasair(s1, id)); assert(air(s1, id) == air(s0, id)); }
}
// ---------- A05: ids are handed out once, labels are never taken over
pub proof fn a05(s0: St, s1: St, e: Env, i: MessageInfo, msg: ExecuteMsg, m: Seq<MsgV>, id: u64, l: Seq<char>)
    requires inv(s0), exec_post(s0, s1, e, i, msg, m)
    ensures
        hasair(s1, id) && !hasair(s0, id) ==> msg is Register && id == latest(s0) && latest(s1) == id + 1 && air(s1, id).creator == i.sender@,
        haslab(s0, l) ==> haslab(s1, l) && lab(s1, l) == lab(s0, l),
        haslab(s1, l) && !haslab(s0, l) ==> msg is Register && lab(s1, l) == latest(s0) && (exists|x: Seq<char>| l == #[trigger] (i.sender@ + "/"@ + x)),
        !(msg is Register) ==> latest(s1) == latest(s0),
        latest(s1) >= latest(s0),
{
    ops(s0, s1, e, i, msg, m);
    let o = match msg {
        ExecuteMsg::Register(p) => Op::Reg,
        ExecuteMsg::Fund(a) => { let n = choose|n: u64| #[trigger] fund_id(s0, s1, i, a, n, m); Op::Fund(n) }
        ExecuteMsg::Close(a) => { let n = choose|n: u64| #[trigger] close_id(s0, s1, e, i, a, n, m); Op::Close(n) }
        _ => choose|o: Op| #[trigger] op_is(s0, s1, e, i, m, o) && o is Claim,
    };
    if let ExecuteMsg::Claim(p) = msg { match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => { let n = choose|n: u64| #[trigger] open_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), merkle_proof@, m); assert(op_is(s0, s1, e, i, m, Op::Claim(n, claimer_of(i, account), claimer_of(i, account), amount.v as int))); }
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => { let n = choose|n: u64| #[trigger] bearer_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m); assert(op_is(s0, s1, e, i, m, Op::Claim(n, claim_hash@, claimer_of(i, account), amount.v as int))); }
    } }
    assert(op_is(s0, s1, e, i, m, o));
    frame(s0, s1, e, i, m, o);
    if id != about(s0, o) { assert(hasair(s1, id) == hasair(s0, id)); }
    if let ExecuteMsg::Register(p) = msg {
        let label = match p { RegisterPayload::Open { label, .. } => label, RegisterPayload::Bearer { label, .. } => label };
        if haslab(s1, l) && !haslab(s0, l) {
            crate::ibcx_airdrop::vx_keys();
            if !(label is Some && full_label(i, label)->0 == l) { assert(keeps(s0, s1, k_lab(l))); }
            assert(l == i.sender@ + "/"@ + label->0@);
        }
    }
}
// ---------- A06: what verification answers is what a claim is judged by
pub proof fn a06_verify(s0: St, s1: St, e: Env, i: MessageInfo, p: ClaimPayload, m: Seq<MsgV>, r: VerifyClaimResponse)
    requires exec_post(s0, s1, e, i, ExecuteMsg::Claim(p), m), verify_post(s0, p, r),
    ensures match p { ClaimPayload::Open { account, .. } => account is Some, ClaimPayload::Bearer { account, .. } => account is Some } ==> r.valid
{
    match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => {
            let n = choose|n: u64| #[trigger] open_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), merkle_proof@, m);
            let k = choose|k: u64| #[trigger] ver_open(s0, airdrop, k, account, amount.v as int, merkle_proof@, r.valid);
            assert(n == k);
        }
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => {
            let n = choose|n: u64| #[trigger] bearer_id(s0, s1, airdrop, n, amount.v as int, claimer_of(i, account), claim_hash@, claim_sign@, merkle_proof@, m);
            let k = choose|k: u64| #[trigger] ver_bearer(s0, airdrop, k, account, claim_hash@, claim_sign@, amount.v as int, merkle_proof@, r.valid);
            assert(n == k);
        }
    }
}
}
}
