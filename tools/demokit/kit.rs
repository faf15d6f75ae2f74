//! shared by the demonstrations: a mock chain around one contract
#![allow(dead_code, unused_imports)]
pub use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
pub use cosmwasm_std::*;
pub use ibcx_interface::core as ci;
pub use std::str::FromStr;

/// swap estimates answer `out` for exact-in and `inn` for exact-out
pub struct Q {
    pub inner: MockQuerier,
    pub out: u128,
    pub inn: u128,
}
impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        if let Ok(QueryRequest::<Empty>::Stargate { path, .. }) = from_json(bin) {
            let j = if path.ends_with("ExactAmountIn") {
                serde_json::json!({"token_out_amount": self.out.to_string()})
            } else {
                serde_json::json!({"token_in_amount": self.inn.to_string()})
            };
            return SystemResult::Ok(ContractResult::Ok(to_json_binary(&j).unwrap()));
        }
        self.inner.raw_query(bin)
    }
}
pub type Deps = OwnedDeps<MockStorage, MockApi, Q>;
pub fn deps() -> Deps {
    OwnedDeps { storage: MockStorage::new(), api: MockApi::default(), querier: Q { inner: MockQuerier::new(&[]), out: 0, inn: 0 }, custom_query_type: std::marker::PhantomData }
}
pub fn cs(v: &[(&str, u128)]) -> Vec<Coin> {
    v.iter().map(|(d, a)| coin(*a, *d)).collect()
}
pub fn route(deps: &mut Deps, t: u64, denom: &str, hops: &[(u64, &str)], cooldown: u64, max: u128) {
    exec(deps, t, "gov", &[], ci::ExecuteMsg::Gov(ci::GovMsg::UpdateTradeInfo {
        denom: denom.into(),
        routes: ibcx_interface::types::SwapRoutes(hops.iter().map(|(p, d)| ibcx_interface::types::SwapRoute { pool_id: *p, token_denom: d.to_string() }).collect()),
        cooldown,
        max_trade_amount: max.into(),
    })).unwrap();
}
pub fn rinit(manager: Option<&str>, defl: &[(&str, &str)], infl: &[(&str, &str)]) -> ci::ExecuteMsg {
    let f = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), d(b))).collect::<Vec<_>>();
    ci::ExecuteMsg::Rebalance(ci::RebalanceMsg::Init { manager: manager.map(|s| s.to_string()), deflation: f(defl), inflation: f(infl) })
}
pub fn rfinal() -> ci::ExecuteMsg {
    ci::ExecuteMsg::Rebalance(ci::RebalanceMsg::Finalize {})
}
pub fn deflate(denom: &str, out: u128, max_in: u128) -> ci::ExecuteMsg {
    ci::ExecuteMsg::Rebalance(ci::RebalanceMsg::Trade(ci::RebalanceTradeMsg::Deflate { target_denom: denom.into(), amount_out: out.into(), max_amount_in: max_in.into() }))
}
pub fn inflate(denom: &str, inn: u128, min_out: u128) -> ci::ExecuteMsg {
    ci::ExecuteMsg::Rebalance(ci::RebalanceMsg::Trade(ci::RebalanceTradeMsg::Inflate { target_denom: denom.into(), amount_in: inn.into(), min_amount_out: min_out.into() }))
}
pub fn portfolio(deps: &Deps, t: u64) -> Vec<(String, Decimal)> {
    query::<ci::GetPortfolioResponse>(deps, t, ci::QueryMsg::GetPortfolio { time: None }).units
}
pub fn accrued(deps: &Deps, t: u64) -> Vec<Coin> {
    query::<ci::GetFeeResponse>(deps, t, ci::QueryMsg::GetFee { time: None }).streaming_fee.map(|s| s.collected).unwrap_or_default()
}
pub fn env_at(t: u64) -> Env {
    let mut e = mock_env();
    e.block.time = Timestamp::from_seconds(t);
    e
}
pub fn d(s: &str) -> Decimal {
    Decimal::from_str(s).unwrap()
}
pub fn fee(mint: Option<&str>, burn: Option<&str>, sf: Option<&str>) -> ci::FeePayload {
    ci::FeePayload {
        collector: "collector".into(),
        mint_fee: mint.map(d),
        burn_fee: burn.map(d),
        streaming_fee: sf.map(|r| ci::StreamingFeePayload { rate: d(r), freeze: false }),
    }
}
/// a core contract with the given portfolio; index token denom is "factory/index"
pub fn core(t: u64, units: &[(&str, &str)], reserve: &str, fee: ci::FeePayload) -> Deps {
    let mut deps = deps();
    ibcx_core::contract::instantiate(
        deps.as_mut(),
        env_at(t),
        mock_info("gov", &[]),
        ci::InstantiateMsg {
            gov: "gov".into(),
            fee,
            index_denom: "index".into(),
            index_units: units.iter().map(|(a, b)| (a.to_string(), d(b))).collect(),
            reserve_denom: reserve.into(),
        },
    )
    .unwrap();
    use osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgCreateDenomResponse;
    let data: Binary = MsgCreateDenomResponse { new_token_denom: "factory/index".into() }.into();
    ibcx_core::contract::reply(
        deps.as_mut(),
        env_at(t),
        Reply { id: 0, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data) }) },
    )
    .unwrap();
    deps
}
pub fn exec(deps: &mut Deps, t: u64, who: &str, funds: &[Coin], msg: ci::ExecuteMsg) -> Result<Response, String> {
    // a failed call leaves no trace on chain
    let mut copy = MockStorage::new();
    for (k, v) in deps.storage.range(None, None, Order::Ascending) {
        copy.set(&k, &v);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ibcx_core::contract::execute(deps.as_mut(), env_at(t), mock_info(who, funds), msg)
    }));
    let r = match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    };
    if r.is_err() {
        deps.storage = copy;
    }
    r
}
pub fn mint(deps: &mut Deps, t: u64, who: &str, amount: u128, funds: &[Coin]) -> Result<Response, String> {
    exec(deps, t, who, funds, ci::ExecuteMsg::Mint { amount: amount.into(), receiver: None, refund_to: None })
}
pub fn query<T: serde::de::DeserializeOwned>(deps: &Deps, t: u64, msg: ci::QueryMsg) -> T {
    from_json(ibcx_core::contract::query(deps.as_ref(), env_at(t), msg).unwrap()).unwrap()
}
/// bank sends of a response: (to, denom, amount)
pub fn sends(r: &Response) -> Vec<(String, String, u128)> {
    let mut v = vec![];
    for m in &r.messages {
        if let CosmosMsg::Bank(BankMsg::Send { to_address, amount }) = &m.msg {
            for c in amount {
                v.push((to_address.clone(), c.denom.clone(), c.amount.u128()));
            }
        }
    }
    v
}

pub use ibcx_interface::airdrop as ai;
/// runs one call; a failed call leaves no trace on chain
pub fn guarded<E: std::fmt::Display>(deps: &mut Deps, f: impl FnOnce(&mut Deps) -> Result<Response, E>) -> Result<Response, String> {
    let mut copy = MockStorage::new();
    for (k, v) in deps.storage.range(None, None, Order::Ascending) {
        copy.set(&k, &v);
    }
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(deps))) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    };
    if r.is_err() {
        deps.storage = copy;
    }
    r
}
pub fn airdrop() -> Deps {
    let mut deps = deps();
    ibcx_airdrop::contract::instantiate(deps.as_mut(), env_at(1), mock_info("owner", &[]), ai::InstantiateMsg {}).unwrap();
    deps
}
pub fn aexec(deps: &mut Deps, who: &str, funds: &[Coin], msg: ai::ExecuteMsg) -> Result<Response, String> {
    guarded(deps, |d| ibcx_airdrop::contract::execute(d.as_mut(), env_at(10), mock_info(who, funds), msg))
}
pub fn aquery<T: serde::de::DeserializeOwned>(deps: &Deps, msg: ai::QueryMsg) -> Result<T, String> {
    ibcx_airdrop::contract::query(deps.as_ref(), env_at(10), msg).map(|b| from_json(b).unwrap()).map_err(|e| e.to_string())
}
pub fn sha(b: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}
pub fn leaf(key: &str, amount: u128) -> [u8; 32] {
    sha(format!("{key}:{amount}").as_bytes())
}
/// hash of a sorted pair
pub fn node(a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
    let mut v = [a, b];
    v.sort();
    sha(&v.concat())
}
/// key pair number n: (signing key, public key in hex)
pub fn keys(n: u8) -> (k256::ecdsa::SigningKey, String) {
    let k = k256::ecdsa::SigningKey::from_slice(&[n; 32]).unwrap();
    let p = hex::encode(k.verifying_key().to_encoded_point(true).as_bytes());
    (k, p)
}
/// signature (hex) over the sha256 hash of a text
pub fn sign(k: &k256::ecdsa::SigningKey, text: &str) -> String {
    use k256::ecdsa::signature::hazmat::PrehashSigner;
    let s: k256::ecdsa::Signature = k.sign_prehash(&sha(text.as_bytes())).unwrap();
    let s = s.normalize_s().unwrap_or(s);
    hex::encode(s.to_bytes())
}
pub fn register_open(deps: &mut Deps, who: &str, root: [u8; 32], amount: u128, label: Option<&str>) -> Result<Response, String> {
    aexec(deps, who, &cs(&[("uosmo", amount)]), ai::ExecuteMsg::Register(ai::RegisterPayload::open(hex::encode(root), "uosmo", label)))
}
pub fn register_bearer(deps: &mut Deps, who: &str, root: [u8; 32], amount: u128, label: Option<&str>, n: u8) -> Result<Response, String> {
    let (k, p) = keys(n);
    let addr = ibcx_airdrop::verify::pub_to_addr(hex::decode(&p).unwrap().into(), "osmo").unwrap();
    let sig = sign(&k, &addr);
    aexec(deps, who, &cs(&[("uosmo", amount)]), ai::ExecuteMsg::Register(ai::RegisterPayload::bearer(hex::encode(root), "uosmo", p, sig, label)))
}
pub fn claim_open(deps: &mut Deps, who: &str, id: u64, amount: u128, account: Option<&str>, proof: &[[u8; 32]]) -> Result<Response, String> {
    aexec(deps, who, &[], ai::ExecuteMsg::Claim(ai::ClaimPayload::Open {
        airdrop: ai::AirdropId::Id(id), amount: amount.into(), account: account.map(|s| s.into()), merkle_proof: proof.iter().map(hex::encode).collect(),
    }))
}
pub fn claim_bearer(deps: &mut Deps, who: &str, id: u64, amount: u128, account: Option<&str>, hash: &str, sig: &str, proof: &[[u8; 32]]) -> Result<Response, String> {
    aexec(deps, who, &[], ai::ExecuteMsg::Claim(ai::ClaimPayload::Bearer {
        airdrop: ai::AirdropId::Id(id), amount: amount.into(), account: account.map(|s| s.into()), claim_hash: hash.into(), claim_sign: sig.into(), merkle_proof: proof.iter().map(hex::encode).collect(),
    }))
}

pub use ibcx_interface::periphery as pi;
pub use ibcx_interface::types::{SwapRoute, SwapRoutes};
pub use ibcx_pool::{OsmosisPool, Simulator, WeightedPool};
use std::collections::BTreeMap;
/// a weighted pool: (denom, reserve, weight)
#[derive(Clone)]
pub struct W(pub u64, pub &'static str, pub Vec<(&'static str, u128, u128)>);
impl W {
    pub fn text(&self) -> String {
        let assets: Vec<_> = self.2.iter().map(|(d, a, w)| format!("{{\"token\":{{\"denom\":\"{d}\",\"amount\":\"{a}\"}},\"weight\":\"{w}\"}}")).collect();
        format!("{{\"@type\":\"/osmosis.gamm.v1beta1.Pool\",\"address\":\"p{0}\",\"id\":\"{0}\",\"future_pool_governor\":\"\",\"pool_params\":{{\"swap_fee\":\"{1}\",\"exit_fee\":\"0\",\"smooth_weight_change_params\":null}},\"pool_assets\":[{2}],\"total_shares\":{{\"denom\":\"gamm/pool/{0}\",\"amount\":\"1\"}},\"total_weight\":\"{3}\"}}",
            self.0, self.1, assets.join(","), self.2.iter().map(|x| x.2).sum::<u128>())
    }
    pub fn pool(&self) -> WeightedPool {
        from_json(self.text().into_bytes()).unwrap()
    }
}
/// a chain with weighted pools, one core contract "coreaddr" and bank balances
#[derive(Default)]
pub struct PQ {
    pub pools: Vec<W>,
    pub units: Vec<(String, Decimal)>,
    pub mint_fee: Option<Decimal>,
    pub burn_fee: Option<Decimal>,
    pub bank: BTreeMap<(String, String), u128>,
}
pub const CORE: &str = "coreaddr";
pub const INDEX: &str = "factory/coreaddr/index";
impl Querier for PQ {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let ok = |b: Vec<u8>| SystemResult::Ok(ContractResult::Ok(Binary(b)));
        match from_json::<QueryRequest<Empty>>(bin).unwrap() {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.bank.get(&(address, denom.clone())).copied().unwrap_or(0);
                ok(serde_json::to_vec(&serde_json::json!({"amount": {"denom": denom, "amount": a.to_string()}})).unwrap())
            }
            QueryRequest::Wasm(WasmQuery::Smart { msg, .. }) => {
                let v: serde_json::Value = serde_json::from_slice(&msg).unwrap();
                let k = v.as_object().unwrap().keys().next().unwrap().clone();
                ok(serde_json::to_vec(&match k.as_str() {
                    "get_fee" => serde_json::json!({"collector": "collector", "mint_fee": self.mint_fee, "burn_fee": self.burn_fee, "streaming_fee": null}),
                    "get_config" => serde_json::json!({"gov": "gov", "pending_gov": null, "paused": {"paused": false, "expires_at": null}, "index_denom": INDEX, "reserve_denom": "ures"}),
                    _ => serde_json::json!({"total_supply": "1000000", "assets": [], "units": self.units}),
                }).unwrap())
            }
            QueryRequest::Stargate { data, .. } => {
                use prost::Message;
                let r = osmosis_std::types::osmosis::poolmanager::v1beta1::PoolRequest::decode(data.as_slice()).unwrap();
                match self.pools.iter().find(|p| p.0 == r.pool_id) {
                    Some(p) => ok(format!("{{\"pool\":{}}}", p.text()).into_bytes()),
                    None => SystemResult::Ok(ContractResult::Err("no pool".into())),
                }
            }
            _ => panic!(),
        }
    }
}
pub fn swaps(v: &[(&str, &str, &[(u64, &str)])]) -> pi::SwapInfosCompact {
    pi::SwapInfosCompact(v.iter().map(|(a, b, h)| pi::SwapInfoCompact { key: format!("{a},{b}"), routes: h.iter().map(|(p, d)| format!("{p},{d}")).collect() }).collect())
}
pub fn pexec(q: &PQ, who: &str, funds: &[Coin], msg: pi::ExecuteMsg) -> Result<Response, String> {
    let mut st = MockStorage::new();
    let api = MockApi::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ibcx_periphery::contract::execute(DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(q) }, env_at(10), mock_info(who, funds), msg)
    }));
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
pub fn pquery<T: serde::de::DeserializeOwned>(q: &PQ, msg: pi::QueryMsg) -> Result<T, String> {
    let st = MockStorage::new();
    let api = MockApi::default();
    ibcx_periphery::contract::query(cosmwasm_std::Deps { storage: &st, api: &api, querier: QuerierWrapper::new(q) }, env_at(10), msg).map(|b| from_json(b).unwrap()).map_err(|e| e.to_string())
}
/// the messages a response calls contracts with: (contract, message, funds)
pub fn calls(r: &Response) -> Vec<(String, serde_json::Value, Vec<Coin>)> {
    r.messages.iter().filter_map(|m| match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => Some((contract_addr.clone(), serde_json::from_slice(msg).unwrap(), funds.clone())),
        _ => None,
    }).collect()
}
