//! mock chain pieces: a storage that can be cloned, a scripted querier, decoded messages
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::*;
use prost::Message as _;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Default, PartialEq)]
pub struct Mem(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let b = (start.map_or(Unbounded, |s| Included(s.to_vec())), end.map_or(Unbounded, |e| Excluded(e.to_vec())));
        let it = self.0.range(b).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

/// a stargate query as the contract sent it
#[derive(Clone, Debug, PartialEq)]
pub enum SQ {
    EstIn { pool: u64, token_in: String, routes: Vec<(u64, String)> },
    EstOut { pool: u64, token_out: String, routes: Vec<(u64, String)> },
    Pool { id: u64 },
    Other(String),
}

#[derive(Default)]
pub struct Q {
    pub bank: BTreeMap<(String, String), u128>,
    pub asked: RefCell<Vec<SQ>>,
    pub est_in: Option<u128>,
    pub est_out: Option<u128>,
    /// quotes that depend on the whole question (takes precedence)
    pub est: Option<Box<dyn Fn(&SQ) -> Option<u128>>>,
    /// raw pool answers (protobuf Any value per pool id)
    pub pools: BTreeMap<u64, Vec<u8>>,
    /// wasm smart queries: the contract queried and the handler
    pub wasm: Option<Box<dyn Fn(&str, &Binary) -> Result<Binary, String>>>,
}
fn ok(b: Binary) -> QuerierResult {
    SystemResult::Ok(ContractResult::Ok(b))
}
fn err(s: &str) -> QuerierResult {
    SystemResult::Ok(ContractResult::Err(s.to_string()))
}
impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.bank.get(&(address, denom.clone())).copied().unwrap_or(0);
                ok(to_json_binary(&serde_json::json!({"amount": {"denom": denom, "amount": a.to_string()}})).unwrap())
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match &self.wasm {
                Some(f) => match f(&contract_addr, &msg) {
                    Ok(b) => ok(b),
                    Err(e) => err(&e),
                },
                None => err("no wasm"),
            },
            #[allow(deprecated)]
            QueryRequest::Stargate { path, data } => {
                use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
                match path.as_str() {
                    "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                        let r = pm::EstimateSwapExactAmountInRequest::decode(data.as_slice()).unwrap();
                        let question = SQ::EstIn {
                            pool: r.pool_id,
                            token_in: r.token_in,
                            routes: r.routes.into_iter().map(|x| (x.pool_id, x.token_out_denom)).collect(),
                        };
                        self.asked.borrow_mut().push(question.clone());
                        match self.est.as_ref().map_or(self.est_in, |f| f(&question)) {
                            Some(v) => ok(to_json_binary(&serde_json::json!({"token_out_amount": v.to_string()})).unwrap()),
                            None => err("no estimate"),
                        }
                    }
                    "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                        let r = pm::EstimateSwapExactAmountOutRequest::decode(data.as_slice()).unwrap();
                        let question = SQ::EstOut {
                            pool: r.pool_id,
                            token_out: r.token_out,
                            routes: r.routes.into_iter().map(|x| (x.pool_id, x.token_in_denom)).collect(),
                        };
                        self.asked.borrow_mut().push(question.clone());
                        match self.est.as_ref().map_or(self.est_out, |f| f(&question)) {
                            Some(v) => ok(to_json_binary(&serde_json::json!({"token_in_amount": v.to_string()})).unwrap()),
                            None => err("no estimate"),
                        }
                    }
                    _ => {
                        self.asked.borrow_mut().push(SQ::Other(path.clone()));
                        if path.ends_with("/Pool") {
                            // both poolmanager and gamm PoolRequest carry the id in field 1
                            let r = pm::PoolRequest::decode(data.as_slice()).unwrap();
                            self.asked.borrow_mut().push(SQ::Pool { id: r.pool_id });
                            return match self.pools.get(&r.pool_id) {
                                Some(b) => ok(Binary(b.clone())),
                                None => err("no pool"),
                            };
                        }
                        err("unknown stargate path")
                    }
                }
            }
            _ => err("unsupported query"),
        }
    }
}

pub type Coins = Vec<(String, u128)>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Msg {
    Send { to: String, coins: Coins },
    BankBurn { coins: Coins },
    Mint { sender: String, to: String, denom: String, amount: u128 },
    Burn { sender: String, from: String, denom: String, amount: u128 },
    Create { sender: String, sub: String },
    SwapIn { sender: String, routes: Vec<(u64, String)>, denom: String, amount: u128, limit: u128 },
    SwapOut { sender: String, routes: Vec<(u64, String)>, denom: String, amount: u128, limit: u128 },
    Exec { to: String, msg: String, funds: Coins },
    Other(String),
}

pub fn coins_of(v: &[Coin]) -> Coins {
    v.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect()
}
fn pc(c: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>) -> (String, u128) {
    match c {
        Some(c) => (c.denom, c.amount.parse().unwrap_or(u128::MAX)),
        None => ("<none>".into(), 0),
    }
}

pub fn decode(m: &CosmosMsg) -> Msg {
    use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
    use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Msg::Send { to: to_address.clone(), coins: coins_of(amount) },
        CosmosMsg::Bank(BankMsg::Burn { amount }) => Msg::BankBurn { coins: coins_of(amount) },
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
            Msg::Exec { to: contract_addr.clone(), msg: String::from_utf8_lossy(msg.as_slice()).to_string(), funds: coins_of(funds) }
        }
        CosmosMsg::Stargate { type_url, value } => match type_url.as_str() {
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let x = tf::MsgMint::decode(value.as_slice()).unwrap();
                let (denom, amount) = pc(x.amount);
                Msg::Mint { sender: x.sender, to: x.mint_to_address, denom, amount }
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let x = tf::MsgBurn::decode(value.as_slice()).unwrap();
                let (denom, amount) = pc(x.amount);
                Msg::Burn { sender: x.sender, from: x.burn_from_address, denom, amount }
            }
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let x = tf::MsgCreateDenom::decode(value.as_slice()).unwrap();
                Msg::Create { sender: x.sender, sub: x.subdenom }
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let x = pm::MsgSwapExactAmountIn::decode(value.as_slice()).unwrap();
                let (denom, amount) = pc(x.token_in);
                Msg::SwapIn {
                    sender: x.sender,
                    routes: x.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect(),
                    denom,
                    amount,
                    limit: x.token_out_min_amount.parse().unwrap_or(u128::MAX),
                }
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let x = pm::MsgSwapExactAmountOut::decode(value.as_slice()).unwrap();
                let (denom, amount) = pc(x.token_out);
                Msg::SwapOut {
                    sender: x.sender,
                    routes: x.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect(),
                    denom,
                    amount,
                    limit: x.token_in_max_amount.parse().unwrap_or(u128::MAX),
                }
            }
            o => Msg::Other(o.to_string()),
        },
        o => Msg::Other(format!("{o:?}")),
    }
}

/// what a list of messages does to balances, independent of how they are split or ordered
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Net {
    pub sends: BTreeMap<(String, String), u128>,
    pub mints: BTreeMap<(String, String), u128>,
    pub burns: BTreeMap<(String, String), u128>,
    pub swaps: Vec<Msg>,
    pub other: Vec<Msg>,
}
pub fn net(ms: &[Msg]) -> Net {
    let mut n = Net::default();
    for m in ms {
        match m {
            Msg::Send { to, coins } => {
                for (d, a) in coins {
                    if *a > 0 {
                        let e = n.sends.entry((to.clone(), d.clone())).or_insert(0);
                        *e = e.saturating_add(*a);
                    }
                }
            }
            Msg::Mint { to, denom, amount, .. } => {
                if *amount > 0 {
                    let e = n.mints.entry((to.clone(), denom.clone())).or_insert(0);
                    *e = e.saturating_add(*amount);
                }
            }
            Msg::Burn { from, denom, amount, .. } => {
                if *amount > 0 {
                    let e = n.burns.entry((from.clone(), denom.clone())).or_insert(0);
                    *e = e.saturating_add(*amount);
                }
            }
            Msg::SwapIn { .. } | Msg::SwapOut { .. } => n.swaps.push(m.clone()),
            _ => n.other.push(m.clone()),
        }
    }
    n
}

pub fn msgs(r: &Response) -> Vec<Msg> {
    r.messages.iter().map(|s| decode(&s.msg)).collect()
}

pub fn env_at(t: u64) -> Env {
    Env {
        block: BlockInfo { height: 12345 + t % 1000, time: Timestamp::from_nanos(t * 1_000_000_000 + (t * 7919 + 1) % 1_000_000_000), chain_id: if t % 5 == 0 { "osmo-test-5" } else { "osmosis-1" }.into() },
        transaction: if t % 7 == 0 { None } else { Some(TransactionInfo { index: (t % 9) as u32 }) },
        contract: ContractInfo { address: Addr::unchecked(SELF) },
    }
}
pub const SELF: &str = "cosmos2contract";
pub fn info(sender: &str, funds: &[(String, u128)]) -> MessageInfo {
    MessageInfo {
        sender: Addr::unchecked(sender),
        funds: funds.iter().map(|(d, a)| coin(*a, d)).collect(),
    }
}
pub fn api() -> MockApi {
    MockApi::default()
}
/// what the mock api accepts as an address
pub fn addr_ok(s: &str) -> bool {
    api().addr_validate(s).is_ok()
}
pub fn sorted_funds(mut v: Coins) -> Coins {
    v.retain(|c| c.1 > 0);
    v.sort();
    v
}

pub fn jget<T: serde::de::DeserializeOwned>(m: &Mem, key: &str) -> Option<T> {
    m.0.get(key.as_bytes()).map(|b| serde_json::from_slice(b).unwrap_or_else(|e| panic!("state {key}: {e}")))
}
