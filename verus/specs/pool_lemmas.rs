verus! {
// vocabulary of the pool simulation's specifications
pub mod ps {
use vstd::prelude::*;
use crate::vx::*;
use crate::ms::*;
pub use crate::vocab::*;
pub use crate::cosmwasm_std::{Coin, Decimal, Uint128, Uint256, Addr, QuerierWrapper};
use crate::ibcx_pool::{StablePool, WeightedPool, ConcentratedPool, OsmosisPool};
use crate::ibcx_pool::weighted::{PoolAsset, PoolParams};
use crate::ibcx_interface::types::{SwapRoute, SwapRoutes};
use crate::ibcx_interface::periphery::{SwapInfo, RouteKey};
use crate::ibcx_pool::sim::route::*; use crate::ibcx_pool::sim::Simulator; use crate::ibcx_pool::sim::index_in::*; use crate::ibcx_pool::sim::index_out::*;
use crate::vxstd::collections::*; pub use crate::vxstd::mapof;
pub use crate::cosmwasm_std::CosmosMsg;

// ---- pools
pub ghost struct AssetV { pub denom: Seq<char>, pub amount: int, pub weight: int }
// a weighted pool: its identifier, swap fee, reserves and everything else it carries
pub ghost struct WV { pub id: Seq<char>, pub fee: int, pub assets: Seq<AssetV>, pub rest: (String, String, String, String, PoolParams, Coin, Uint256) }
pub ghost enum PoolV { W(WV), S(StablePool), C(ConcentratedPool) }
pub open spec fn assetv(a: PoolAsset) -> AssetV { AssetV { denom: a.token.denom@, amount: a.token.amount.v(), weight: a.weight.v() } }
pub open spec fn assetsv(a: Seq<PoolAsset>) -> Seq<AssetV> { a.map_values(|x: PoolAsset| assetv(x)) }
pub open spec fn wv(p: WeightedPool) -> WV { WV { id: p.id@, fee: p.pool_params.swap_fee.v as int, assets: assetsv(p.pool_assets@), rest: (p.type_url, p.address, p.id, p.future_pool_governor, p.pool_params, p.total_shares, p.total_weight) } }
// the number a text stands for
pub open spec fn pnum(s: Seq<char>) -> int { choose|n: int| parses_to(s, n) }
pub proof fn lem_pnum(s: Seq<char>, n: int) requires parses_to(s, n) ensures pnum(s) == n { ax_parse_unique(s, n, pnum(s)); }
pub open spec fn pool_id(p: PoolV) -> int { pnum(match p { PoolV::W(w) => w.id, PoolV::S(s) => s.id@, PoolV::C(c) => c.id@ }) }
// the swap fee of a pool
pub open spec fn pool_fee(p: PoolV) -> int { match p { PoolV::W(w) => w.fee, PoolV::S(s) => s.pool_params.swap_fee.v as int, PoolV::C(c) => dec_lit(c.spread_factor@) } }

// ---- weighted pools: the first asset of a denomination
pub open spec fn aof(s: Seq<AssetV>, d: Seq<char>) -> Option<AssetV> decreases s.len() { if s.len() == 0 { None } else if s[0].denom == d { Some(s[0]) } else { aof(s.drop_first(), d) } }
pub open spec fn afirst(s: Seq<AssetV>, d: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i].denom == d && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).denom != d }
pub proof fn lem_aof(s: Seq<AssetV>, d: Seq<char>, i: int) requires afirst(s, d, i) ensures aof(s, d) == Some(s[i]) decreases s.len()
{ if i > 0 { let t = s.drop_first(); assert(t[i - 1] == s[i]); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j]).denom != d by { assert(t[j] == s[j + 1]); } lem_aof(t, d, i - 1); } }
// out = B_out (1 - (B_in / (B_in + in after fee)) ^ (W_in / W_out)), rounded down
pub open spec fn wout(s: Seq<AssetV>, tin: CoinV, dout: Seq<char>, spread: int) -> Option<int> {
    match (aof(s, tin.denom), aof(s, dout)) { (Some(i), Some(o)) => {
        let y = dd(i.amount * e18(), (i.amount + mfloor(tin.amount, e18() - spread, e18())) * e18());
        let p = powv(y, dd(i.weight * e18(), o.weight * e18()));
        if 0 < y < 2 * e18() && 0 <= p < e18() { Some(dm(o.amount * e18(), e18() - p) / e18()) } else { None }
    }, _ => None }
}
// in = B_in ((B_out / (B_out - out)) ^ (W_out / W_in) - 1) / (1 - fee), rounded up
pub open spec fn win(s: Seq<AssetV>, din: Seq<char>, tout: CoinV, spread: int) -> Option<int> {
    match (aof(s, din), aof(s, tout.denom)) { (Some(i), Some(o)) => {
        let y = dd(o.amount * e18(), (o.amount - tout.amount) * e18());
        let p = powv(y, dd(o.weight * e18(), i.weight * e18()));
        if tout.amount < o.amount && 0 < y < 2 * e18() && p >= e18() { Some(mceil(dd(dm(i.amount * e18(), p - e18()), e18() - spread), 1, e18())) } else { None }
    }, _ => None }
}
// reserves after a swap
pub open spec fn wswap(s: Seq<AssetV>, tin: CoinV, tout: CoinV) -> Seq<AssetV> {
    s.map_values(|a: AssetV| AssetV { amount: if a.denom == tin.denom { (aof(s, tin.denom)->0).amount + tin.amount } else if a.denom == tout.denom { (aof(s, tout.denom)->0).amount - tout.amount } else { a.amount }, ..a })
}
// ---- a swap against a pool: the other amount and the pool afterwards
// (stable and concentrated pools ask the chain about their own pool)
pub open spec fn coin_str(c: CoinV) -> Seq<char> { int_str(c.amount) + c.denom }
pub open spec fn swap_in(q: QuerierWrapper, p: PoolV, tin: CoinV, dout: Seq<char>, spread: int) -> Option<(int, PoolV)> { match p {
    PoolV::W(w) => match wout(w.assets, tin, dout, spread) { Some(x) => Some((x, PoolV::W(WV { assets: wswap(w.assets, tin, CoinV { denom: dout, amount: x }), ..w }))), None => None },
    _ => Some((pnum(est_in(q, pool_id(p) as u64, coin_str(tin), seq![(pool_id(p) as u64, dout)])), p)),
} }
pub open spec fn swap_out(q: QuerierWrapper, p: PoolV, din: Seq<char>, tout: CoinV, spread: int) -> Option<(int, PoolV)> { match p {
    PoolV::W(w) => match win(w.assets, din, tout, spread) { Some(x) => Some((x, PoolV::W(WV { assets: wswap(w.assets, CoinV { denom: din, amount: x }, tout), ..w }))), None => None },
    _ => Some((pnum(est_out(q, pool_id(p) as u64, coin_str(tout), seq![(pool_id(p) as u64, din)])), p)),
} }

// ---- routes: hop by hop, pools carried along
pub type PM = Map<u64, PoolV>;
pub type RV = Seq<(u64, Seq<char>)>;
pub open spec fn hops_in(q: QuerierWrapper, pm: PM, tin: CoinV, rs: RV) -> Option<(CoinV, PM)> decreases rs.len() {
    if rs.len() == 0 { Some((tin, pm)) } else { match hops_in(q, pm, tin, rs.drop_last()) { None => None, Some((c, m)) => {
        let (id, d) = rs.last();
        if !m.dom().contains(id) { None } else { match swap_in(q, m[id], c, d, pool_fee(m[id])) { None => None, Some((x, p)) => Some((CoinV { denom: d, amount: x }, m.insert(id, p))) } }
    } } }
}
pub open spec fn hops_out(q: QuerierWrapper, pm: PM, tout: CoinV, rs: RV) -> Option<(CoinV, PM)> decreases rs.len() {
    if rs.len() == 0 { Some((tout, pm)) } else { match hops_out(q, pm, tout, rs.drop_last()) { None => None, Some((c, m)) => {
        let (id, d) = rs.last();
        if !m.dom().contains(id) { None } else { match swap_out(q, m[id], d, c, pool_fee(m[id])) { None => None, Some((x, p)) => Some((CoinV { denom: d, amount: x }, m.insert(id, p))) } }
    } } }
}
// the user's routes: the first one given for a pair
pub ghost struct InfoV { pub from: Seq<char>, pub to: Seq<char>, pub routes: RV }
pub open spec fn infov(i: SwapInfo) -> InfoV { InfoV { from: ((i.0).0).0.0@, to: ((i.0).0).0.1@, routes: (i.0).1@ } }
pub open spec fn infosv(i: Seq<SwapInfo>) -> Seq<InfoV> { i.map_values(|x: SwapInfo| infov(x)) }
pub open spec fn route_of(s: Seq<InfoV>, a: Seq<char>, b: Seq<char>) -> Option<RV> decreases s.len() { if s.len() == 0 { None } else if s[0].from == a && s[0].to == b { Some(s[0].routes) } else { route_of(s.drop_first(), a, b) } }
pub open spec fn rfirst(s: Seq<InfoV>, a: Seq<char>, b: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i].from == a && s[i].to == b && forall|j: int| 0 <= j < i ==> !((#[trigger] s[j]).from == a && s[j].to == b) }
pub proof fn lem_route_of(s: Seq<InfoV>, a: Seq<char>, b: Seq<char>, i: int) requires rfirst(s, a, b, i) ensures route_of(s, a, b) == Some(s[i].routes) decreases s.len()
{ if i > 0 { let t = s.drop_first(); assert(t[i - 1] == s[i]); assert forall|j: int| 0 <= j < i - 1 implies !((#[trigger] t[j]).from == a && t[j].to == b) by { assert(t[j] == s[j + 1]); } lem_route_of(t, a, b, i - 1); } }
// one asset of a simulation: the asset's amount, the other side's amount, the route it takes
pub ghost struct EntV { pub coin: CoinV, pub sim: int, pub routes: Option<RV> }
pub type UV = Seq<(Seq<char>, int)>;
pub open spec fn unitsv(s: Seq<(String, Decimal)>) -> UV { s.map_values(|x: (String, Decimal)| (x.0@, x.1.v as int)) }
pub open spec fn ent_in(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, tin: CoinV, dout: Seq<char>) -> Option<(EntV, PM)> {
    if tin.denom == dout { Some((EntV { coin: tin, sim: tin.amount, routes: None }, pm)) }
    else { match route_of(infos, tin.denom, dout) { None => None, Some(rs) => match hops_in(q, pm, tin, rs) { None => None, Some((c, m)) => Some((EntV { coin: tin, sim: c.amount, routes: Some(rs) }, m)) } } }
}
pub open spec fn ent_out(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, tout: CoinV, din: Seq<char>) -> Option<(EntV, PM)> {
    if tout.denom == din { Some((EntV { coin: tout, sim: tout.amount, routes: None }, pm)) }
    else { match route_of(infos, din, tout.denom) { None => None, Some(rs) => match hops_out(q, pm, tout, rs.reverse()) { None => None, Some((c, m)) => Some((EntV { coin: tout, sim: c.amount, routes: Some(rs.reverse()) }, m)) } } }
}
// the whole simulation, asset by asset in order
#[verifier::opaque]
pub open spec fn sim_in(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, dout: Seq<char>) -> Option<(Seq<EntV>, PM)> decreases units.len() {
    if units.len() == 0 { Some((Seq::empty(), pm)) } else { match sim_in(q, pm, infos, units.drop_last(), amount, dout) { None => None, Some((es, m)) =>
        match ent_in(q, m, infos, CoinV { denom: units.last().0, amount: mfloor(amount, units.last().1, e18()) }, dout) { None => None, Some((e, n)) => Some((es.push(e), n)) } } }
}
#[verifier::opaque]
pub open spec fn sim_out(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, din: Seq<char>) -> Option<(Seq<EntV>, PM)> decreases units.len() {
    if units.len() == 0 { Some((Seq::empty(), pm)) } else { match sim_out(q, pm, infos, units.drop_last(), amount, din) { None => None, Some((es, m)) =>
        match ent_out(q, m, infos, CoinV { denom: units.last().0, amount: mceil(amount, units.last().1, e18()) }, din) { None => None, Some((e, n)) => Some((es.push(e), n)) } } }
}
pub proof fn lem_sim_in0(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, d: Seq<char>) ensures sim_in(q, pm, infos, units.take(0), amount, d) == Some((Seq::<EntV>::empty(), pm)) { reveal(sim_in); }
pub proof fn lem_sim_in(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, i: int, amount: int, d: Seq<char>, es: Seq<EntV>, m: PM, fs: Seq<EntV>, n: PM)
    requires 0 <= i < units.len(), sim_in(q, pm, infos, units.take(i), amount, d) == Some((es, m)), fs.len() == es.len() + 1, fs.drop_last() =~= es,
        ent_in(q, m, infos, CoinV { denom: units[i].0, amount: mfloor(amount, units[i].1, e18()) }, d) == Some((fs.last(), n))
    ensures sim_in(q, pm, infos, units.take(i + 1), amount, d) == Some((fs, n))
{ reveal(sim_in); lem_take_last(units, i); assert(es.push(fs.last()) =~= fs); }
pub proof fn lem_sim_out0(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, d: Seq<char>) ensures sim_out(q, pm, infos, units.take(0), amount, d) == Some((Seq::<EntV>::empty(), pm)) { reveal(sim_out); }
pub proof fn lem_sim_out(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, i: int, amount: int, d: Seq<char>, es: Seq<EntV>, m: PM, fs: Seq<EntV>, n: PM)
    requires 0 <= i < units.len(), sim_out(q, pm, infos, units.take(i), amount, d) == Some((es, m)), fs.len() == es.len() + 1, fs.drop_last() =~= es,
        ent_out(q, m, infos, CoinV { denom: units[i].0, amount: mceil(amount, units[i].1, e18()) }, d) == Some((fs.last(), n))
    ensures sim_out(q, pm, infos, units.take(i + 1), amount, d) == Some((fs, n))
{ reveal(sim_out); lem_take_last(units, i); assert(es.push(fs.last()) =~= fs); }
pub open spec fn esum(s: Seq<EntV>) -> int decreases s.len() { if s.len() == 0 { 0 } else { esum(s.drop_last()) + s.last().sim } }
pub open spec fn pmv(m: Map<u64, Box<dyn OsmosisPool>>) -> PM { m.map_values(|b: Box<dyn OsmosisPool>| b.pv()) }
pub open spec fn pools0(s: Seq<Box<dyn OsmosisPool>>) -> PM decreases s.len() { if s.len() == 0 { Map::empty() } else { pools0(s.drop_last()).insert(pool_id(s.last().pv()) as u64, s.last().pv()) } }
// ---- turning a simulation into messages
pub open spec fn outv(r: SimAmountOutRoute) -> EntV { EntV { coin: r.amount_in@, sim: r.sim_amount_out.v as int, routes: optr(r.routes) } }
pub open spec fn inv(r: SimAmountInRoute) -> EntV { EntV { coin: r.amount_out@, sim: r.sim_amount_in.v as int, routes: optr(r.routes) } }
pub open spec fn optr(r: Option<SwapRoutes>) -> Option<RV> { match r { Some(x) => Some(x@), None => None } }
pub open spec fn outsv(s: Seq<SimAmountOutRoute>) -> Seq<EntV> { s.map_values(|r: SimAmountOutRoute| outv(r)) }
pub open spec fn insv(s: Seq<SimAmountInRoute>) -> Seq<EntV> { s.map_values(|r: SimAmountInRoute| inv(r)) }
// the limit of one swap: its share of the user's limit, minimums rounded up, maximums rounded down
pub open spec fn min_of(e: EntV, lim: int, total: int) -> int { mceil(e.sim, lim, total) }
pub open spec fn max_of(e: EntV, lim: int, total: int) -> int { mfloor(e.sim, mfloor(lim, e18(), total), e18()) }
pub open spec fn out_msg(e: EntV, who: Seq<char>, lim: int, total: int) -> Option<MsgV> { match e.routes { Some(rs) => Some(MsgV::SwapIn { sender: who, routes: rs, tin: oc(e.coin.denom, e.coin.amount), min: int_str(min_of(e, lim, total)) }), None => None } }
pub open spec fn in_msg(e: EntV, who: Seq<char>, lim: int, total: int) -> Option<MsgV> { match e.routes { Some(rs) => Some(MsgV::SwapOut { sender: who, routes: rs.reverse(), tout: oc(e.coin.denom, e.coin.amount), max: int_str(max_of(e, lim, total)) }), None => None } }
pub open spec fn out_msgs(s: Seq<EntV>, who: Seq<char>, lim: int, total: int) -> Seq<MsgV> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let p = out_msgs(s.drop_last(), who, lim, total); match out_msg(s.last(), who, lim, total) { Some(m) => p.push(m), None => p } } }
pub open spec fn in_msgs(s: Seq<EntV>, who: Seq<char>, lim: int, total: int) -> Seq<MsgV> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let p = in_msgs(s.drop_last(), who, lim, total); match in_msg(s.last(), who, lim, total) { Some(m) => p.push(m), None => p } } }
pub open spec fn msgsv(s: Seq<CosmosMsg>) -> Seq<MsgV> { s.map_values(|m: CosmosMsg| m@) }
pub proof fn lem_out_msgs(s: Seq<EntV>, ms: Seq<Option<CosmosMsg>>, who: Seq<char>, lim: int, total: int)
    requires s.len() == ms.len(), forall|i: int| #![trigger ms[i]] 0 <= i < s.len() ==> (match ms[i] { Some(m) => Some(m@), None => None }) == out_msg(s[i], who, lim, total)
    ensures msgsv(vx_flat(ms)) =~= out_msgs(s, who, lim, total) decreases s.len()
{ if s.len() > 0 { let t = ms.drop_last(); assert(forall|i: int| 0 <= i < t.len() ==> t[i] == ms[i]); lem_out_msgs(s.drop_last(), t, who, lim, total); assert(ms[s.len() - 1] == ms.last()); assert(msgsv(vx_flat(ms)) =~= (match ms.last() { Some(m) => msgsv(vx_flat(t)).push(m@), None => msgsv(vx_flat(t)) })); } }
pub proof fn lem_in_msgs(s: Seq<EntV>, ms: Seq<Option<CosmosMsg>>, who: Seq<char>, lim: int, total: int)
    requires s.len() == ms.len(), forall|i: int| #![trigger ms[i]] 0 <= i < s.len() ==> (match ms[i] { Some(m) => Some(m@), None => None }) == in_msg(s[i], who, lim, total)
    ensures msgsv(vx_flat(ms)) =~= in_msgs(s, who, lim, total) decreases s.len()
{ if s.len() > 0 { let t = ms.drop_last(); assert(forall|i: int| 0 <= i < t.len() ==> t[i] == ms[i]); lem_in_msgs(s.drop_last(), t, who, lim, total); assert(ms[s.len() - 1] == ms.last()); assert(msgsv(vx_flat(ms)) =~= (match ms.last() { Some(m) => msgsv(vx_flat(t)).push(m@), None => msgsv(vx_flat(t)) })); } }
pub proof fn lem_rev(a: SwapRoutes, b: SwapRoutes) requires a.0@ == b.0@.reverse() ensures a@ == b@.reverse() { assert(a@ =~= b@.reverse()); }
pub proof fn lem_pmv(m: Map<u64, Box<dyn OsmosisPool>>, k: u64, b: Box<dyn OsmosisPool>) ensures pmv(m.insert(k, b)) == pmv(m).insert(k, b.pv()) { assert(pmv(m.insert(k, b)) =~= pmv(m).insert(k, b.pv())); }
pub proof fn lem_take_last<A>(s: Seq<A>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], s.take(i + 1).len() == i + 1 { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub open spec fn pairs_of(s: Seq<Box<dyn OsmosisPool>>) -> Seq<(u64, Box<dyn OsmosisPool>)> { s.map_values(|b: Box<dyn OsmosisPool>| (pool_id(b.pv()) as u64, b)) }
// the pools of the chain, in the order of their identifiers (what is no pool is left out)
pub uninterp spec fn pool_dec(b: Seq<u8>) -> Option<PoolV>;
pub open spec fn pool_ans(q: QuerierWrapper, id: u64) -> Seq<u8> { crate::cosmwasm_std::qraw(q, crate::cosmwasm_std::json::<crate::cosmwasm_std::QueryRequest<crate::cosmwasm_std::Empty>>(crate::cosmwasm_std::QueryRequest::Pool(crate::cw_msgs::PoolRequest { pool_id: id }))) }
pub open spec fn pools_of(q: QuerierWrapper, ids: Seq<u64>) -> Seq<PoolV> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else { let p = pools_of(q, ids.drop_last()); match pool_dec(pool_ans(q, ids.last())) { Some(x) => p.push(x), None => p } } }
pub open spec fn pvs(s: Seq<Box<dyn OsmosisPool>>) -> Seq<PoolV> { s.map_values(|b: Box<dyn OsmosisPool>| b.pv()) }
pub proof fn lem_pools_of(q: QuerierWrapper, ids: Seq<u64>, ps: Seq<Option<Box<dyn OsmosisPool>>>)
    requires ps.len() == ids.len(), forall|i: int| 0 <= i < ps.len() ==> (match #[trigger] ps[i] { Some(b) => Some(b.pv()), None => None }) == pool_dec(pool_ans(q, ids[i]))
    ensures pvs(vx_flat(ps)) == pools_of(q, ids) decreases ps.len()
{
    if ps.len() > 0 { let t = ps.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (match #[trigger] t[i] { Some(b) => Some(b.pv()), None => None }) == pool_dec(pool_ans(q, ids.drop_last()[i])) by { assert(t[i] == ps[i]); } lem_pools_of(q, ids.drop_last(), t); assert(ps[ps.len() - 1] == ps.last());
        assert(pvs(vx_flat(ps)) =~= (match ps.last() { Some(b) => pvs(vx_flat(t)).push(b.pv()), None => pvs(vx_flat(t)) })); }
    else { assert(pvs(vx_flat(ps)) =~= pools_of(q, ids)); }
}
pub open spec fn pools0v(s: Seq<PoolV>) -> PM decreases s.len() { if s.len() == 0 { Map::empty() } else { pools0v(s.drop_last()).insert(pool_id(s.last()) as u64, s.last()) } }
pub proof fn lem_pools0v(s: Seq<Box<dyn OsmosisPool>>) ensures pools0(s) == pools0v(pvs(s)) decreases s.len() { if s.len() > 0 { lem_pools0v(s.drop_last()); assert(pvs(s).drop_last() =~= pvs(s.drop_last())); assert(pvs(s).last() == s.last().pv()); } else { assert(pools0(s) =~= pools0v(pvs(s))); } }
pub proof fn lem_mapof(s: Seq<Box<dyn OsmosisPool>>, t: Seq<(u64, Box<dyn OsmosisPool>)>) requires t.len() == s.len(), forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> t[i] == (pool_id(s[i].pv()) as u64, s[i])
    ensures pmv(mapof::<u64, Box<dyn OsmosisPool>>(t)) == pools0(s) decreases s.len()
{ if s.len() > 0 { let u = t.drop_last(); assert(forall|i: int| #![trigger u[i]] 0 <= i < u.len() ==> u[i] == t[i]); lem_mapof(s.drop_last(), u); lem_pmv(mapof::<u64, Box<dyn OsmosisPool>>(u), t.last().0, t.last().1); assert(t[s.len() - 1] == t.last()); } else { assert(pmv(mapof::<u64, Box<dyn OsmosisPool>>(t)) =~= pools0(s)); } }
pub open spec fn acc_ok(es: Seq<EntV>, acc: Seq<Uint128>, t: Uint128) -> bool { acc.len() == es.len() + 1 && acc[0].v == 0 && acc.last() == t && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> acc[i + 1].v == acc[i].v + es[i].sim }
pub proof fn lem_esum_ok(es: Seq<EntV>, t: Uint128) requires exists|acc: Seq<Uint128>| #[trigger] acc_ok(es, acc, t) ensures esum(es) == t.v { lem_esum_acc(es, choose|acc: Seq<Uint128>| #[trigger] acc_ok(es, acc, t)); }
pub open spec fn pairs_ok(s: Seq<Box<dyn OsmosisPool>>, t: Seq<(u64, Box<dyn OsmosisPool>)>, m: Map<u64, Box<dyn OsmosisPool>>) -> bool { m == mapof::<u64, Box<dyn OsmosisPool>>(t) && t.len() == s.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] == (pool_id(s[i].pv()) as u64, s[i]) }
pub proof fn lem_pools0(s: Seq<Box<dyn OsmosisPool>>, m: Map<u64, Box<dyn OsmosisPool>>) requires exists|t: Seq<(u64, Box<dyn OsmosisPool>)>| #[trigger] pairs_ok(s, t, m) ensures pmv(m) == pools0(s) { let t = choose|t: Seq<(u64, Box<dyn OsmosisPool>)>| #[trigger] pairs_ok(s, t, m); lem_mapof(s, t); }
pub proof fn lem_esum_acc(s: Seq<EntV>, acc: Seq<Uint128>) requires acc.len() == s.len() + 1, acc[0].v == 0, forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> acc[i + 1].v == acc[i].v + s[i].sim ensures esum(s) == acc.last().v decreases s.len()
{ if s.len() > 0 { let t = acc.drop_last(); let u = s.drop_last(); assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies t[i + 1].v == t[i].v + u[i].sim by { assert(s[i] == u[i]); assert(acc[i + 1].v == acc[i].v + s[i].sim); } lem_esum_acc(u, t); let k = s.len() - 1; assert(acc[k + 1].v == acc[k].v + s[k].sim); assert(acc[k] == t.last()); } }
pub proof fn lem_esum_take(s: Seq<EntV>, i: int) requires 0 <= i < s.len() ensures esum(s.take(i + 1)) == esum(s.take(i)) + s[i].sim { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
// a search result is what a fresh simulation of its index amount gives
pub open spec fn fresh_in(s: Simulator, r: SearchAmountForOutputResp, dout: Seq<char>) -> bool {
    match sim_in(s.deps.querier, pools0(s.pools@), infosv(s.swap_info@), unitsv(s.index_units@), r.est_min_token_in.v as int, dout) { None => false, Some((es, m)) => r.sim_routes@ == es && r.max_token_out.v == esum(es) }
}
pub open spec fn fresh_out(s: Simulator, r: SearchAmountForInputResp, din: Seq<char>) -> bool {
    match sim_out(s.deps.querier, pools0(s.pools@), infosv(s.swap_info@), unitsv(s.index_units@), r.est_min_token_out.v as int, din) { None => false, Some((es, m)) => r.sim_routes@ == es && r.max_token_in.v == esum(es) }
}
pub open spec fn tolv(t: Option<Decimal>) -> int { match t { Some(x) => x.v as int, None => mfloor(1, e18(), 3) } }
pub proof fn lem_ratio_one(d: int, x: int) requires d >= 0, x >= 0 ensures x != 0 ==> ((e18() <= mfloor(d, e18(), x)) == (x <= d))
{
    lem_e18();
    if x > 0 {
        let e = e18();
        if x <= d { assert(d * e >= x * e) by(nonlinear_arith) requires d >= x, e > 0; vstd::arithmetic::div_mod::lemma_div_is_ordered(x * e, d * e, x); assert((x * e) / x == e) by(nonlinear_arith) requires x > 0; }
        else { assert(d * e < x * e) by(nonlinear_arith) requires d < x, e > 0; vstd::arithmetic::div_mod::lemma_div_by_multiple_is_strongly_ordered(d * e, x * e, e, x); assert((x * e) / x == e) by(nonlinear_arith) requires x > 0; }
    }
}
}
}

verus! {
// what the pool simulation guarantees, over the contracts above
pub mod pthm {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::vx::*;
use crate::ms::*;
use crate::ps::*;
use crate::cosmwasm_std::{e18, mfloor, mceil};
pub proof fn fl(a: int, b: int, c: int) requires a >= 0, b >= 0, c > 0 ensures 0 <= mfloor(a, b, c), mfloor(a, b, c) * c <= a * b < mfloor(a, b, c) * c + c
{ lemma_mul_nonnegative(a, b); lemma_fundamental_div_mod(a * b, c); lemma_mod_bound(a * b, c); lemma_div_pos_is_pos(a * b, c); lemma_mul_is_commutative(c, mfloor(a, b, c)); }
pub proof fn ce(a: int, b: int, c: int) requires a >= 0, b >= 0, c > 0 ensures 0 <= mceil(a, b, c), a * b <= mceil(a, b, c) * c < a * b + c
{ lemma_mul_nonnegative(a, b); lemma_fundamental_div_mod(a * b, c); lemma_mod_bound(a * b, c); lemma_div_pos_is_pos(a * b, c); 
  lemma_fundamental_div_mod(a * b + c - 1, c); lemma_mod_bound(a * b + c - 1, c); lemma_div_pos_is_pos(a * b + c - 1, c);
  let x = mceil(a, b, c); let f = (a * b) / c; lemma_mul_is_commutative(c, x); lemma_mul_is_commutative(c, f); lemma_mul_is_distributive_add_other_way(c, f, 1); }
/*@T:W01@*/
// a swap with exact input returns between nothing and the whole output reserve
pub proof fn w01_out(s: Seq<AssetV>, tin: CoinV, dout: Seq<char>, spread: int)
    requires wout(s, tin, dout, spread) is Some, (aof(s, dout)->0).amount >= 0
    ensures 0 <= wout(s, tin, dout, spread)->0 <= (aof(s, dout)->0).amount
{
    lem_e18();
    let i = aof(s, tin.denom)->0; let o = aof(s, dout)->0; let e = e18();
    let y = dd(i.amount * e, (i.amount + mfloor(tin.amount, e - spread, e)) * e);
    let p = powv(y, dd(i.weight * e, o.weight * e));
    let a = o.amount * e;
    assert(a >= 0) by(nonlinear_arith) requires a == o.amount * e, o.amount >= 0, e > 0;
    fl(a, e - p, e); 
    let d = dm(a, e - p);
    assert(d <= a) by(nonlinear_arith) requires d * e <= a * (e - p), p >= 0, a >= 0, e > 0;
    lemma_div_pos_is_pos(d, e); lemma_div_is_ordered(d, a, e); lemma_div_multiples_vanish(o.amount, e);
}
/*@T:W01@*/
// a swap for half of the output reserve or more is refused, and its price is never negative
pub proof fn w01_half(s: Seq<AssetV>, din: Seq<char>, tout: CoinV, spread: int)
    requires win(s, din, tout, spread) is Some, tout.amount >= 0, (aof(s, din)->0).amount >= 0, 0 <= spread < e18()
    ensures 2 * tout.amount < (aof(s, tout.denom)->0).amount, win(s, din, tout, spread)->0 >= 0
{
    lem_e18();
    let i = aof(s, din)->0; let o = aof(s, tout.denom)->0; let e = e18();
    let a = o.amount * e; let b = (o.amount - tout.amount) * e;
    let y = dd(a, b);
    let p = powv(y, dd(o.weight * e, i.weight * e));
    assert(a >= 0) by(nonlinear_arith) requires a == o.amount * e, o.amount >= 0, e > 0;
    assert(b > 0) by(nonlinear_arith) requires b == (o.amount - tout.amount) * e, o.amount > tout.amount, e > 0;
    fl(a, e, b);
    assert(y + 1 <= 2 * e);
    assert(a * e < 2 * e * b) by(nonlinear_arith) requires a * e < y * b + b, y + 1 <= 2 * e, b > 0;
    assert(a < 2 * b) by(nonlinear_arith) requires a * e < 2 * e * b, e > 0;
    assert(o.amount < 2 * (o.amount - tout.amount)) by(nonlinear_arith) requires o.amount * e < 2 * ((o.amount - tout.amount) * e), e > 0;
    let c = i.amount * e;
    assert(c >= 0) by(nonlinear_arith) requires c == i.amount * e, i.amount >= 0, e > 0;
    fl(c, p - e, e); fl(dm(c, p - e), e, e - spread); ce(dd(dm(c, p - e), e - spread), 1, e);
}
pub open spec fn adistinct(s: Seq<AssetV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).denom != (#[trigger] s[j]).denom }
/*@T:W01@*/
// the reserves after a swap: input up by exactly the input, output down by exactly the output, nothing else touched
pub proof fn w01_update(s: Seq<AssetV>, tin: CoinV, tout: CoinV, i: int)
    requires adistinct(s), tin.denom != tout.denom, 0 <= i < s.len()
    ensures wswap(s, tin, tout).len() == s.len(), ({ let a = wswap(s, tin, tout)[i]; a.denom == s[i].denom && a.weight == s[i].weight && a.amount == s[i].amount + (if a.denom == tin.denom { tin.amount } else { 0 }) - (if a.denom == tout.denom { tout.amount } else { 0 }) })
{ assert(afirst(s, s[i].denom, i)); lem_aof(s, s[i].denom, i); }

pub open spec fn nnsim(s: Seq<EntV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sim >= 0 }
// what the swaps may spend at most, and must yield at least, counting what needs no swap
pub open spec fn spend(s: Seq<EntV>, lim: int, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { spend(s.drop_last(), lim, t) + (if s.last().routes is Some { max_of(s.last(), lim, t) } else { s.last().sim }) } }
pub open spec fn yield_(s: Seq<EntV>, lim: int, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { yield_(s.drop_last(), lim, t) + (if s.last().routes is Some { min_of(s.last(), lim, t) } else { s.last().sim }) } }
proof fn max_one(e: EntV, lim: int, t: int) requires e.sim >= 0, 0 < t <= lim ensures e.sim <= max_of(e, lim, t), max_of(e, lim, t) * e18() <= e.sim * mfloor(lim, e18(), t), mfloor(lim, e18(), t) * t <= lim * e18()
{
    lem_e18(); let u = e18(); let a = mfloor(lim, u, t);
    fl(lim, u, t); fl(e.sim, a, u);
    assert(a >= u) by(nonlinear_arith) requires a * t + t > lim * u, lim >= t, t > 0, a >= 0, u > 0;
    let m = max_of(e, lim, t);
    assert(m >= e.sim) by(nonlinear_arith) requires m * u + u > e.sim * a, a >= u, e.sim >= 0, u > 0;
}
proof fn spend_le(s: Seq<EntV>, lim: int, t: int) requires nnsim(s), 0 < t <= lim ensures spend(s, lim, t) * e18() <= esum(s) * mfloor(lim, e18(), t), esum(s) >= 0 decreases s.len()
{
    lem_e18(); let u = e18(); let a = mfloor(lim, u, t);
    if s.len() > 0 {
        let r = s.drop_last(); let x = s.last(); assert(s[s.len() - 1] == x); assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i]);
        spend_le(r, lim, t); max_one(x, lim, t);
        let m = if x.routes is Some { max_of(x, lim, t) } else { x.sim };
        assert(m * u <= x.sim * a) by(nonlinear_arith) requires m <= max_of(x, lim, t), max_of(x, lim, t) * u <= x.sim * a, u > 0;
        assert((spend(r, lim, t) + m) * u == spend(r, lim, t) * u + m * u) by(nonlinear_arith);
        assert((esum(r) + x.sim) * a == esum(r) * a + x.sim * a) by(nonlinear_arith);
    }
}
/*@T:S01@*/
// maximum inputs: together never above the limit, and none below its own simulated amount
pub proof fn s01_max(s: Seq<EntV>, lim: int) requires nnsim(s), 0 < esum(s) <= lim
    ensures spend(s, lim, esum(s)) <= lim, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sim <= max_of(s[i], lim, esum(s))
{
    lem_e18(); let u = e18(); let t = esum(s); let a = mfloor(lim, u, t);
    spend_le(s, lim, t); fl(lim, u, t);
    assert(spend(s, lim, t) <= lim) by(nonlinear_arith) requires spend(s, lim, t) * u <= t * a, a * t <= lim * u, u > 0;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).sim <= max_of(s[i], lim, t) by { max_one(s[i], lim, t); }
}
proof fn min_one(e: EntV, lim: int, t: int) requires e.sim >= 0, 0 <= lim <= t, t > 0 ensures min_of(e, lim, t) <= e.sim, min_of(e, lim, t) * t >= e.sim * lim, e.sim * t >= e.sim * lim
{
    ce(e.sim, lim, t); let m = min_of(e, lim, t);
    assert(e.sim * t >= e.sim * lim) by(nonlinear_arith) requires e.sim >= 0, t >= lim;
    assert(m <= e.sim) by(nonlinear_arith) requires m * t < e.sim * lim + t, e.sim * lim <= e.sim * t, t > 0;
}
proof fn yield_ge(s: Seq<EntV>, lim: int, t: int) requires nnsim(s), 0 <= lim <= t, t > 0 ensures yield_(s, lim, t) * t >= esum(s) * lim decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last(); let x = s.last(); assert(s[s.len() - 1] == x); assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i]);
        yield_ge(r, lim, t); min_one(x, lim, t);
        let m = if x.routes is Some { min_of(x, lim, t) } else { x.sim };
        assert((yield_(r, lim, t) + m) * t == yield_(r, lim, t) * t + m * t) by(nonlinear_arith);
        assert((esum(r) + x.sim) * lim == esum(r) * lim + x.sim * lim) by(nonlinear_arith);
    }
}
/*@T:S01@*/
// minimum outputs: together with what needs no swap never below the limit, and none above its own simulated amount
pub proof fn s01_min(s: Seq<EntV>, lim: int) requires nnsim(s), 0 <= lim <= esum(s), esum(s) > 0
    ensures yield_(s, lim, esum(s)) >= lim, forall|i: int| 0 <= i < s.len() ==> min_of(#[trigger] s[i], lim, esum(s)) <= s[i].sim
{
    let t = esum(s); yield_ge(s, lim, t);
    assert(yield_(s, lim, t) >= lim) by(nonlinear_arith) requires yield_(s, lim, t) * t >= t * lim, t > 0;
    assert forall|i: int| 0 <= i < s.len() implies min_of(#[trigger] s[i], lim, t) <= s[i].sim by { min_one(s[i], lim, t); }
}
/*@T:S01@*/
// one entry per portfolio asset in order, with exactly the amount the core contract redeems
pub proof fn s01_in(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, d: Seq<char>)
    requires sim_in(q, pm, infos, units, amount, d) is Some
    ensures ({ let es = (sim_in(q, pm, infos, units, amount, d)->0).0; es.len() == units.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).coin == (CoinV { denom: units[i].0, amount: mfloor(amount, units[i].1, e18()) }) && (es[i].routes is None) == (units[i].0 == d) })
    decreases units.len()
{ reveal(sim_in); if units.len() > 0 { s01_in(q, pm, infos, units.drop_last(), amount, d); } }
/*@T:S01@*/
// and, for a mint, exactly the amount it charges: the unit times the amount rounded up
pub proof fn s01_out(q: QuerierWrapper, pm: PM, infos: Seq<InfoV>, units: UV, amount: int, d: Seq<char>)
    requires sim_out(q, pm, infos, units, amount, d) is Some, amount >= 0, forall|i: int| 0 <= i < units.len() ==> (#[trigger] units[i]).1 >= 0
    ensures ({ let es = (sim_out(q, pm, infos, units, amount, d)->0).0; es.len() == units.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).coin == (CoinV { denom: units[i].0, amount: mceil(amount, units[i].1, e18()) }) && (es[i].routes is None) == (units[i].0 == d) && es[i].coin.amount * e18() >= amount * units[i].1 })
    decreases units.len()
{
    reveal(sim_out);
    if units.len() > 0 { lem_e18(); let v = units.drop_last(); assert(forall|i: int| 0 <= i < v.len() ==> v[i] == units[i]); s01_out(q, pm, infos, v, amount, d); assert(units[units.len() - 1].1 >= 0); ce(amount, units.last().1, e18()); }
}
/*@T:S02@*/
// for tolerances up to one, a revised estimate stays between the user's limit and the searched amount
pub proof fn s02_between(lo: int, hi: int, tol: int) requires 0 <= lo <= hi, 0 <= tol <= e18()
    ensures lo <= hi - mfloor(hi - lo, tol, e18()) <= hi, lo <= lo + mfloor(hi - lo, tol, e18()) <= hi
{ lem_e18(); let g = hi - lo; let m = mfloor(g, tol, e18()); fl(g, tol, e18()); assert(m <= g) by(nonlinear_arith) requires m * e18() <= g * tol, tol <= e18(), g >= 0, e18() > 0; }
}
}
