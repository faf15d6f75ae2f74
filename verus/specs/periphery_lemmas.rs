verus! {
// vocabulary of the periphery's specifications
pub mod pps {
use vstd::prelude::*;
use crate::vx::*;
use crate::ms::*;
pub use crate::ps::*;
pub use crate::vocab::*;
use crate::cosmwasm_std::{Empty, Decimal, Uint128, Coin, QuerierWrapper, e18, mfloor, mceil, Storage};
pub type St = Map<VKey, Val>;
use crate::ibcx_interface::core::{GetConfigResponse, GetFeeResponse, GetPortfolioResponse};
use crate::ibcx_interface::periphery::{SwapInfo, SwapInfosCompact, ExecuteMsg, QueryMsg, SimulateMintExactAmountOutResponse, SimulateBurnExactAmountInResponse, SimulateBurnExactAmountOutResponse, swap_info_of};
pub use crate::ibcx_interface::helpers::core::{answer, exec_of};
type CoreMsg = crate::ibcx_interface::core::ExecuteMsg;
type CoreQry = crate::ibcx_interface::core::QueryMsg;

// what the core contract tells the periphery
pub open spec fn core_cfg(q: QuerierWrapper, who: Seq<char>) -> GetConfigResponse { answer::<Empty, CoreQry, GetConfigResponse>(q, who, CoreQry::GetConfig { time: None }) }
pub open spec fn core_fees(q: QuerierWrapper, who: Seq<char>) -> GetFeeResponse { answer::<Empty, CoreQry, GetFeeResponse>(q, who, CoreQry::GetFee { time: None }) }
pub open spec fn core_units(q: QuerierWrapper, who: Seq<char>) -> UV { unitsv(answer::<Empty, CoreQry, GetPortfolioResponse>(q, who, CoreQry::GetPortfolio { time: None }).units@) }
pub open spec fn keep_of(fee: Option<Decimal>) -> int { match fee { Some(f) => e18() - f.v, None => e18() } }
pub open spec fn grow_of(fee: Option<Decimal>) -> int { match fee { Some(f) => mfloor(e18(), e18(), e18() - f.v), None => e18() } }
// the pools of the routes: each pool mentioned once, as the chain describes it
pub open spec fn ids_ok(si: Seq<SwapInfo>, ids: Seq<u64>) -> bool { (forall|i: int, j: int| 0 <= i < j < ids.len() ==> ids[i] < ids[j]) && forall|id: u64| ids.contains(id) <==> #[trigger] crate::ibcx_interface::periphery::mentions(si, id) }
pub open spec fn pools_for(q: QuerierWrapper, si: Seq<SwapInfo>, pm: PM) -> bool { exists|ids: Seq<u64>| #[trigger] ids_ok(si, ids) && pm == pools0v(pools_of(q, ids)) }
// a mint of `amount`: every portfolio asset's unit times the amount, rounded up, ordered by denomination
pub open spec fn need_of(units: UV, amount: int) -> Seq<CoinV> { units.map_values(|u: (Seq<char>, int)| CoinV { denom: u.0, amount: mceil(amount, u.1, e18()) }) }
pub open spec fn sorted_coins(c: Seq<CoinV>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> str_le(#[trigger] c[i].denom, #[trigger] c[j].denom) }
pub open spec fn funds_for(units: UV, amount: int, f: Seq<CoinV>) -> bool { vx_perm(need_of(units, amount), f) && sorted_coins(f) }
// messages
pub open spec fn mint_call(core: Seq<char>, amount: int, who: Seq<char>, funds: Seq<CoinV>) -> MsgV { MsgV::Exec { contract: core, msg: json::<CoreMsg>(CoreMsg::Mint { amount: Uint128 { v: amount as u128 }, receiver: Some(string_of(who)), refund_to: Some(string_of(who)) }), funds } }
pub open spec fn burn_call(core: Seq<char>, funds: Seq<CoinV>) -> MsgV { MsgV::Exec { contract: core, msg: json::<CoreMsg>(CoreMsg::Burn { redeem_to: None }), funds } }
pub open spec fn finish_call(me: Seq<char>, who: Seq<char>, denom: Seq<char>) -> MsgV { MsgV::Exec { contract: me, msg: json::<ExecuteMsg>(ExecuteMsg::FinishOperation { refund_to: string_of(who), refund_asset: string_of(denom) }), funds: Seq::empty() } }
pub open spec fn nonneg(es: Seq<EntV>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).sim >= 0 }
pub open spec fn paid(funds: Seq<CoinV>, d: Seq<char>) -> bool { funds.len() == 1 && funds[0].denom == d && funds[0].amount > 0 }
pub open spec fn simulated_out(q: QuerierWrapper, core: Seq<char>, si: Seq<SwapInfo>, amount: int, d: Seq<char>, es: Seq<EntV>) -> bool
{ exists|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_out(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == es, None => false } }
pub open spec fn simulated_in(q: QuerierWrapper, core: Seq<char>, si: Seq<SwapInfo>, amount: int, d: Seq<char>, es: Seq<EntV>) -> bool
{ exists|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_in(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == es, None => false } }

// ---- what each operation may do
// swaps, one mint paying exactly what is needed, the rest back to the user
pub open spec fn mint_shape(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, core: Seq<char>, din: Seq<char>, es: Seq<EntV>, amount: int, lim: int, f: Seq<CoinV>, msgs: Seq<MsgV>) -> bool {
    &&& funds_for(core_units(q, core), amount, f) && nonneg(es)
    &&& msgs == in_msgs(es, me, lim, esum(es)).push(mint_call(core, amount, who, f)).push(finish_call(me, who, din))
}
pub open spec fn mint_in_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, din: Seq<char>, min: int, si: Seq<SwapInfo>, msgs: Seq<MsgV>) -> bool {
    exists|es: Seq<EntV>, amount: int, lim: int, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, lim, f, msgs)
        && paid(funds, din) && simulated_out(q, core, si, amount, din, es) && 0 < esum(es) <= lim <= funds[0].amount
        && min <= mfloor(amount, keep_of(core_fees(q, core).mint_fee), e18())
}
pub open spec fn mint_out_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, amount: int, din: Seq<char>, si: Seq<SwapInfo>, msgs: Seq<MsgV>) -> bool {
    exists|es: Seq<EntV>, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, funds[0].amount, f, msgs)
        && paid(funds, din) && simulated_out(q, core, si, amount, din, es) && 0 < esum(es) <= funds[0].amount
}
// one burn, the swaps, the proceeds back to the user
pub open spec fn burn_in_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, dout: Seq<char>, min: int, si: Seq<SwapInfo>, msgs: Seq<MsgV>) -> bool {
    exists|es: Seq<EntV>| #[trigger] simulated_in(q, core, si, mfloor(funds[0].amount, keep_of(core_fees(q, core).burn_fee), e18()), dout, es)
        && paid(funds, core_cfg(q, core).index_denom@) && min <= esum(es) && nonneg(es)
        && msgs == (seq![burn_call(core, funds)] + out_msgs(es, me, min, esum(es))).push(finish_call(me, who, dout))
}
// ... burning no more than was paid, the unused index tokens back to the user as well
pub open spec fn burn_out_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, want: CoinV, si: Seq<SwapInfo>, msgs: Seq<MsgV>) -> bool {
    exists|x: int, es0: Seq<EntV>, b: int, es: Seq<EntV>| #[trigger] simulated_in(q, core, si, x, want.denom, es0) && #[trigger] simulated_in(q, core, si, mfloor(b, keep_of(core_fees(q, core).burn_fee), e18()), want.denom, es)
        && esum(es0) <= want.amount < esum(es0) + 5000 && x <= funds[0].amount && nonneg(es)
        && b == mfloor(x, grow_of(core_fees(q, core).burn_fee), e18()) - 1 && 0 <= b <= funds[0].amount && paid(funds, core_cfg(q, core).index_denom@)
        && msgs == (seq![burn_call(core, seq![CoinV { denom: core_cfg(q, core).index_denom@, amount: b }])] + out_msgs(es, me, esum(es), esum(es))).push(finish_call(me, who, core_cfg(q, core).index_denom@)).push(finish_call(me, who, want.denom))
}
pub open spec fn finish_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, to: Seq<char>, d: Seq<char>, msgs: Seq<MsgV>) -> bool {
    who == me && addr_ok(to) && msgs == seq![MsgV::Send { to, amount: seq![CoinV { denom: d, amount: q.bal(me, d) }] }]
}
pub open spec fn infos_of(c: SwapInfosCompact, si: Seq<SwapInfo>) -> bool { si.len() == c.0@.len() && forall|i: int| 0 <= i < si.len() ==> #[trigger] swap_info_of(c.0@[i], si[i]) }
pub open spec fn exec_post(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, msg: ExecuteMsg, msgs: Seq<MsgV>) -> bool { match msg {
    ExecuteMsg::MintExactAmountIn { core_addr, input_asset, min_output_amount, swap_info } => addr_ok(core_addr@) && exists|si: Seq<SwapInfo>| infos_of(swap_info, si) && #[trigger] mint_in_post(q, me, who, funds, core_addr@, input_asset@, min_output_amount.v as int, si, msgs),
    ExecuteMsg::MintExactAmountOut { core_addr, output_amount, input_asset, swap_info } => addr_ok(core_addr@) && exists|si: Seq<SwapInfo>| infos_of(swap_info, si) && #[trigger] mint_out_post(q, me, who, funds, core_addr@, output_amount.v as int, input_asset@, si, msgs),
    ExecuteMsg::BurnExactAmountIn { core_addr, output_asset, min_output_amount, swap_info } => addr_ok(core_addr@) && exists|si: Seq<SwapInfo>| infos_of(swap_info, si) && #[trigger] burn_in_post(q, me, who, funds, core_addr@, output_asset@, min_output_amount.v as int, si, msgs),
    ExecuteMsg::BurnExactAmountOut { core_addr, output_asset, swap_info } => addr_ok(core_addr@) && exists|si: Seq<SwapInfo>| infos_of(swap_info, si) && #[trigger] burn_out_post(q, me, who, funds, core_addr@, output_asset@, si, msgs),
    ExecuteMsg::FinishOperation { refund_to, refund_asset } => finish_post(q, me, who, refund_to@, refund_asset@, msgs),
} }
pub open spec fn migrate_post(s0: St, s1: St, force: Option<bool>, name: Seq<char>, ver: Seq<char>) -> bool {
    &&& stored_version(s1).contract@ == name && stored_version(s1).version@ == ver && s1.dom().contains(version_key())
    &&& forall|k: VKey| #![trigger s1.dom().contains(k)] #![trigger s1[k]] k != version_key() ==> s1.dom().contains(k) == s0.dom().contains(k) && s1[k] == s0[k]
    &&& (force is None || !force->0 ==> stored_version(s0).contract@ == name && ver_lt(stored_version(s0).version@, ver))
}
// ---- what the simulations report
pub open spec fn give_of(units: UV, amount: int) -> Seq<CoinV> { units.map_values(|u: (Seq<char>, int)| CoinV { denom: u.0, amount: mfloor(amount, u.1, e18()) }) }
pub open spec fn gives_for(units: UV, amount: int, f: Seq<CoinV>) -> bool { vx_perm(give_of(units, amount), f) && sorted_coins(f) }
pub open spec fn q_mint_in(q: QuerierWrapper, core: Seq<char>, a: CoinV, si: Seq<SwapInfo>, r: SimulateMintExactAmountOutResponse) -> bool {
    exists|amount: int, es: Seq<EntV>| #[trigger] simulated_out(q, core, si, amount, a.denom, es) && esum(es) <= a.amount < esum(es) + 5000
        && r.swap_result_amount@ == (CoinV { denom: a.denom, amount: esum(es) }) && funds_for(core_units(q, core), amount, coinsv(r.mint_spend_amount@))
        && r.mint_amount.v == mfloor(amount, keep_of(core_fees(q, core).mint_fee), e18()) - 100
}
pub open spec fn q_mint_out(q: QuerierWrapper, core: Seq<char>, amount: int, d: Seq<char>, si: Seq<SwapInfo>, r: SimulateMintExactAmountOutResponse) -> bool {
    exists|es: Seq<EntV>| #[trigger] simulated_out(q, core, si, amount, d, es)
        && r.swap_result_amount@ == (CoinV { denom: d, amount: esum(es) }) && funds_for(core_units(q, core), amount, coinsv(r.mint_spend_amount@))
        && r.mint_amount.v == mfloor(amount, keep_of(core_fees(q, core).mint_fee), e18())
}
pub open spec fn q_burn_in(q: QuerierWrapper, core: Seq<char>, amount: int, d: Seq<char>, si: Seq<SwapInfo>, r: SimulateBurnExactAmountInResponse) -> bool {
    let net = mfloor(amount, keep_of(core_fees(q, core).burn_fee), e18());
    exists|es: Seq<EntV>| #[trigger] simulated_in(q, core, si, net, d, es)
        && r.swap_result_amount@ == (CoinV { denom: d, amount: esum(es) }) && gives_for(core_units(q, core), net, coinsv(r.burn_redeem_amount@)) && r.burn_amount.v == net
}
pub open spec fn q_burn_out(q: QuerierWrapper, core: Seq<char>, a: CoinV, si: Seq<SwapInfo>, r: SimulateBurnExactAmountOutResponse) -> bool {
    exists|amount: int, es: Seq<EntV>| #[trigger] simulated_in(q, core, si, amount, a.denom, es) && esum(es) <= a.amount < esum(es) + 5000
        && r.swap_result_amount@ == (CoinV { denom: a.denom, amount: esum(es) }) && gives_for(core_units(q, core), amount, coinsv(r.burn_redeem_amount@))
        && r.burn_amount.v == mfloor(amount, grow_of(core_fees(q, core).burn_fee), e18())
}
pub open spec fn query_post(q: QuerierWrapper, msg: QueryMsg, out: Seq<u8>) -> bool { match msg {
    QueryMsg::SimulateMintExactAmountIn { core_addr, input_asset, swap_info } => exists|si: Seq<SwapInfo>, x: SimulateMintExactAmountOutResponse| infos_of(swap_info, si) && #[trigger] q_mint_in(q, core_addr@, input_asset@, si, x) && out == json::<SimulateMintExactAmountOutResponse>(x),
    QueryMsg::SimulateMintExactAmountOut { core_addr, output_amount, input_asset, swap_info } => exists|si: Seq<SwapInfo>, x: SimulateMintExactAmountOutResponse| infos_of(swap_info, si) && #[trigger] q_mint_out(q, core_addr@, output_amount.v as int, input_asset@, si, x) && out == json::<SimulateMintExactAmountOutResponse>(x),
    QueryMsg::SimulateBurnExactAmountIn { core_addr, input_amount, output_asset, swap_info } => exists|si: Seq<SwapInfo>, x: SimulateBurnExactAmountInResponse| infos_of(swap_info, si) && #[trigger] q_burn_in(q, core_addr@, input_amount.v as int, output_asset@, si, x) && out == json::<SimulateBurnExactAmountInResponse>(x),
    QueryMsg::SimulateBurnExactAmountOut { core_addr, output_asset, swap_info } => exists|si: Seq<SwapInfo>, x: SimulateBurnExactAmountOutResponse| infos_of(swap_info, si) && #[trigger] q_burn_out(q, core_addr@, output_asset@, si, x) && out == json::<SimulateBurnExactAmountOutResponse>(x),
} }
// ---- lemmas
pub proof fn lem_gives(units: Seq<(String, Decimal)>, amount: int, a: Seq<Coin>, b: Seq<Coin>)
    requires a.len() == units.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == (CoinV { denom: units[i].0@, amount: mfloor(amount, units[i].1.v as int, e18()) }), vx_perm(a, b),
        forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==> str_le(b[i]@.denom, b[j]@.denom),
    ensures gives_for(unitsv(units), amount, coinsv(b)),
{
    let w = choose|w: Seq<int>| #[trigger] vx_perm_by(a, b, w);
    let n = give_of(unitsv(units), amount); let f = coinsv(b);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == n[w[i]] by { assert(b[i] == a[w[i]]); assert(unitsv(units)[w[i]] == (units[w[i]].0@, units[w[i]].1.v as int)); }
    assert(vx_perm_by(n, f, w));
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies str_le(#[trigger] f[i].denom, #[trigger] f[j].denom) by { assert(f[i] == b[i]@ && f[j] == b[j]@); }
}
pub proof fn lem_funds(units: Seq<(String, Decimal)>, amount: int, a: Seq<Coin>, b: Seq<Coin>)
    requires a.len() == units.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == (CoinV { denom: units[i].0@, amount: mceil(amount, units[i].1.v as int, e18()) }), vx_perm(a, b),
        forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==> str_le(b[i]@.denom, b[j]@.denom),
    ensures funds_for(unitsv(units), amount, coinsv(b)),
{
    let w = choose|w: Seq<int>| #[trigger] vx_perm_by(a, b, w);
    let n = need_of(unitsv(units), amount); let f = coinsv(b);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == n[w[i]] by { assert(b[i] == a[w[i]]); assert(unitsv(units)[w[i]] == (units[w[i]].0@, units[w[i]].1.v as int)); }
    assert(vx_perm_by(n, f, w));
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies str_le(#[trigger] f[i].denom, #[trigger] f[j].denom) by { assert(f[i] == b[i]@ && f[j] == b[j]@); }
}
pub proof fn lem_pools_for(q: QuerierWrapper, si: Seq<SwapInfo>, ids: Seq<u64>, ps: Seq<Box<dyn crate::ibcx_pool::OsmosisPool>>)
    requires forall|i: int, j: int| 0 <= i < j < ids.len() ==> ids[i] < ids[j], forall|id: u64| ids.contains(id) <==> #[trigger] crate::ibcx_interface::periphery::mentions(si, id), pvs(ps) == pools_of(q, ids),
    ensures pools_for(q, si, pools0(ps)),
{ assert(ids_ok(si, ids)); lem_pools0v(ps); }
// the pools of given routes are determined by the routes and the chain
pub proof fn lem_ids_unique(si: Seq<SwapInfo>, a: Seq<u64>, b: Seq<u64>) requires ids_ok(si, a), ids_ok(si, b) ensures a == b
{
    assert forall|x: u64| a.contains(x) == b.contains(x) by { assert(a.contains(x) <==> crate::ibcx_interface::periphery::mentions(si, x)); assert(b.contains(x) <==> crate::ibcx_interface::periphery::mentions(si, x)); }
    lem_inc_eq(a, b);
}
pub proof fn lem_inc_eq(a: Seq<u64>, b: Seq<u64>)
    requires forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i] < a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j], forall|x: u64| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x),
    ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a.last())); assert(b.contains(a.last())); assert(b.contains(b.last())); assert(a.contains(b.last()));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == a.last(); let l = choose|l: int| 0 <= l < a.len() && a[l] == b.last();
        assert(a.last() == b.last());
        let x = a.drop_last(); let y = b.drop_last();
        assert forall|v: u64| #![trigger x.contains(v)] #![trigger y.contains(v)] x.contains(v) == y.contains(v) by {
            if x.contains(v) { let i = choose|i: int| 0 <= i < x.len() && x[i] == v; assert(a[i] == v && v < a.last()); assert(a.contains(v)); assert(b.contains(v)); let j = choose|j: int| 0 <= j < b.len() && b[j] == v; assert(j < y.len()); assert(y[j] == v); }
            if y.contains(v) { let i = choose|i: int| 0 <= i < y.len() && y[i] == v; assert(b[i] == v && v < b.last()); assert(b.contains(v)); assert(a.contains(v)); let j = choose|j: int| 0 <= j < a.len() && a[j] == v; assert(j < x.len()); assert(x[j] == v); }
        }
        lem_inc_eq(x, y);
        assert(a =~= x.push(a.last())); assert(b =~= y.push(b.last()));
    }
}
}
pub mod pfthm {
use vstd::prelude::*;
use crate::vx::*;
use crate::ms::*;
use crate::pps::*;
use crate::ps::*;
use crate::pthm::*;
use crate::cosmwasm_std::{QuerierWrapper, e18, mfloor, mceil};
use crate::ibcx_interface::periphery::{SwapInfo, ExecuteMsg};
// P02: whatever the prices turn out to be, the swaps of a mint together spend no more than the user has paid
pub proof fn p02_mint_in(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, din: Seq<char>, min: int, si: Seq<SwapInfo>, msgs: Seq<MsgV>)
    requires mint_in_post(q, me, who, funds, core, din, min, si, msgs)
    ensures exists|es: Seq<EntV>, amount: int, lim: int, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, lim, f, msgs) && spend(es, lim, esum(es)) <= funds[0].amount && min <= mfloor(amount, keep_of(core_fees(q, core).mint_fee), e18())
{
    let (es, amount, lim, f) = choose|es: Seq<EntV>, amount: int, lim: int, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, lim, f, msgs)
        && paid(funds, din) && simulated_out(q, core, si, amount, din, es) && 0 < esum(es) <= lim <= funds[0].amount
        && min <= mfloor(amount, keep_of(core_fees(q, core).mint_fee), e18());
    s01_max(es, lim);
}
pub proof fn p02_mint_out(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, amount: int, din: Seq<char>, si: Seq<SwapInfo>, msgs: Seq<MsgV>)
    requires mint_out_post(q, me, who, funds, core, amount, din, si, msgs)
    ensures exists|es: Seq<EntV>, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, funds[0].amount, f, msgs) && spend(es, funds[0].amount, esum(es)) <= funds[0].amount
{
    let (es, f) = choose|es: Seq<EntV>, f: Seq<CoinV>| #[trigger] mint_shape(q, me, who, core, din, es, amount, funds[0].amount, f, msgs)
        && paid(funds, din) && simulated_out(q, core, si, amount, din, es) && 0 < esum(es) <= funds[0].amount;
    s01_max(es, funds[0].amount);
}
// P02: the swaps of a burn can only succeed if together they return at least what the user asked for
pub proof fn p02_burn_in(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, dout: Seq<char>, min: int, si: Seq<SwapInfo>, msgs: Seq<MsgV>)
    requires burn_in_post(q, me, who, funds, core, dout, min, si, msgs), min > 0
    ensures exists|es: Seq<EntV>| #[trigger] simulated_in(q, core, si, mfloor(funds[0].amount, keep_of(core_fees(q, core).burn_fee), e18()), dout, es)
        && msgs == (seq![burn_call(core, funds)] + out_msgs(es, me, min, esum(es))).push(finish_call(me, who, dout)) && yield_(es, min, esum(es)) >= min
{
    let es = choose|es: Seq<EntV>| #[trigger] simulated_in(q, core, si, mfloor(funds[0].amount, keep_of(core_fees(q, core).burn_fee), e18()), dout, es)
        && paid(funds, core_cfg(q, core).index_denom@) && min <= esum(es) && nonneg(es)
        && msgs == (seq![burn_call(core, funds)] + out_msgs(es, me, min, esum(es))).push(finish_call(me, who, dout));
    s01_min(es, min);
}
// P02: a burn for an exact output burns no more than was paid
pub proof fn p02_burn_out(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, core: Seq<char>, want: CoinV, si: Seq<SwapInfo>, msgs: Seq<MsgV>)
    requires burn_out_post(q, me, who, funds, core, want, si, msgs)
    ensures exists|b: int| 0 <= b <= funds[0].amount && msgs[0] == #[trigger] burn_call(core, seq![CoinV { denom: core_cfg(q, core).index_denom@, amount: b }])
{
    let (x, es0, b, es) = choose|x: int, es0: Seq<EntV>, b: int, es: Seq<EntV>| #[trigger] simulated_in(q, core, si, x, want.denom, es0) && #[trigger] simulated_in(q, core, si, mfloor(b, keep_of(core_fees(q, core).burn_fee), e18()), want.denom, es)
        && esum(es0) <= want.amount < esum(es0) + 5000 && x <= funds[0].amount && nonneg(es)
        && b == mfloor(x, grow_of(core_fees(q, core).burn_fee), e18()) - 1 && 0 <= b <= funds[0].amount && paid(funds, core_cfg(q, core).index_denom@)
        && msgs == (seq![burn_call(core, seq![CoinV { denom: core_cfg(q, core).index_denom@, amount: b }])] + out_msgs(es, me, esum(es), esum(es))).push(finish_call(me, who, core_cfg(q, core).index_denom@)).push(finish_call(me, who, want.denom));
    assert(msgs[0] == burn_call(core, seq![CoinV { denom: core_cfg(q, core).index_denom@, amount: b }]));
}
// P01: nobody but the periphery can have anything paid out of its balance
pub proof fn p01(q: QuerierWrapper, me: Seq<char>, who: Seq<char>, funds: Seq<CoinV>, to: Seq<char>, d: Seq<char>, m: ExecuteMsg, msgs: Seq<MsgV>)
    requires exec_post(q, me, who, funds, m, msgs), m is FinishOperation
    ensures who == me, msgs.len() == 1
{ }
// P04: paying what the exact-output simulation reports is accepted by the limits of the mint it simulates
pub proof fn p04_mint_out(q: QuerierWrapper, core: Seq<char>, amount: int, d: Seq<char>, si: Seq<SwapInfo>, a: Seq<EntV>, b: Seq<EntV>)
    requires simulated_out(q, core, si, amount, d, a), simulated_out(q, core, si, amount, d, b)
    ensures a == b
{
    let p1 = choose|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_out(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == a, None => false };
    let p2 = choose|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_out(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == b, None => false };
    let i1 = choose|ids: Seq<u64>| #[trigger] ids_ok(si, ids) && p1 == pools0v(pools_of(q, ids));
    let i2 = choose|ids: Seq<u64>| #[trigger] ids_ok(si, ids) && p2 == pools0v(pools_of(q, ids));
    lem_ids_unique(si, i1, i2);
}
pub proof fn p04_burn_in(q: QuerierWrapper, core: Seq<char>, amount: int, d: Seq<char>, si: Seq<SwapInfo>, a: Seq<EntV>, b: Seq<EntV>)
    requires simulated_in(q, core, si, amount, d, a), simulated_in(q, core, si, amount, d, b)
    ensures a == b
{
    let p1 = choose|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_in(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == a, None => false };
    let p2 = choose|pm: PM| #[trigger] pools_for(q, si, pm) && match sim_in(q, pm, infosv(si), core_units(q, core), amount, d) { Some((e, m)) => e == b, None => false };
    let i1 = choose|ids: Seq<u64>| #[trigger] ids_ok(si, ids) && p1 == pools0v(pools_of(q, ids));
    let i2 = choose|ids: Seq<u64>| #[trigger] ids_ok(si, ids) && p2 == pools0v(pools_of(q, ids));
    lem_ids_unique(si, i1, i2);
}
}
}
