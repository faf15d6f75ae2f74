@@ crate ibcx_core
@@ file contract.rs
@@ fn instantiate(deps, env, _info, msg)
@props C12 C14
@ens[C12,C14,C05,C13] r is Ok ==> inst_post(final(deps.storage)@, env, msg)
@ens[C05] r is Ok ==> r->Ok_0.mv() == seq![MsgV::Create { sender: env.contract.address@, sub: msg.index_denom@ }] && r->Ok_0.replies() == seq![true]
@closure map.0 |v: crate::ibcx_interface::core::StreamingFeePayload| -> (q: StreamingFee) ensures q.rate == v.rate && q.freeze == v.freeze && q.collected@.len() == 0 && q.last_collected_at == env.block.time.sec()
@tail
if $r is Ok {
    assert($r->Ok_0.mv() =~= seq![MsgV::Create { sender: env.contract.address@, sub: msg.index_denom@ }]);
    assert($r->Ok_0.replies() =~= seq![true]);
}
@@ fn execute(deps, env, info, msg)
@props C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14
@ens[C01,C03,C04] r is Ok ==> (msg is Mint ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv()))
@ens[C02,C03,C04] r is Ok ==> (msg is Burn ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv()))
@ens[C11,C03] r is Ok ==> (msg is Realize ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv()))
@ens[C05,C04,C11,C12,C03] r is Ok ==> (msg is Gov ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv()))
@ens[C06,C07,C08,C09,C03] r is Ok ==> (msg is Rebalance ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv()))
@ens[C03,C10,C14] r is Ok ==> execute_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv())
@@ fn reply(deps, _env, msg)
@props C05
@ens[C05] r is Ok ==> reply_post(old(deps.storage)@, final(deps.storage)@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn to_binary(res)
@props C13
@ens[C13,L01] r is Ok ==> res is Ok && r->Ok_0@ == json::<T>(res->Ok_0)
@@ fn query(deps, env, msg)
@props C13 L01
@ens[C13,L01] r is Ok ==> query_post(deps.storage@, deps.querier, env, msg, r->Ok_0@)
@@ fn migrate(deps, _env, msg)
@props U01
@ens[U01] r is Ok ==> migrate_post(old(deps.storage)@, final(deps.storage)@, msg.force) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ file query.rs
@@ fn get_balance(deps, _env, account)
@props C13
@ens[C13] r is Ok ==> r->Ok_0.v == deps.querier.bal(account@, s_cfg(deps.storage@).index_denom@)
@@ fn get_total_supply(deps, _env)
@props C13
@ens[C13] r is Ok ==> r->Ok_0.v == s_sup(deps.storage@)
@@ fn get_config(deps, env, time)
@props C13 C04
@ens[C13,C04] r is Ok ==> q_config(deps.storage@, env, time, r->Ok_0)
@@ fn get_fee(deps, env, time)
@props C13 C10
@ens[C13,C10,C12] r is Ok ==> q_fee(deps.storage@, at(env, time), r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::StreamingFee| -> (q: StreamingFeeResponse) ensures q.rate == v.rate && q.collected == v.collected && q.freeze == v.freeze && q.last_collected_at == v.last_collected_at
@@ fn get_portfolio(deps, env, time)
@props C13 C10
@ens[C13,C10] r is Ok ==> q_portfolio(deps.storage@, at(env, time), r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::StreamingFee| -> (q: StdResult<crate::ibcx_core::state::Units>) ensures q is Ok ==> q->Ok_0@ == acc_units(v, index_units@, time_in_sec as int)
@@ fn get_rebalance(deps, _env)
@props C13
@ens[C13] r is Ok ==> q_rebalance(deps.storage@, r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::Rebalance| -> (q: RebalancePayload) ensures q.manager == v.manager && q.deflation@ == v.deflation.0@ && q.inflation@ == v.inflation.0@
@@ fn conv_trade_info(denom_in, denom_out, trade_info)
@props C13
@ens[C13] ti_is(trade_info, denom_in@, denom_out@, r)
@@ fn get_trade_info(deps, denom_in, denom_out)
@props C13
@ens[C13] r is Ok ==> q_trade(deps.storage@, denom_in@, denom_out@, r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::TradeInfo| -> (q: TradeInfoPayload) ensures ti_is(v, denom_in@, denom_out@, q)
@@ fn list_trade_info(deps, denom_in, start_after, limit, order)
@props C13 L01
@ens[L01,C13] r is Ok ==> q_trades(deps.storage@, denom_in@, start_after, limit, order, r->Ok_0.0@)
@closure map.0 |v: crate::cosmwasm_std::StdResult<(String, crate::ibcx_core::state::TradeInfo)>| -> (q: StdResult<TradeInfoPayload>) ensures q is Ok ==> v is Ok && ti_is((v->Ok_0).1, denom_in@, (v->Ok_0).0@, q->Ok_0)
@start
let ghost sa0 = start_after; let ghost li0 = limit; let ghost or0 = order;
@tail
if $r is Ok {
    let asc = asc_of(or0); let sk = sk_of(sa0);
    assert(obs(min) == lo_of(sk, asc));
    assert(obs(max) == hi_of(sk, asc));
    assert(order == ord_of(asc));
    let st = deps.storage@; let a = denom_in@; let rr = $r->Ok_0.0@;
    let key = pk_key(PKey::S(ti_prefix(), a));
    assert forall|k: Seq<char>| #[trigger] key(k) == k_ti(a, k) by {}
    assert(limit as int == lim_of(li0) && lim_of(li0) <= 30);
    assert(exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, key, lo_of(sk, asc), hi_of(sk, asc), ord_of(asc), ks) && rr.len() == page_len(limit as int, ks.len() as int) && (forall|i: int| 0 <= i < rr.len() ==> ti_is(dec::<crate::ibcx_core::state::TradeInfo>(st[key(ks[i])]), a, ks[i], #[trigger] rr[i])));
    assert(q_trades(st, a, sa0, li0, or0, rr));
}
@@ fn simulate_mint(deps, env, amount, funds, time)
@props C13
@ens[C13] r is Ok ==> sim_mint_post(deps.storage@, at(env, time), amount.v as int, funds, r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::StreamingFee| -> (q: StdResult<crate::ibcx_core::state::Units>) ensures q is Ok ==> q->Ok_0@ == acc_units(v, index_units@, time_in_sec as int)
@closure map.1 |v: crate::cosmwasm_std::Decimal| -> (q: Uint128) ensures q.v == (if mfloor(amount.v as int, v.v as int, e18()) >= 1 { mfloor(amount.v as int, v.v as int, e18()) } else { 1 })
@closure unwrap_or_else.0 || -> (q: Vec<Coin>) ensures coinsv(q@) == coinsv(spent@)
@@ fn simulate_burn(deps, env, amount, time)
@props C13
@ens[C13] r is Ok ==> sim_burn_post(deps.storage@, at(env, time), amount.v as int, r->Ok_0)
@closure map.0 |v: crate::ibcx_core::state::StreamingFee| -> (q: StdResult<crate::ibcx_core::state::Units>) ensures q is Ok ==> q->Ok_0@ == acc_units(v, index_units@, time_in_sec as int)
@closure map.1 |v: crate::cosmwasm_std::Decimal| -> (q: Uint128) ensures q.v == mfloor(amount.v as int, v.v as int, e18())
