@@ crate ibcx_periphery
@@ file lib.rs
@@ fn deduct_fee(rate)
@props P02
@ens[P02] r is Ok ==> r->Ok_0.v == keep_of(rate)
@closure map.0 |v: Decimal| -> (q: Result<Decimal, ContractError>) ensures q is Ok ==> q->Ok_0.v == e18() - v.v
@@ fn expand_fee(rate)
@props P02
@ens[P02] r is Ok ==> r->Ok_0.v == grow_of(rate)
@closure map.0 |v: Decimal| -> (q: Result<Decimal, ContractError>) ensures q is Ok ==> q->Ok_0.v == mfloor(e18(), e18(), e18() - v.v)
@@ fn make_unit_converter(v)
@props P03
@ens[P03] forall|x: (String, Decimal)| #[trigger] call_requires(r, (x,))
@ens[P03] forall|x: (String, Decimal), q: Coin| #[trigger] call_ensures(r, (x,), q) ==> q@ == (CoinV { denom: x.0@, amount: mfloor(v.v as int, x.1.v as int, e18()) })
@closure call.0 move |vx_c0: (String, Decimal)| -> (q: Coin) ensures q@ == (CoinV { denom: vx_c0.0@, amount: mfloor(v.v as int, vx_c0.1.v as int, e18()) })
@@ fn make_mint_unit_converter(v)
@props P03
@ens[P03] forall|x: (String, Decimal)| #[trigger] call_requires(r, (x,))
@ens[P03] forall|x: (String, Decimal), q: Coin| #[trigger] call_ensures(r, (x,), q) ==> q@ == (CoinV { denom: x.0@, amount: mceil(v.v as int, x.1.v as int, e18()) })
@closure call.0 move |vx_c0: (String, Decimal)| -> (q: Coin) ensures q@ == (CoinV { denom: vx_c0.0@, amount: mceil(v.v as int, vx_c0.1.v as int, e18()) })
@@ fn coin_sorter(a, b)
@props P03
@ens[P03] r is Less == str_lt(a@.denom, b@.denom)
@ens[P03] r is Greater == !str_le(a@.denom, b@.denom)
@@ file execute.rs
@@ fn finish_operation(deps, env, info, refund_to, refund_asset)
@props P01
@ens[P01] r is Ok ==> finish_post(deps.querier, env.contract.address@, info.sender@, refund_to@, refund_asset@, r->Ok_0.mv())
@ens[P01] final(deps.storage)@ == old(deps.storage)@
@start let ghost me = env.contract.address@;
@tail if $r is Ok { let rm = $r->Ok_0.mv(); assert(rm.len() == 1); assert(rm[0]->Send_amount =~= seq![CoinV { denom: refund_asset@, amount: deps.querier.bal(me, refund_asset@) }]); assert(rm =~= seq![MsgV::Send { to: refund_to@, amount: rm[0]->Send_amount }]); }
@@ fn mint_exact_amount_in(deps, env, info, core_addr, desired_denom, min_index_amount, swap_info)
@props P02 P03
@ens[P02,P03] r is Ok ==> addr_ok(core_addr@) && mint_in_post(deps.querier, env.contract.address@, info.sender@, coinsv(info.funds@), core_addr@, desired_denom@, min_index_amount.v as int, swap_info@, r->Ok_0.mv())
@ens[P02] final(deps.storage)@ == old(deps.storage)@
@start let ghost q = deps.querier; let ghost who = info.sender@; let ghost me = env.contract.address@; let ghost ca = core_addr@; let ghost din = desired_denom@; let ghost si0 = swap_info@;
@closure map.0 |v: Uint128| -> (q: Coin) ensures q@ == (CoinV { denom: desired_denom@, amount: v.v as int })
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@after mint_msg_funds let ghost mf0 = mint_msg_funds@;
@before mint_msg
let ghost mf1 = mint_msg_funds@;
lem_funds(core_portfolio.units@, sim_res.est_min_token_out.v as int, mf0, mf1);
@tail if $r is Ok {
    let rm = $r->Ok_0.mv(); let ms = swap_msgs@; let n = ms.len() as int; let amt = sim_res.est_min_token_out.v as int; let lim = max_swap_input.v as int; let es = sim_res.sim_routes@;
    assert(rm.len() == n + 2);
    assert(rm[n] == mint_msg@);
    assert(mint_msg@ == mint_call(ca, amt, who, coinsv(mf1)));
    assert(rm[n + 1]->Exec_funds =~= Seq::<CoinV>::empty());
    assert(rm[n + 1] == finish_call(me, who, din));
    assert forall|i: int| 0 <= i < n implies rm[i] == msgsv(ms)[i] by { assert($r->Ok_0.msgs()[i]@ == ms[i]@); }
    assert(rm =~= msgsv(ms).push(mint_call(ca, amt, who, coinsv(mf1))).push(finish_call(me, who, din)));
    assert(mint_shape(q, me, who, ca, din, es, amt, lim, coinsv(mf1), rm));
    assert(paid(coinsv(info.funds@), din));
    assert(pools_for(q, si0, pools0(pools@)));
    assert(sim.deps.querier == q && sim.swap_info@ == si0 && sim.pools@ == pools@);
    assert(unitsv(sim.index_units@) == core_units(q, ca));
    assert(fresh_out(sim, sim_res, din));
    assert(simulated_out(q, ca, si0, amt, din, es));
    assert(0 < esum(es));
    assert(esum(es) <= lim);
    assert(lim <= coinsv(info.funds@)[0].amount);
    assert(min_index_amount.v <= mfloor(amt, keep_of(core_fees(q, ca).mint_fee), e18()));
}
@@ fn mint_exact_amount_out(deps, env, info, core_addr, index_amount, input_denom, swap_info)
@props P02 P03
@ens[P02,P03] r is Ok ==> addr_ok(core_addr@) && mint_out_post(deps.querier, env.contract.address@, info.sender@, coinsv(info.funds@), core_addr@, index_amount.v as int, input_denom@, swap_info@, r->Ok_0.mv())
@ens[P02] final(deps.storage)@ == old(deps.storage)@
@start let ghost q = deps.querier; let ghost who = info.sender@; let ghost me = env.contract.address@; let ghost ca = core_addr@; let ghost din = input_denom@; let ghost si0 = swap_info@;
@closure map.0 |v: Uint128| -> (q: Coin) ensures q@ == (CoinV { denom: input_denom@, amount: v.v as int })
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@lettype mint_msg_funds Vec<Coin>
@after mint_msg_funds let ghost mf0 = mint_msg_funds@;
@before mint_msg
let ghost mf1 = mint_msg_funds@;
lem_funds(core_portfolio.units@, index_amount.v as int, mf0, mf1);
@tail if $r is Ok {
    let rm = $r->Ok_0.mv(); let ms = swap_msgs@; let n = ms.len() as int; let amt = index_amount.v as int; let lim = input_asset.amount.v as int; let es = sim_res.sim_routes@;
    assert(rm.len() == n + 2);
    assert(rm[n] == mint_msg@);
    assert(mint_msg@ == mint_call(ca, amt, who, coinsv(mf1)));
    assert(rm[n + 1]->Exec_funds =~= Seq::<CoinV>::empty());
    assert(rm[n + 1] == finish_call(me, who, din));
    assert forall|i: int| 0 <= i < n implies rm[i] == msgsv(ms)[i] by { assert($r->Ok_0.msgs()[i]@ == ms[i]@); }
    assert(rm =~= msgsv(ms).push(mint_call(ca, amt, who, coinsv(mf1))).push(finish_call(me, who, din)));
    assert(paid(coinsv(info.funds@), din));
    assert(lim == coinsv(info.funds@)[0].amount);
    assert(mint_shape(q, me, who, ca, din, es, amt, lim, coinsv(mf1), rm));
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_out(q, ca, si0, amt, din, es));
    assert(0 < esum(es) <= lim);
}
@@ fn burn_exact_amount_in(deps, env, info, core_addr, output_denom, min_output_amount, swap_info)
@props P02 P03
@ens[P02,P03] r is Ok ==> addr_ok(core_addr@) && burn_in_post(deps.querier, env.contract.address@, info.sender@, coinsv(info.funds@), core_addr@, output_denom@, min_output_amount.v as int, swap_info@, r->Ok_0.mv())
@ens[P02] final(deps.storage)@ == old(deps.storage)@
@start let ghost q = deps.querier; let ghost who = info.sender@; let ghost me = env.contract.address@; let ghost ca = core_addr@; let ghost dout = output_denom@; let ghost si0 = swap_info@;
@closure map.0 |v: Uint128| -> (q: Coin) ensures q@ == (CoinV { denom: core_config.index_denom@, amount: v.v as int })
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@tail if $r is Ok {
    let rm = $r->Ok_0.mv(); let ms = swap_msgs@; let n = ms.len() as int; let lim = min_output_amount.v as int; let es = sim_res.sim_routes@; let fs = coinsv(info.funds@);
    assert(rm.len() == n + 2);
    assert($r->Ok_0.msgs().drop_last()[0] == $r->Ok_0.msgs()[0]);
    assert(rm[0] == burn_msg@);
    assert(paid(fs, core_cfg(q, ca).index_denom@));
    assert(burn_msg@->Exec_funds =~= fs);
    assert(burn_msg@ == burn_call(ca, fs));
    assert(rm[n + 1]->Exec_funds =~= Seq::<CoinV>::empty());
    assert(rm[n + 1] == finish_call(me, who, dout));
    assert forall|i: int| 0 <= i < n implies rm[i + 1] == msgsv(ms)[i] by { assert($r->Ok_0.msgs()[i + 1]@ == ms[i]@); }
    assert(rm =~= (seq![burn_call(ca, fs)] + msgsv(ms)).push(finish_call(me, who, dout)));
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_in(q, ca, si0, mfloor(fs[0].amount, keep_of(core_fees(q, ca).burn_fee), e18()), dout, es));
    assert(lim <= esum(es));
}
@@ fn burn_exact_amount_out(deps, env, info, core_addr, desired_output, swap_info)
@props P02 P03
@ens[P02,P03] r is Ok ==> addr_ok(core_addr@) && burn_out_post(deps.querier, env.contract.address@, info.sender@, coinsv(info.funds@), core_addr@, desired_output@, swap_info@, r->Ok_0.mv())
@ens[P02] final(deps.storage)@ == old(deps.storage)@
@start let ghost q = deps.querier; let ghost who = info.sender@; let ghost me = env.contract.address@; let ghost ca = core_addr@; let ghost want = desired_output@; let ghost si0 = swap_info@;
@closure map.0 |v: Uint128| -> (q: Coin) ensures q@ == (CoinV { denom: core_config.index_denom@, amount: v.v as int })
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@before burn_amount let ghost est0 = sim_res.min;
@tail if $r is Ok {
    let rm = $r->Ok_0.mv(); let ms = swap_msgs@; let n = ms.len() as int; let es = sim_res.sim_routes@; let fs = coinsv(info.funds@); let b = burn_amount.v as int; let di = core_cfg(q, ca).index_denom@;
    let x = est0.est_min_token_in.v as int; let es0 = est0.sim_routes@; let bf = seq![CoinV { denom: di, amount: b }];
    assert(rm.len() == n + 3);
    assert(rm[0] == burn_msg@);
    assert(paid(fs, di));
    assert(burn_msg@->Exec_funds =~= bf);
    assert(burn_msg@ == burn_call(ca, bf));
    assert(rm[n + 1]->Exec_funds =~= Seq::<CoinV>::empty());
    assert(rm[n + 1] == finish_call(me, who, di));
    assert(rm[n + 2]->Exec_funds =~= Seq::<CoinV>::empty());
    assert(rm[n + 2] == finish_call(me, who, want.denom));
    assert forall|i: int| 0 <= i < n implies rm[i + 1] == msgsv(ms)[i] by { assert($r->Ok_0.msgs()[i + 1]@ == ms[i]@); }
    assert(rm =~= (seq![burn_call(ca, bf)] + msgsv(ms)).push(finish_call(me, who, di)).push(finish_call(me, who, want.denom)));
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_in(q, ca, si0, x, want.denom, es0));
    assert(simulated_in(q, ca, si0, mfloor(b, keep_of(core_fees(q, ca).burn_fee), e18()), want.denom, es));
    assert(esum(es0) <= want.amount < esum(es0) + 5000);
    assert(x <= fs[0].amount);
    assert(b == mfloor(x, grow_of(core_fees(q, ca).burn_fee), e18()) - 1);
    assert(0 <= b <= fs[0].amount);
}
@@ file contract.rs
@@ fn instantiate(deps, _env, _info, _msg)
@props U01
@ens[U01] r is Ok ==> stored_version(final(deps.storage)@).contract@ == CONTRACT_NAME@ && stored_version(final(deps.storage)@).version@ == CONTRACT_VERSION@ && r->Ok_0.mv() == Seq::<MsgV>::empty()
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ fn execute(deps, env, info, msg)
@props P01 P02 P03
@ens[P01,P02,P03] r is Ok ==> exec_post(deps.querier, env.contract.address@, info.sender@, coinsv(info.funds@), msg, r->Ok_0.mv())
@ens[P01] final(deps.storage)@ == old(deps.storage)@
@@ fn migrate(deps, _env, msg)
@props U01
@ens[U01] r is Ok ==> migrate_post(old(deps.storage)@, final(deps.storage)@, msg.force, CONTRACT_NAME@, CONTRACT_VERSION@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ fn to_binary(r) -> vx_r
@props P02
@ens[P02] vx_r is Ok ==> r is Ok && vx_r->Ok_0@ == json::<T>(r->Ok_0)
@closure map.0 |v: T| -> (q: crate::cosmwasm_std::StdResult<crate::cosmwasm_std::Binary>) ensures q is Ok ==> q->Ok_0@ == json::<T>(v)
@@ fn query(deps, env, msg)
@props P04
@ens[P04] r is Ok ==> query_post(deps.querier, msg, r->Ok_0@)
@@ file query.rs
@@ fn simulate_mint_exact_amount_in(deps, _env, core_addr, input_asset, swap_info)
@props P04
@ens[P04] r is Ok ==> q_mint_in(deps.querier, core_addr@, input_asset@, swap_info@, r->Ok_0)
@start let ghost q = deps.querier; let ghost ca = core_addr@; let ghost a0 = input_asset@; let ghost si0 = swap_info@;
@closure sort_by.0 |a: &Coin, b: &Coin| -> (o: std::cmp::Ordering) ensures o is Less == str_lt(a@.denom, b@.denom), o is Greater == !str_le(a@.denom, b@.denom)
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@lettype mint_spend_amount Vec<Coin>
@after mint_spend_amount let ghost mf0 = mint_spend_amount@;
@tail if $r is Ok {
    let amt = sim_res.est_min_token_out.v as int; let es = sim_res.sim_routes@;
    lem_funds(core_portfolio.units@, amt, mf0, $r->Ok_0.mint_spend_amount@);
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_out(q, ca, si0, amt, a0.denom, es));
    assert(q_mint_in(q, ca, a0, si0, $r->Ok_0));
}
@@ fn simulate_mint_exact_amount_out(deps, _env, core_addr, index_amount, input_asset, swap_info)
@props P04
@ens[P04] r is Ok ==> q_mint_out(deps.querier, core_addr@, index_amount.v as int, input_asset@, swap_info@, r->Ok_0)
@start let ghost q = deps.querier; let ghost ca = core_addr@; let ghost d0 = input_asset@; let ghost si0 = swap_info@;
@closure sort_by.0 |a: &Coin, b: &Coin| -> (o: std::cmp::Ordering) ensures o is Less == str_lt(a@.denom, b@.denom), o is Greater == !str_le(a@.denom, b@.denom)
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@lettype mint_spend_amount Vec<Coin>
@after mint_spend_amount let ghost mf0 = mint_spend_amount@;
@tail if $r is Ok {
    let amt = index_amount.v as int; let es = sim_res.sim_routes@;
    lem_funds(core_portfolio.units@, amt, mf0, $r->Ok_0.mint_spend_amount@);
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_out(q, ca, si0, amt, d0, es));
    assert(q_mint_out(q, ca, amt, d0, si0, $r->Ok_0));
}
@@ fn simulate_burn_exact_amount_in(deps, _env, core_addr, index_amount, output_asset, swap_info)
@props P04
@ens[P04] r is Ok ==> q_burn_in(deps.querier, core_addr@, index_amount.v as int, output_asset@, swap_info@, r->Ok_0)
@start let ghost q = deps.querier; let ghost ca = core_addr@; let ghost d0 = output_asset@; let ghost si0 = swap_info@;
@closure sort_by.0 |a: &Coin, b: &Coin| -> (o: std::cmp::Ordering) ensures o is Less == str_lt(a@.denom, b@.denom), o is Greater == !str_le(a@.denom, b@.denom)
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@lettype burn_redeem_amount Vec<Coin>
@after burn_redeem_amount let ghost mf0 = burn_redeem_amount@;
@tail if $r is Ok {
    let amt = burn_amount.v as int; let es = sim_res.sim_routes@;
    lem_gives(core_portfolio.units@, amt, mf0, $r->Ok_0.burn_redeem_amount@);
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_in(q, ca, si0, amt, d0, es));
    assert(q_burn_in(q, ca, index_amount.v as int, d0, si0, $r->Ok_0));
}
@@ fn simulate_burn_exact_amount_out(deps, _env, core_addr, output_asset, swap_info)
@props P04
@ens[P04] r is Ok ==> q_burn_out(deps.querier, core_addr@, output_asset@, swap_info@, r->Ok_0)
@start let ghost q = deps.querier; let ghost ca = core_addr@; let ghost a0 = output_asset@; let ghost si0 = swap_info@;
@closure sort_by.0 |a: &Coin, b: &Coin| -> (o: std::cmp::Ordering) ensures o is Less == str_lt(a@.denom, b@.denom), o is Greater == !str_le(a@.denom, b@.denom)
@after pools lem_pools_for(q, si0, pool_ids@, pools@);
@lettype burn_redeem_amount Vec<Coin>
@after burn_redeem_amount let ghost mf0 = burn_redeem_amount@;
@tail if $r is Ok {
    let amt = sim_res.est_min_token_in.v as int; let es = sim_res.sim_routes@;
    lem_gives(core_portfolio.units@, amt, mf0, $r->Ok_0.burn_redeem_amount@);
    assert(pools_for(q, si0, pools0(pools@)));
    assert(simulated_in(q, ca, si0, amt, a0.denom, es));
    assert(q_burn_out(q, ca, a0, si0, $r->Ok_0));
}
