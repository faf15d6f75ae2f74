@@ crate ibcx_core
@@ file execute/token.rs
@@ fn unwrap_addr(api, addr, fallback)
@props C01 C02
@ens[C01,C02] r is Ok ==> who_ok(addr, *fallback, r->Ok_0@)
@closure map.0 |v: String| -> (q: crate::cosmwasm_std::StdResult<Addr>) ensures q is Ok ==> q->Ok_0@ == v@ && addr_ok(v@)
@closure unwrap_or_else.0 || -> (q: Addr) ensures q == *fallback
@@ fn mint_event(sender, receiver, refund_to, amount)
@props C01
@@ fn burn_event(sender, redeem_to, amount)
@props C02
@@ fn mint(deps, env, info, amount, receiver, refund_to)
@props C01 C03 C04
@ens[C04] r is Ok ==> gates(old(deps.storage)@, env)
@ens[C01,C03,P03] r is Ok ==> mint_post(old(deps.storage)@, final(deps.storage)@, env, info, amount.v as int, receiver, refund_to, r->Ok_0.mv())
@closure map.0 |v: crate::cosmwasm_std::Decimal| -> (q: Uint128) ensures q.v == (if mfloor(amount.v as int, v.v as int, e18()) >= 1 { mfloor(amount.v as int, v.v as int, e18()) } else { 1 })
@closure map.1 |v: Uint128| -> (q: BankMsg) ensures q is Send && q->to_address@ == fee.collector@ && q->Send_amount@.len() == 1 && q->Send_amount@[0]@ == (CoinV { denom: config.index_denom@, amount: v.v as int })
@closure map.2 |v: BankMsg| -> (q: CosmosMsg) ensures q == CosmosMsg::<crate::cosmwasm_std::Empty>::Bank(v)
@after msgs
let ghost gm = msgs@;
reveal_with_fuel(vx_flat, 6);
assert(gm.len() >= 3);
@start
let ghost receiver0 = receiver;
let ghost refund0 = refund_to;
let ghost info0 = info;
@tail
if $r is Ok {
    let rs = $r->Ok_0.msgs();
    assert(rs.len() == gm.len());
    assert forall|i: int| 0 <= i < gm.len() implies #[trigger] rs[i] == gm[i] by { assert(gm[i].vx_into_spec(rs[i])); }
    let st0 = old(deps.storage)@; let st1 = deps.storage@;
    let ms = $r->Ok_0.mv();
    let c = s_cfg(st0); let f = s_fee(st0); let n = amount.v as int;
    assert(s_sup(st1) == s_sup(st0) + n);
    let k = ms.len() as int;
    let rcv = ms[k - 2]->Send_to; let rto = ms[k - 1]->Send_to; let rf = ms[k - 1]->Send_amount;
    assert(ms[k - 2]->Send_amount =~= one_cv(c.index_denom@, n - x_mint_fee(f, n)));
    if k == 4 { assert(ms[1]->Send_amount =~= one_cv(c.index_denom@, x_mint_fee(f, n))); }
    assert(ms =~= mint_msgs(env, c, f, n, rcv, rto, rf));
    assert(mint_ok(st0, env, info0, n, receiver0, refund0, ms, rcv, rto, rf));
}
@@ fn burn(deps, env, info, redeem_to)
@props C02 C03 C04
@ens[C04] r is Ok ==> gates(old(deps.storage)@, env)
@ens[C02,C03] r is Ok ==> burn_post(old(deps.storage)@, final(deps.storage)@, env, info, redeem_to, r->Ok_0.mv())
@closure map.0 |v: crate::cosmwasm_std::Decimal| -> (q: Uint128) ensures q.v == mfloor(received.v as int, v.v as int, e18())
@closure map.1 |v: Uint128| -> (q: BankMsg) ensures q is Send && q->to_address@ == fee.collector@ && q->Send_amount@.len() == 1 && q->Send_amount@[0]@ == (CoinV { denom: config.index_denom@, amount: v.v as int })
@closure map.2 |v: BankMsg| -> (q: CosmosMsg) ensures q == CosmosMsg::<crate::cosmwasm_std::Empty>::Bank(v)
@after msgs
let ghost gm = msgs@;
reveal_with_fuel(vx_flat, 6);
assert(gm.len() >= 2);
@after burn_send_amount let ghost bs0 = burn_send_amount@;
@before burn_msg let ghost bs1 = burn_send_amount@;
@start
let ghost info0 = info;
let ghost redeem0 = redeem_to;
@tail
if $r is Ok {
    let rs = $r->Ok_0.msgs();
    assert(rs.len() == gm.len());
    assert forall|i: int| 0 <= i < gm.len() implies #[trigger] rs[i] == gm[i] by { assert(gm[i].vx_into_spec(rs[i])); }
    let st0 = old(deps.storage)@; let st1 = deps.storage@;
    let ms = $r->Ok_0.mv();
    let c = s_cfg(st0); let f = s_fee(st0); let paid = info0.funds@[0].amount.v as int;
    let b = paid - x_burn_fee(f, paid);
    assert(s_sup(st1) == s_sup(st0) - b);
    let k = ms.len() as int;
    let to = ms[k - 1]->Send_to; let out = ms[k - 1]->Send_amount;
    if k == 3 { assert(ms[1]->Send_amount =~= one_cv(c.index_denom@, x_burn_fee(f, paid))); }
    assert(ms =~= burn_msgs(env, c, f, paid, to, out));
    l_perm_coins(bs0, bs1);
    assert(vx_perm(pays(s_idx(st0), b), out));
    assert(burn_ok(st0, env, info0, redeem0, ms, paid, to, out));
}

@@ file execute/fee.rs
@@ fn collect_streaming_fee(storage, now_in_sec)
@props C10 C03
@ens[C10,C03,C11,C12,C13] r is Ok ==> accr_post(old(storage)@, final(storage)@, now_in_sec as int)
@@ fn realize_streaming_fee(deps, info)
@props C11 C03
@ens[C11,C03] r is Ok ==> realize_post(old(deps.storage)@, final(deps.storage)@, info, r->Ok_0.mv())
@before attrs let ghost gm = msgs@;
@tail
if $r is Ok {
    let rs = $r->Ok_0.msgs();
    let f0 = s_fee(old(deps.storage)@);
    assert(rs.len() == gm.len());
    assert forall|i: int| 0 <= i < gm.len() implies #[trigger] rs[i] == gm[i] by { assert(gm[i].vx_into_spec(rs[i])); }
    if gm.len() == 1 { assert($r->Ok_0.mv() =~= seq![m_send(f0.collector@, coinsv(f0.streaming_fee->0.collected@))]); } else { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
}
@@ file execute/gov/pause.rs
@@ fn pause(deps, env, info, expires_at)
@props C04 C05
@ens[C04,C05] r is Ok ==> pause_post(old(deps.storage)@, final(deps.storage)@, env, info, expires_at) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn release(deps, env, info)
@props C04 C05
@ens[C04,C05] r is Ok ==> release_post(old(deps.storage)@, final(deps.storage)@, env, info) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ file execute/gov/update.rs
@@ fn update_gov(deps, info, new_gov)
@props C05
@ens[C05] r is Ok ==> update_gov_post(old(deps.storage)@, final(deps.storage)@, info, new_gov) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn accept_gov(deps, info)
@props C05
@ens[C05] r is Ok ==> accept_gov_post(old(deps.storage)@, final(deps.storage)@, info) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn revoke_gov(deps, info)
@props C05
@ens[C05] r is Ok ==> revoke_gov_post(old(deps.storage)@, final(deps.storage)@, info) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn update_fee(deps, env, info, new_fee)
@props C05 C11 C12
@ens[C05,C11,C12,C03,C06] r is Ok ==> update_fee_post(old(deps.storage)@, final(deps.storage)@, env, info, new_fee, r->Ok_0.mv())
@closure map.0 |v: crate::ibcx_interface::core::StreamingFeePayload| -> (q: StreamingFee) ensures q.rate == v.rate && q.freeze == v.freeze && q.collected@.len() == 0 && q.last_collected_at == env.block.time.sec()
@before attrs let ghost gm = msgs@;
@tail
if $r is Ok {
    let rs = $r->Ok_0.msgs();
    let f0 = s_fee(old(deps.storage)@);
    assert(rs.len() == gm.len());
    assert forall|i: int| 0 <= i < gm.len() implies #[trigger] rs[i] == gm[i] by { assert(gm[i].vx_into_spec(rs[i])); }
    if gm.len() == 1 { assert($r->Ok_0.mv() =~= seq![m_send(f0.collector@, coinsv(f0.streaming_fee->0.collected@))]); } else { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
}
@@ fn update_rebalance_manager(deps, info, new_manager)
@props C05 C06
@ens[C05,C06] r is Ok ==> update_mgr_post(old(deps.storage)@, final(deps.storage)@, info, new_manager) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@closure map.0 |v: String| -> (q: crate::cosmwasm_std::StdResult<crate::cosmwasm_std::Addr>) ensures q is Ok ==> q->Ok_0@ == v@ && addr_ok(v@)
@@ fn update_reserve_denom(deps, info, new_denom)
@props C05
@ens[C05,C03] r is Ok ==> update_reserve_post(old(deps.storage)@, final(deps.storage)@, info, new_denom) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn update_trade_info(deps, info, denom_in, routes, cooldown, max_trade_amount)
@props C05 T01
@ens[C05,T01,C08] r is Ok ==> update_trade_post(old(deps.storage)@, final(deps.storage)@, info, denom_in, routes, cooldown, max_trade_amount.v as int) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ file execute/gov/mod.rs
@@ fn handle_msg(deps, env, info, msg)
@props C05 C04
@ens[C05,C04,C11,C12,C06] r is Ok ==> gov_post(old(deps.storage)@, final(deps.storage)@, env, info, msg, r->Ok_0.mv())
