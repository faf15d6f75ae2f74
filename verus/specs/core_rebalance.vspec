@@ crate ibcx_core
@@ file execute/rebalance/init.rs
@@ fn freeze_streaming_fee(storage)
@props C06
@ens[C06,C10] r is Ok ==> freeze_post(old(storage)@, final(storage)@)
@closure update.0 |v: crate::ibcx_core::state::Fee| -> (q: StdResult<crate::ibcx_core::state::Fee>) ensures q is Ok ==> fee_but_stream(v, q->Ok_0) && (v.streaming_fee is Some ==> frozen(v.streaming_fee->0, true, v.streaming_fee->0.last_collected_at as int, q->Ok_0.streaming_fee->0))
@@ fn init(deps, info, manager, deflation, inflation)
@props C05 C06 C07
@ens[C05,C06,C07,C10] r is Ok ==> init_post(old(deps.storage)@, final(deps.storage)@, info, manager, deflation@, inflation@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@closure map.0 |v: String| -> (q: crate::cosmwasm_std::StdResult<crate::cosmwasm_std::Addr>) ensures q is Ok ==> q->Ok_0@ == v@ && addr_ok(v@)
@@ file execute/rebalance/finalize.rs
@@ fn unfreeze_streaming_fee(storage, now_in_sec)
@props C06
@ens[C06,C10] r is Ok ==> unfreeze_post(old(storage)@, final(storage)@, now_in_sec as int)
@@ fn finalize(deps, env, info)
@props C06 C09
@ens[C06,C09,C03] r is Ok ==> finalize_post(old(deps.storage)@, final(deps.storage)@, env, info) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@closure filter.0 |p: &(String, crate::cosmwasm_std::Decimal)| -> (q: bool) ensures q == (p.1.v != 0)
@after index_units
let ghost iu = index_units.0@;
@loop 0
invariant uview(iu) == s_idx(old(deps.storage)@), index_units.0@ == iu, forall|i: int| 0 <= i < vx_i0 ==> met(s_idx(old(deps.storage)@), #[trigger] uview(vx_it0@)[i])
@loopend 0
l_met(s_idx(old(deps.storage)@), denom@, current_unit.v as int, target_unit.v as int);
assert(uview(vx_it0@)[vx_i0 - 1] == (denom@, target_unit.v as int));
@tail
if $r is Ok {
    assert forall|keep: Seq<bool>| keep.len() == iu.len() && (forall|i: int| 0 <= i < iu.len() ==> #[trigger] keep[i] == (iu[i].1.v != 0)) implies uview(#[trigger] vx_kept(iu, keep)) == drop_zero(uview(iu)) by {
        l_kept_map(iu, keep, |p: crate::ibcx_core::state::units::Unit| (p.0@, p.1.v as int));
        l_drop_zero(uview(iu), keep);
    }
}
@@ file execute/rebalance/mod.rs
@@ fn handle_msg(deps, env, info, msg)
@props C05 C06 C07 C08 C09
@ens[C05,C06,C07,C08,C09] r is Ok ==> reb_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv())
@@ file execute/rebalance/trade/mod.rs
@@ fn load_units(storage)
@props C08
@ens[C08] r is Ok ==> (r->Ok_0).0@ == s_idx(storage@) && (r->Ok_0).1@ == s_res(storage@) && (r->Ok_0).2.v == s_sup(storage@)
@@ fn calc_deduct_unit(amount, total_supply)
@props C08 C03
@ens[C08,C03] r is Ok ==> total_supply.v > 0 && r->Ok_0.v == mceil(amount.v as int, e18(), total_supply.v as int)
@after unit
l_ceil_unit(amount.v as int, total_supply.v as int, unit.v as int, mfloor(total_supply.v as int, unit.v as int, e18()));
@@ fn trade(deps, env, info, msg)
@props C06 C08
@ens[C06,C08,C03] r is Ok ==> trade_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, info, msg, r->Ok_0.mv())
@@ file execute/rebalance/trade/deflate.rs
@@ fn deflate_index_unit(index_units, target_denom, deflate_unit)
@props C08 C03
@ens[C08,C03] r is Ok ==> sub_post(old(index_units)@, target_denom@, deflate_unit.v as int, final(index_units)@)
@@ fn inflate_reserve_unit(reserve_units, inflate_unit, inflations)
@props C08 C03
@ens[C08,C03] r is Ok ==> final(reserve_units)@ == spread_all(old(reserve_units)@, inflations@, inflate_unit.v as int) && usum(final(reserve_units)@) <= usum(old(reserve_units)@) + inflate_unit.v
@closure map.0 |p: &(String, Decimal)| -> (q: Decimal) ensures q.v == p.1.v
@start
let ghost infl0 = inflations@;
let ghost infls = inflations.0@;
let ghost res0 = reserve_units@;
@after total_weight
l_dsum_u(infls, total_weight.v as int);
assert(infl0.skip(0) =~= infl0);
@loop 0
invariant vx_it0@ == infls, usum(reserve_units@) + expand_unit.v == usum(res0) + inflate_unit.v, infl0 == uview(infls), spread(res0, infl0, inflate_unit.v as int, usum(infl0)) == spread(reserve_units@, infl0.skip(vx_i0 as int), expand_unit.v as int, total_weight.v as int)
@loopstart 0
let ghost cur = reserve_units@; let ghost x1 = expand_unit.v as int; let ghost tw1 = total_weight.v as int;
@loopend 0
let i = vx_i0 - 1;
let s1 = infl0.skip(i);
assert(s1[0] == (denom@, weight.v as int));
assert(s1.skip(1) =~= infl0.skip(i + 1));
l_uadd(cur, denom@, sub_unit.v as int, reserve_units@); l_add_usum(cur, denom@, sub_unit.v as int, reserve_units@);
assert(spread(cur, s1, x1, tw1) == spread(reserve_units@, s1.skip(1), expand_unit.v as int, total_weight.v as int));
@tail
assert(infl0.skip(infl0.len() as int).len() == 0);
@@ fn deflate_reserve(deps, info, reserve_denom)
@props C08 C03
@ens[C08,C03] r is Ok ==> deflate_reserve_post(old(deps.storage)@, final(deps.storage)@, reserve_denom@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn deflate(deps, env, info, target_denom, amount_out, max_amount_in)
@props C08 C03
@ens[C08,C03] r is Ok ==> deflate_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, target_denom@, amount_out.v as int, max_amount_in.v as int, r->Ok_0.mv())
@after index_deduct_unit
l_ceil_gap(sim_amount_in.v as int, unit_gap.v as int, total_supply.v as int);
assert(unit_gap.v * total_supply.v == total_supply.v * unit_gap.v) by(nonlinear_arith);
let ghost g_t = target_unit.v as int; let ghost g_c = current_unit.v as int; let ghost g_s = sim_amount_in.v as int;
@tail
if $r is Ok {
    let st0 = old(deps.storage)@;
    let rd = s_cfg(st0).reserve_denom@; let t = s_ti(st0, target_denom@, rd);
    assert($r->Ok_0.mv() =~= seq![MsgV::SwapOut { sender: env.contract.address@, routes: t.routes@, max: int_str(g_s), tout: oc(rd, amount_out.v as int) }]);
    assert(unit_is(s_reb(st0).deflation@, target_denom@, g_t));
    assert(unit_is(s_idx(st0), target_denom@, g_c));
    assert(parses_to(est_out(deps.querier, t.routes@.first().0, coin_str(rd, amount_out.v as int), t.routes@), g_s));
}
@@ file execute/rebalance/trade/inflate.rs
@@ fn inflate_reserve(deps, info, reserve_denom)
@props C08 C03
@ens[C08,C03] r is Ok ==> inflate_reserve_post(old(deps.storage)@, final(deps.storage)@, reserve_denom@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn inflate(deps, env, info, target_denom, amount_in, min_amount_out)
@props C08 C03
@ens[C08,C03] r is Ok ==> inflate_post(old(deps.storage)@, final(deps.storage)@, deps.querier, env, target_denom@, amount_in.v as int, min_amount_out.v as int, r->Ok_0.mv())
@after reserve_deduct_unit
l_ceil_gap(amount_in.v as int, reserve_unit.v as int, total_supply.v as int);
assert(reserve_unit.v * total_supply.v == total_supply.v * reserve_unit.v) by(nonlinear_arith);
let ghost g_x = reserve_unit.v as int; let ghost g_s = sim_amount_out.v as int;
@tail
if $r is Ok {
    let st0 = old(deps.storage)@;
    let rd = s_cfg(st0).reserve_denom@; let t = s_ti(st0, rd, target_denom@);
    assert($r->Ok_0.mv() =~= seq![MsgV::SwapIn { sender: env.contract.address@, routes: t.routes@, min: int_str(g_s), tin: oc(rd, amount_in.v as int) }]);
    assert(unit_is(s_res(st0), target_denom@, g_x));
    assert(parses_to(est_in(deps.querier, t.routes@.first().0, coin_str(rd, amount_in.v as int), t.routes@), g_s));
}
