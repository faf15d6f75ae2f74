@@ crate ibcx_pool
@@ file lib.rs
@@ skip OsmosisPool::clone_box
@@ skip OsmosisPool::get_type
@@ implraw OsmosisPool
spec fn pv(&self) -> PoolV;
@@ fn OsmosisPool::get_id(&self)
@props W01 S01
@ens[W01,S01] r as int == pool_id(self.pv())
@@ fn OsmosisPool::get_spread_factor(&self)
@props W01 S01
@ens[W01,S01] r is Ok ==> r->Ok_0.v == pool_fee(self.pv())
@@ fn OsmosisPool::swap_exact_amount_in(&mut self, deps, input_amount, output_denom, min_output_amount, spread_factor)
@props W01 S01
@ens[W01,S01] r is Ok ==> swap_in(deps.querier, old(self).pv(), input_amount@, output_denom@, spread_factor.v as int) == Some((r->Ok_0.v(), final(self).pv()))
@@ fn OsmosisPool::swap_exact_amount_out(&mut self, deps, input_denom, max_input_amount, output_amount, spread_factor)
@props W01 S01
@ens[W01,S01] r is Ok ==> swap_out(deps.querier, old(self).pv(), input_denom@, output_amount@, spread_factor.v as int) == Some((r->Ok_0.v(), final(self).pv()))
@@ fn Box<dynOsmosisPool>@Clone::clone(&self)
@trust cloning a boxed pool copies the pool it holds (the derived Clone of the three pool structs)
@@ file weighted.rs
@@ skip Pool@OsmosisPool::clone_box
@@ skip Pool@OsmosisPool::get_type
@@ fn to_dec(v)
@props W01
@ens[W01] r is Ok ==> r->Ok_0.v() == v.v() * e18()
@start lem_e18();
@@ fn solve_constant_function_invariants(token_balance_fixed_before, token_balance_fixed_after, token_weight_fixed, token_balance_unknown_before, token_weight_unknown)
@props W01
@ens[W01] r is Ok ==> 0 < dd(token_balance_fixed_before.v(), token_balance_fixed_after.v()) < 2 * e18() && token_balance_fixed_after.v() != 0 && ({ let p = powv(dd(token_balance_fixed_before.v(), token_balance_fixed_after.v()), dd(token_weight_fixed.v(), token_weight_unknown.v())); p >= 0 && r->Ok_0.0.v() == dm(token_balance_unknown_before.v(), ad(e18(), p)) && r->Ok_0.1 == (e18() > p) })
@start lem_e18();
@@ implraw PoolAsset@From<PoolAssetTuple>
open spec fn vx_from_spec(a: PoolAssetTuple, r: Self) -> bool { r.token.denom == a.0.0 && r.token.amount == a.0.1 && r.weight == a.0.2 }
@@ fn PoolAsset@From<PoolAssetTuple>::from(v)
@props W01
@@ fn Pool::get_asset(&self, denom)
@props W01
@ens[W01] r is Ok ==> aof(assetsv(self.pool_assets@), denom@) == Some(assetv(r->Ok_0))
@ens[W01] r is Ok ==> assetv(r->Ok_0).denom == denom@
@closure find.0 |v: &&PoolAsset| -> (q: bool) ensures q == (v.token.denom@ == denom@)
@tail let s = assetsv(self.pool_assets@); let i = choose|i: int| 0 <= i < s.len() && #[trigger] self.pool_assets@[i] == $r->Ok_0 && afirst(s, denom@, i); lem_aof(s, denom@, i);
@@ fn Pool::apply_new_pool_assets(&mut self, input_denom, output_denom, input_value, output_value)
@props W01
@ens[W01] r is Ok ==> wv(*final(self)) == (WV { assets: wswap(wv(*old(self)).assets, CoinV { denom: input_denom@, amount: input_value.v() }, CoinV { denom: output_denom@, amount: output_value.v() }), ..wv(*old(self)) })
@ens[W01] r is Ok ==> aof(wv(*old(self)).assets, input_denom@) is Some && aof(wv(*old(self)).assets, output_denom@) is Some && output_value.v() <= (aof(wv(*old(self)).assets, output_denom@)->0).amount
@start let ghost s0 = assetsv(self.pool_assets@); let ghost o0 = *self; let ghost ti = CoinV { denom: input_denom@, amount: input_value.v() }; let ghost to = CoinV { denom: output_denom@, amount: output_value.v() };
@loop 0 invariant self.pool_assets@.len() == s0.len(), wv(*self) == (WV { assets: wv(*self).assets, ..wv(o0) }), vx_it0@.len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> (#[trigger] vx_it0@[j]).0 == j && assetv(vx_it0@[j].1) == s0[j], forall|j: int| 0 <= j < s0.len() ==> assetv(#[trigger] self.pool_assets@[j]) == (if j < vx_i0 { wswap(s0, ti, to)[j] } else { s0[j] }) decreases vx_it0@.len() - vx_i0
@tail assert(wv(*self).assets =~= wswap(s0, ti, to));
@@ fn Pool::calc_out_amount_given_in(&self, input_amount, output_denom, spread_factor)
@props W01
@ens[W01] r is Ok ==> wout(wv(*self).assets, input_amount@, output_denom@, spread_factor.v as int) == Some(r->Ok_0.v())
@start lem_e18();
@@ fn Pool::calc_in_amount_given_out(&self, input_denom, output_amount, spread_factor)
@props W01
@ens[W01] r is Ok ==> win(wv(*self).assets, input_denom@, output_amount@, spread_factor.v as int) == Some(r->Ok_0.v())
@start lem_e18();
@@ implraw Pool@OsmosisPool
open spec fn pv(&self) -> PoolV { PoolV::W(wv(*self)) }
@@ fn Pool@OsmosisPool::get_id(&self)
@props W01 S01
@tail lem_pnum(self.id@, $r as int);
@@ fn Pool@OsmosisPool::get_spread_factor(&self)
@props W01 S01
@@ fn Pool@OsmosisPool::swap_exact_amount_in(&mut self, deps, input_amount, output_denom, min_output_amount, spread_factor)
@props W01 S01
@@ fn Pool@OsmosisPool::swap_exact_amount_out(&mut self, deps, input_denom, max_input_amount, output_amount, spread_factor)
@props W01 S01
@@ file stable.rs
@@ skip Pool@OsmosisPool::clone_box
@@ skip Pool@OsmosisPool::get_type
@@ implraw Pool@OsmosisPool
open spec fn pv(&self) -> PoolV { PoolV::S(*self) }
@@ fn Pool@OsmosisPool::get_id(&self)
@props S01
@tail lem_pnum(self.id@, $r as int);
@@ fn Pool@OsmosisPool::get_spread_factor(&self)
@props S01
@@ fn Pool@OsmosisPool::swap_exact_amount_in(&mut self, deps, input_amount, output_denom, min_output_amount, spread_factor)
@props S01
@start let ghost d0 = output_denom@; let ghost c0 = input_amount@;
@tail if $r is Ok { let id = pool_id(self.pv()) as u64; assert(forall|v: SwapRoutes| v@.len() == 1 && #[trigger] v@[0] == (id, d0) ==> v@ =~= seq![(id, d0)]); lem_pnum(est_in(deps.querier, id, coin_str(c0), seq![(id, d0)]), $r->Ok_0.v()); }
@@ fn Pool@OsmosisPool::swap_exact_amount_out(&mut self, deps, input_denom, max_input_amount, output_amount, spread_factor)
@props S01
@start let ghost d0 = input_denom@; let ghost c0 = output_amount@;
@tail if $r is Ok { let id = pool_id(self.pv()) as u64; assert(forall|v: SwapRoutes| v@.len() == 1 && #[trigger] v@[0] == (id, d0) ==> v@ =~= seq![(id, d0)]); lem_pnum(est_out(deps.querier, id, coin_str(c0), seq![(id, d0)]), $r->Ok_0.v()); }
@@ file concentrated.rs
@@ skip Pool@OsmosisPool::clone_box
@@ skip Pool@OsmosisPool::get_type
@@ implraw Pool@OsmosisPool
open spec fn pv(&self) -> PoolV { PoolV::C(*self) }
@@ fn Pool@OsmosisPool::get_id(&self)
@props S01
@tail lem_pnum(self.id@, $r as int);
@@ fn Pool@OsmosisPool::get_spread_factor(&self)
@props S01
@@ fn Pool@OsmosisPool::swap_exact_amount_in(&mut self, deps, input_amount, output_denom, min_output_amount, spread_factor)
@props S01
@start let ghost d0 = output_denom@; let ghost c0 = input_amount@;
@tail if $r is Ok { let id = pool_id(self.pv()) as u64; assert(forall|v: SwapRoutes| v@.len() == 1 && #[trigger] v@[0] == (id, d0) ==> v@ =~= seq![(id, d0)]); lem_pnum(est_in(deps.querier, id, coin_str(c0), seq![(id, d0)]), $r->Ok_0.v()); }
@@ fn Pool@OsmosisPool::swap_exact_amount_out(&mut self, deps, input_denom, max_input_amount, output_amount, spread_factor)
@props S01
@start let ghost d0 = input_denom@; let ghost c0 = output_amount@;
@tail if $r is Ok { let id = pool_id(self.pv()) as u64; assert(forall|v: SwapRoutes| v@.len() == 1 && #[trigger] v@[0] == (id, d0) ==> v@ =~= seq![(id, d0)]); lem_pnum(est_out(deps.querier, id, coin_str(c0), seq![(id, d0)]), $r->Ok_0.v()); }
@@ file sim/route.rs
@@ raw
impl SimAmountOutRoutes { pub open spec fn view(&self) -> Seq<EntV> { outsv(self.0@) } }
impl SimAmountInRoutes { pub open spec fn view(&self) -> Seq<EntV> { insv(self.0@) } }
@@ implraw SimAmountOutRoutes@IntoIterator
open spec fn vx_seq(&self) -> Seq<SimAmountOutRoute> { self.0@ }
@@ fn SimAmountOutRoutes@IntoIterator::into_iter(self)
@props S01
@@ implraw SimAmountOutRoutes@From<Vec<SimAmountOutRoute>>
open spec fn vx_from_spec(a: Vec<SimAmountOutRoute>, r: Self) -> bool { r.0 == a }
@@ fn SimAmountOutRoutes@From<Vec<SimAmountOutRoute>>::from(v)
@props S01
@@ implraw SimAmountInRoutes@IntoIterator
open spec fn vx_seq(&self) -> Seq<SimAmountInRoute> { self.0@ }
@@ fn SimAmountInRoutes@IntoIterator::into_iter(self)
@props S01
@@ implraw SimAmountInRoutes@From<Vec<SimAmountInRoute>>
open spec fn vx_from_spec(a: Vec<SimAmountInRoute>, r: Self) -> bool { r.0 == a }
@@ fn SimAmountInRoutes@From<Vec<SimAmountInRoute>>::from(v)
@props S01
@@ fn SimAmountOutRoutes::to_msgs(&self, contract, min_output)
@props S01 P02 P03
@ens[S01,P02,P03] r is Ok ==> msgsv(r->Ok_0@) == out_msgs(self@, contract@, min_output.v as int, esum(self@))
@ens[S01,P02] r is Ok ==> min_output.v <= esum(self@)
@closure try_fold.0 |acc: Uint128, v: &SimAmountOutRoute| -> (q: Result<Uint128, PoolError>) ensures q is Ok ==> q->Ok_0.v == acc.v + v.sim_amount_out.v
@closure filter_map.0 |r: &SimAmountOutRoute| -> (q: Option<CosmosMsg>) ensures (match q { Some(m) => Some(m@), None => None }) == out_msg(outv(*r), contract@, amplifier.0.v as int, amplifier.1.v as int)
@closure map.0 |routes: &SwapRoutes| -> (q: CosmosMsg) ensures q@ == (MsgV::SwapIn { sender: contract@, routes: routes@, tin: oc(r.amount_in.denom@, r.amount_in.amount.v as int), min: int_str(mceil(r.sim_amount_out.v as int, amplifier.0.v as int, amplifier.1.v as int)) })
@after total_receive_amount assert(exists|acc: Seq<Uint128>| #[trigger] acc.len() == self@.len() + 1 && acc_ok(self@, acc, total_receive_amount)); lem_esum_ok(self@, total_receive_amount);
@after swap_msgs let ms = choose|ms: Seq<Option<CosmosMsg>>| #![trigger vx_flat(ms)] ms.len() == self@.len() && swap_msgs@ == vx_flat(ms) && forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> (match ms[i] { Some(m) => Some(m@), None => None }) == out_msg(self@[i], contract@, min_output.v as int, esum(self@)); lem_out_msgs(self@, ms, contract@, min_output.v as int, esum(self@));
@@ fn SimAmountInRoutes::to_msgs(&self, contract, max_input)
@props S01 P02 P03
@ens[S01,P02,P03] r is Ok ==> msgsv(r->Ok_0@) == in_msgs(self@, contract@, max_input.v as int, esum(self@))
@ens[S01,P02] r is Ok ==> max_input.v >= esum(self@) && esum(self@) > 0
@start assert forall|a: crate::ibcx_interface::types::SwapRoutes, b: crate::ibcx_interface::types::SwapRoutes| #![trigger a@, b@] a.0@ == b.0@.reverse() implies a@ == b@.reverse() by { lem_rev(a, b); }
@closure try_fold.0 |acc: Uint128, v: &SimAmountInRoute| -> (q: Result<Uint128, PoolError>) ensures q is Ok ==> q->Ok_0.v == acc.v + v.sim_amount_in.v
@closure filter_map.0 |r: &SimAmountInRoute| -> (q: Option<CosmosMsg>) ensures (match q { Some(m) => Some(m@), None => None }) == (match r.routes { Some(x) => Some(MsgV::SwapOut { sender: contract@, routes: x@.reverse(), tout: oc(r.amount_out.denom@, r.amount_out.amount.v as int), max: int_str(mfloor(r.sim_amount_in.v as int, amplifier.v as int, e18())) }), None => None })
@closure map.0 |routes: &SwapRoutes| -> (q: CosmosMsg) ensures q@ == (MsgV::SwapOut { sender: contract@, routes: routes@.reverse(), tout: oc(r.amount_out.denom@, r.amount_out.amount.v as int), max: int_str(mfloor(r.sim_amount_in.v as int, amplifier.v as int, e18())) })
@after total_spend_amount assert(exists|acc: Seq<Uint128>| #[trigger] acc.len() == self@.len() + 1 && acc_ok(self@, acc, total_spend_amount)); lem_esum_ok(self@, total_spend_amount);
@after swap_msgs let ms = choose|ms: Seq<Option<CosmosMsg>>| #![trigger vx_flat(ms)] ms.len() == self@.len() && swap_msgs@ == vx_flat(ms) && forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> (match ms[i] { Some(m) => Some(m@), None => None }) == in_msg(self@[i], contract@, max_input.v as int, esum(self@)); lem_in_msgs(self@, ms, contract@, max_input.v as int, esum(self@));
@@ file sim/mod.rs
@@ fn Simulator<'a>::new(deps, pools, swap_info, index_units)
@props S01 S02
@ens[S01,S02] r.deps == deps && r.pools == pools && r.swap_info == swap_info && r.index_units == index_units
@@ fn Simulator<'a>::estimate_input_for_index(&self, input_denom, index_out)
@props S01
@ens[S01,P02] r is Ok ==> r->Ok_0.index_out == index_out && (match sim_out(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), index_out.v as int, input_denom@) { None => false, Some((es, m)) => r->Ok_0.sim_routes@ == es && r->Ok_0.total_input.v == esum(es) })
@@ fn Simulator<'a>::estimate_output_for_index(&self, index_in, output_denom)
@props S01
@ens[S01,P02] r is Ok ==> r->Ok_0.index_in == index_in && (match sim_in(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), index_in.v as int, output_denom@) { None => false, Some((es, m)) => r->Ok_0.sim_routes@ == es && r->Ok_0.total_output.v == esum(es) })
@@ fn Simulator<'a>::estimate_index_for_input(&self, desired_input, init_index_amount, min_index_amount, err_tolerance)
@props S02
@closure unwrap_or_else.0 || -> (q: Decimal) ensures q.v == mfloor(1, e18(), 3)
@ens[S02,P02] r is Ok ==> fresh_out(*self, r->Ok_0.max, desired_input@.denom) && r->Ok_0.max.max_token_in.v <= desired_input.amount.v < r->Ok_0.max.max_token_in.v + 5000
@ens[S02,P02] r is Ok ==> (r->Ok_0.est is Some) == (min_index_amount is Some)
@ens[S02,P02] r is Ok && min_index_amount is Some ==> fresh_out(*self, r->Ok_0.est->0, desired_input@.denom) && min_index_amount->0.v <= r->Ok_0.max.est_min_token_out.v && r->Ok_0.est->0.est_min_token_out.v == r->Ok_0.max.est_min_token_out.v - mfloor(r->Ok_0.max.est_min_token_out.v - min_index_amount->0.v, tolv(err_tolerance), e18())
@start lem_e18();
@@ fn Simulator<'a>::estimate_index_for_output(&self, desired_output, init_index_amount, max_index_amount, err_tolerance)
@props S02
@closure unwrap_or_else.0 || -> (q: Decimal) ensures q.v == mfloor(1, e18(), 3)
@ens[S02,P02] r is Ok ==> fresh_in(*self, r->Ok_0.min, desired_output@.denom) && r->Ok_0.min.max_token_out.v <= desired_output.amount.v < r->Ok_0.min.max_token_out.v + 5000
@ens[S02,P02] r is Ok ==> (r->Ok_0.est is Some) == (max_index_amount is Some)
@ens[S02,P02] r is Ok && max_index_amount is Some ==> fresh_in(*self, r->Ok_0.est->0, desired_output@.denom) && r->Ok_0.min.est_min_token_in.v <= max_index_amount->0.v && r->Ok_0.est->0.est_min_token_in.v == r->Ok_0.min.est_min_token_in.v + mfloor(max_index_amount->0.v - r->Ok_0.min.est_min_token_in.v, tolv(err_tolerance), e18())
@start lem_e18();
@@ file sim/index_in.rs
@@ fn Simulator<'a>::estimate_out_given_in(&self, token_in, token_out, pools)
@props S01
@ens[S01] r is Ok ==> (match route_of(infosv(self.swap_info@), token_in@.denom, token_out@) { None => false, Some(rs) => match hops_in(self.deps.querier, pmv(old(pools)@), token_in@, rs) { None => false, Some((c, m)) => m == pmv(final(pools)@) && outv(r->Ok_0) == (EntV { coin: token_in@, sim: c.amount, routes: Some(rs) }) } })
@closure find.0 |vx_c0: &&SwapInfo| -> (q: bool) ensures q == (infov(**vx_c0).from == token_in@.denom && infov(**vx_c0).to == token_out@)
@start let ghost tin0 = token_in@; let ghost m0 = pmv(pools@);
@before ret let s = infosv(self.swap_info@); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] self.swap_info@[i]).0.1 == *routes && rfirst(s, tin0.denom, token_out@, i); lem_route_of(s, tin0.denom, token_out@, i); assert(routes@.take(0) =~= Seq::empty());
@loop 0 invariant vx_it0@.len() == routes@.len(), forall|j: int| 0 <= j < routes@.len() ==> *(#[trigger] vx_it0@[j]) == routes.0@[j], vx_i0 <= vx_it0@.len(), hops_in(self.deps.querier, m0, tin0, routes@.take(vx_i0 as int)) == Some((vx_acc0@, pmv(pools@))), token_in@ == tin0 decreases vx_it0@.len() - vx_i0
@loopstart 0 lem_take_last(routes@, vx_i0 - 1); assert(routes@[vx_i0 - 1] == (route.pool_id, route.token_denom@));
@before pool let ghost mp = pools@;
@after amount_out lem_pmv(mp, route.pool_id, pools@[route.pool_id]); assert(pools@ == mp.insert(route.pool_id, pools@[route.pool_id]));
@tail assert(routes@.take(routes@.len() as int) =~= routes@);
@@ fn Simulator<'a>::estimate_token_given_index_in(&self, token_in, output_asset)
@props S01
@ens[S01] r is Ok ==> (match sim_in(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), token_in.v as int, output_asset@) { None => false, Some((es, m)) => r->Ok_0.sim_routes@ == es && r->Ok_0.total_received.v == esum(es) })
@start let ghost amt = token_in.v as int;
@closure map.0 |v: &Box<dyn OsmosisPool>| -> (q: (u64, Box<dyn OsmosisPool>)) ensures q == (pool_id(v.pv()) as u64, *v)
@after pools_map assert(exists|t: Seq<(u64, Box<dyn OsmosisPool>)>| pools_map@ == #[trigger] mapof::<u64, Box<dyn OsmosisPool>>(t) && pairs_ok(self.pools@, t, pools_map@)); lem_pools0(self.pools@, pools_map@); lem_sim_in0(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), amt, output_asset@);
@loop 0 invariant vx_it0@.len() == self.index_units@.len(), forall|j: int| 0 <= j < vx_it0@.len() ==> *(#[trigger] vx_it0@[j]) == self.index_units@[j], vx_out0@.len() == vx_i0, sim_in(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@).take(vx_i0 as int), amt, output_asset@) == Some((outsv(vx_out0@), pmv(pools_map@))) decreases vx_it0@.len() - vx_i0
@loopstart 0 let ghost m1 = pmv(pools_map@); let ghost o1 = outsv(vx_out0@);
assert(unitsv(self.index_units@)[vx_i0 - 1] == (denom@, unit.v as int));
@loopend 0 assert(outsv(vx_out0@).drop_last() =~= o1); lem_sim_in(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), vx_i0 - 1, amt, output_asset@, o1, m1, outsv(vx_out0@), pmv(pools_map@));
@closure try_fold.0 |acc: Uint128, v: &SimAmountOutRoute| -> (q: Result<Uint128, PoolError>) ensures q is Ok ==> q->Ok_0.v == acc.v + v.sim_amount_out.v
@after total_received let es = outsv(routes_with_amount@); assert(exists|acc: Seq<Uint128>| #[trigger] acc.len() == es.len() + 1 && acc_ok(es, acc, total_received)); lem_esum_ok(es, total_received); assert(unitsv(self.index_units@).take(self.index_units@.len() as int) =~= unitsv(self.index_units@));
@@ fn Simulator<'a>::search_efficient_amount_for_output_f(&self, desired_output, token_test_out, token_test_in)
@props S02
@ens[S02] r is Ok ==> fresh_in(*self, r->Ok_0, desired_output@.denom)
@@ fn Simulator<'a>::search_efficient_amount_for_output(&self, desired_output, init_input_amount)
@props S02
@ens[S02,P02] r is Ok ==> fresh_in(*self, r->Ok_0, desired_output@.denom)
@ens[S02,P02] r is Ok ==> r->Ok_0.max_token_out.v <= desired_output.amount.v < r->Ok_0.max_token_out.v + 5000
@start lem_e18();
@loop 0 invariant true
@before err let ghost x = acc_res.max_token_out.v as int; let ghost d = desired_output.amount.v as int;
@after err lem_ratio_one(d, x);
@@ file sim/index_out.rs
@@ fn Simulator<'a>::estimate_in_given_out(&self, token_in, token_out, pools)
@props S01
@ens[S01] r is Ok ==> (match route_of(infosv(self.swap_info@), token_in@, token_out@.denom) { None => false, Some(rs) => match hops_out(self.deps.querier, pmv(old(pools)@), token_out@, rs.reverse()) { None => false, Some((c, m)) => m == pmv(final(pools)@) && inv(r->Ok_0) == (EntV { coin: token_out@, sim: c.amount, routes: Some(rs.reverse()) }) } })
@closure find.0 |vx_c0: &&SwapInfo| -> (q: bool) ensures q == (infov(**vx_c0).from == token_in@ && infov(**vx_c0).to == token_out@.denom)
@start let ghost tout0 = token_out@; let ghost m0 = pmv(pools@);
@before routes let s = infosv(self.swap_info@); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] self.swap_info@[i]).0.1 == *routes && rfirst(s, token_in@, tout0.denom, i); lem_route_of(s, token_in@, tout0.denom, i); assert forall|a: crate::ibcx_interface::types::SwapRoutes, b: crate::ibcx_interface::types::SwapRoutes| #![trigger a@, b@] a.0@ == b.0@.reverse() implies a@ == b@.reverse() by { lem_rev(a, b); }
@before ret assert(routes@.take(0) =~= Seq::empty()); let rs = route_of(infosv(self.swap_info@), token_in@, tout0.denom)->0; assert(routes@ == rs.reverse());
@loop 0 invariant vx_it0@.len() == routes@.len(), forall|j: int| 0 <= j < routes@.len() ==> *(#[trigger] vx_it0@[j]) == routes.0@[j], vx_i0 <= vx_it0@.len(), hops_out(self.deps.querier, m0, tout0, routes@.take(vx_i0 as int)) == Some((vx_acc0@, pmv(pools@))), token_out@ == tout0 decreases vx_it0@.len() - vx_i0
@loopstart 0 lem_take_last(routes@, vx_i0 - 1); assert(routes@[vx_i0 - 1] == (route.pool_id, route.token_denom@));
@before pool let ghost mp = pools@;
@after amount_in lem_pmv(mp, route.pool_id, pools@[route.pool_id]); assert(pools@ == mp.insert(route.pool_id, pools@[route.pool_id]));
@tail assert(routes@.take(routes@.len() as int) =~= routes@);
@@ fn Simulator<'a>::estimate_token_given_index_out(&self, token_out, input_asset)
@props S01
@ens[S01] r is Ok ==> (match sim_out(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), token_out.v as int, input_asset@) { None => false, Some((es, m)) => r->Ok_0.sim_routes@ == es && r->Ok_0.total_spent.v == esum(es) })
@start let ghost amt = token_out.v as int;
@closure map.0 |v: &Box<dyn OsmosisPool>| -> (q: (u64, Box<dyn OsmosisPool>)) ensures q == (pool_id(v.pv()) as u64, *v)
@after pools_map assert(exists|t: Seq<(u64, Box<dyn OsmosisPool>)>| pools_map@ == #[trigger] mapof::<u64, Box<dyn OsmosisPool>>(t) && pairs_ok(self.pools@, t, pools_map@)); lem_pools0(self.pools@, pools_map@); lem_sim_out0(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), amt, input_asset@);
@closure map.1 |vx_c: &(String, Decimal)| -> (q: Coin) ensures q@ == (CoinV { denom: vx_c.0@, amount: mceil(token_out.v as int, vx_c.1.v as int, e18()) })
@loop 0 invariant vx_it0@.len() == self.index_units@.len(), forall|j: int| 0 <= j < vx_it0@.len() ==> (#[trigger] vx_it0@[j])@ == (CoinV { denom: unitsv(self.index_units@)[j].0, amount: mceil(amt, unitsv(self.index_units@)[j].1, e18()) }), vx_out0@.len() == vx_i0, sim_out(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@).take(vx_i0 as int), amt, input_asset@) == Some((insv(vx_out0@), pmv(pools_map@))) decreases vx_it0@.len() - vx_i0
@loopstart 0 let ghost m1 = pmv(pools_map@); let ghost o1 = insv(vx_out0@);
@loopend 0 assert(insv(vx_out0@).drop_last() =~= o1); lem_sim_out(self.deps.querier, pools0(self.pools@), infosv(self.swap_info@), unitsv(self.index_units@), vx_i0 - 1, amt, input_asset@, o1, m1, insv(vx_out0@), pmv(pools_map@));
@closure try_fold.0 |acc: Uint128, v: &SimAmountInRoute| -> (q: Result<Uint128, PoolError>) ensures q is Ok ==> q->Ok_0.v == acc.v + v.sim_amount_in.v
@after total_spent let es = insv(routes_with_amount@); assert(exists|acc: Seq<Uint128>| #[trigger] acc.len() == es.len() + 1 && acc_ok(es, acc, total_spent)); lem_esum_ok(es, total_spent); assert(unitsv(self.index_units@).take(self.index_units@.len() as int) =~= unitsv(self.index_units@));
@@ fn Simulator<'a>::search_efficient_amount_for_input_f(&self, desired_input, token_test_out, token_test_in)
@props S02
@ens[S02] r is Ok ==> fresh_out(*self, r->Ok_0, desired_input@.denom)
@@ fn Simulator<'a>::search_efficient_amount_for_input(&self, desired_input, init_output_amount)
@props S02
@ens[S02,P02] r is Ok ==> fresh_out(*self, r->Ok_0, desired_input@.denom)
@ens[S02,P02] r is Ok ==> r->Ok_0.max_token_in.v <= desired_input.amount.v < r->Ok_0.max_token_in.v + 5000
@start lem_e18();
@loop 0 invariant true
@before err let ghost x = acc_res.max_token_in.v as int; let ghost d = desired_input.amount.v as int;
@after err lem_ratio_one(d, x);
@@ file query.rs
@@ fn raw_query(querier, request)
@props S01
@ens[S01] r is Ok ==> r->Ok_0@ == crate::cosmwasm_std::qraw::<C>(*querier, json::<QueryRequest<C>>(*request))
@@ fn decode_pool(v)
@trust decoding the chain's answer into one of the three pool types (base64 prefix test, serde) is named, not specified
@ens[S01] r is Ok ==> (match r->Ok_0 { Some(b) => Some(b.pv()), None => None }) == pool_dec(v@)
@@ fn query_pools(deps, pool_ids)
@props S01
@ens[S01,P02,P03] r is Ok ==> pvs(r->Ok_0@) == pools_of(deps.querier, pool_ids@)
@closure map.0 |v: u64| -> (q: StdResult<Binary>) ensures q is Ok ==> q->Ok_0@ == pool_ans(deps.querier, v)
@tail if $r is Ok {
    let rs = $r->Ok_0@;
    let ps = choose|ps: Vec<Option<Box<dyn OsmosisPool>>>| #![trigger vx_flat(ps@)] rs == vx_flat(ps@) && ps@.len() == pool_ids@.len() && forall|i: int| 0 <= i < ps@.len() ==> (match #[trigger] ps@[i] { Some(b) => Some(b.pv()), None => None }) == pool_dec(pool_ans(deps.querier, pool_ids@[i]));
    lem_pools_of(deps.querier, pool_ids@, ps@);
}
