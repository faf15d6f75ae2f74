@@ crate ibcx_interface
@@ file types.rs
@@ raw
impl SwapRoute { pub open spec fn view(&self) -> (u64, Seq<char>) { (self.pool_id, self.token_denom@) } }
impl SwapRoutes { pub open spec fn view(&self) -> Seq<(u64, Seq<char>)> { self.0@.map_values(|x: SwapRoute| x@) } }
@@ fn SwapRoute::new(pool_id, token_denom)
@props T01
@ens[T01] r@ == (pool_id, token_denom@)
@@ implraw SwapRoutes@From<Vec<SwapRoute>>
open spec fn vx_from_spec(a: Vec<SwapRoute>, r: Self) -> bool { r.0 == a }
@@ fn SwapRoutes@From<Vec<SwapRoute>>::from(val)
@props T01
@@ implraw SwapRoutes@From<Vec<(u64,&'astr)>>
open spec fn vx_from_spec(a: Vec<(u64, &'a str)>, r: Self) -> bool { r@ == a@.map_values(|x: (u64, &'a str)| (x.0, x.1@)) }
@@ fn SwapRoutes@From<Vec<(u64,&'astr)>>::from(val)
@props T01
@closure map.0 |p: (u64, &'a str)| -> (q: SwapRoute) ensures q@ == (p.0, p.1@)
@tail assert($r@ =~= val@.map_values(|x: (u64, &'a str)| (x.0, x.1@)));
@@ implraw Vec<SwapAmountInRoute>@From<SwapRoutes>
open spec fn vx_from_spec(a: SwapRoutes, r: Self) -> bool { rin(r@) == a@ }
@@ fn Vec<SwapAmountInRoute>@From<SwapRoutes>::from(val)
@props T01 C08
@closure map.0 |v: SwapRoute| -> (q: SwapAmountInRoute) ensures q.pool_id == v.pool_id && q.token_out_denom@ == v.token_denom@
@tail assert(rin($r@) =~= val@);
@@ implraw Vec<SwapAmountOutRoute>@From<SwapRoutes>
open spec fn vx_from_spec(a: SwapRoutes, r: Self) -> bool { rout(r@) == a@ }
@@ fn Vec<SwapAmountOutRoute>@From<SwapRoutes>::from(val)
@props T01 C08
@closure map.0 |v: SwapRoute| -> (q: SwapAmountOutRoute) ensures q.pool_id == v.pool_id && q.token_in_denom@ == v.token_denom@
@tail assert(rout($r@) =~= val@);
@@ fn SwapRoutes::denom_last(&self)
@props C08 T01
@ens[C08,T01] self@.len() > 0 && r@ == self@.first().1
@@ fn SwapRoutes::dneom_first(&self)
@props T01
@ens[T01] self@.len() > 0 && r@ == self@.last().1
@@ fn SwapRoutes::sim_swap_exact_in(&self, querier, _sender, token_in)
@props T01 C08
@ens[T01,C08] r is Ok ==> self@.len() > 0 && parses_to(est_in(*querier, self@.first().0, token_in.vx_disp(), self@), r->Ok_0.v as int)
@@ fn SwapRoutes::sim_swap_exact_out(&self, querier, _sender, token_out)
@props T01 C08
@ens[T01,C08] r is Ok ==> self@.len() > 0 && parses_to(est_out(*querier, self@.first().0, token_out.vx_disp(), self@), r->Ok_0.v as int)
@@ fn SwapRoutes::msg_swap_exact_in(&self, sender, token_in, token_in_amount, token_out_min)
@props T01 C08
@ens[T01,C08] r@ == (MsgV::SwapIn { sender: sender@, routes: self@, tin: oc(token_in@, token_in_amount.v as int), min: int_str(token_out_min.v as int) })
@@ fn SwapRoutes::msg_swap_exact_out(&self, sender, token_out, token_out_amount, token_in_max)
@props T01 C08
@ens[T01,C08] r@ == (MsgV::SwapOut { sender: sender@, routes: self@, tout: oc(token_out@, token_out_amount.v as int), max: int_str(token_in_max.v as int) })
@@ implraw RangeOrder@From<Order>
open spec fn vx_from_spec(a: Order, r: Self) -> bool { (a is Ascending) == (r is Asc) }
@@ fn RangeOrder@From<Order>::from(order)
@props L01
@@ implraw Order@From<RangeOrder>
open spec fn vx_from_spec(a: RangeOrder, r: Self) -> bool { (r is Ascending) == (a is Asc) }
@@ fn Order@From<RangeOrder>::from(order)
@props L01
@@ file lib.rs
@@ raw
pub open spec fn lim(l: Option<u32>) -> int { match l { Some(x) => x as int, None => 10 } }
@@ fn get_and_check_limit(limit, max, default)
@props L01
@ens[L01] r is Ok ==> r->Ok_0 == (match limit { Some(x) => x, None => default }) && (limit is Some ==> r->Ok_0 <= max)
@ens[L01] limit is None || limit->0 <= max ==> r is Ok
@@ fn range_option(start, limit, order)
@props L01
@ens[L01] r is Ok ==> (r->Ok_0).1 == lim(limit) && (r->Ok_0).1 <= 30
@ens[L01] r is Ok ==> ((r->Ok_0).2 is Ascending <==> (order is None || order->0 is Asc))
@ens[L01] r is Ok && (r->Ok_0).2 is Ascending ==> ((r->Ok_0).0).1 is None && ((((r->Ok_0).0).0 is Some) == (start is Some)) && (start is Some ==> (((r->Ok_0).0).0)->0.bk() == start->0 && (((r->Ok_0).0).0)->0.excl())
@ens[L01] r is Ok && (r->Ok_0).2 is Descending ==> ((r->Ok_0).0).0 is None && ((((r->Ok_0).0).1 is Some) == (start is Some)) && (start is Some ==> (((r->Ok_0).0).1)->0.bk() == start->0 && (((r->Ok_0).0).1)->0.excl())
@ens[L01] limit is None || limit->0 <= 30 ==> r is Ok
@@ crate ibcx_utils
@@ file lib.rs
@@ fn store_version(storage, contract, version)
@props U01
@ens[U01] r is Ok ==> exists|x: ContractVersion| #![trigger enc::<ContractVersion>(x)] contract.vx_into_spec(x.contract) && version.vx_into_spec(x.version) && final(storage)@ == old(storage)@.insert(version_key(), enc::<ContractVersion>(x))
@ens[U01] r is Ok ==> exists|c: String| #[trigger] contract.vx_into_spec(c) && stored_version(old(storage)@).contract@ == c@
@ens[U01] r is Ok ==> exists|v: String| #[trigger] version.vx_into_spec(v) && ver_lt(stored_version(old(storage)@).version@, v@)
@@ fn raw_query_bin(querier, req)
@props T01
@ens[T01,C08] r is Ok ==> r->Ok_0@ == qraw(*querier, json::<QueryRequest<C>>(*req))
