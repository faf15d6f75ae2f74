@@ crate ibcx_interface
@@ file helpers/core.rs
@@ raw
pub open spec fn exec_of(who: Seq<char>, msg: ExecuteMsg, funds: Seq<Coin>) -> MsgV { MsgV::Exec { contract: who, msg: json::<ExecuteMsg>(msg), funds: coinsv(funds) } }
// what a contract answers to a query about it
pub open spec fn ask<CQ, M>(q: QuerierWrapper<CQ>, who: Seq<char>, m: M) -> Seq<u8> { crate::cosmwasm_std::qraw::<CQ>(q, json::<crate::cosmwasm_std::QueryRequest<CQ>>(crate::cosmwasm_std::smart::<CQ>(string_of(who), crate::cosmwasm_std::bin_of(json::<M>(m))))) }
pub open spec fn answer<CQ, M, T>(q: QuerierWrapper<CQ>, who: Seq<char>, m: M) -> T { crate::cosmwasm_std::unjson::<T>(ask::<CQ, M>(q, who, m)) }
@@ fn IbcCore::addr(&self)
@props P02 P03
@ens[P02,P03] r == self.0
@@ fn IbcCore::call(&self, msg)
@props P03
@ens[P03] r is Ok ==> exists|m: ExecuteMsg| msg.vx_into_spec(m) && r->Ok_0@ == #[trigger] exec_of(self.0@, m, Seq::<Coin>::empty())
@start let ghost msg0 = msg;
@tail if $r is Ok { let b = $r->Ok_0->Wasm_0->msg@; let m = choose|m: ExecuteMsg| msg0.vx_into_spec(m) && #[trigger] json::<ExecuteMsg>(m) == b; assert($r->Ok_0@ == exec_of(self.0@, m, Seq::<Coin>::empty())); }
@@ fn IbcCore::call_with_funds(&self, msg, funds)
@props P03
@ens[P03] r is Ok ==> exists|m: ExecuteMsg| msg.vx_into_spec(m) && r->Ok_0@ == #[trigger] exec_of(self.0@, m, funds@)
@start let ghost msg0 = msg;
@tail if $r is Ok { let b = $r->Ok_0->Wasm_0->msg@; let m = choose|m: ExecuteMsg| msg0.vx_into_spec(m) && #[trigger] json::<ExecuteMsg>(m) == b; assert($r->Ok_0@ == exec_of(self.0@, m, funds@)); }
@@ fn IbcCore::get_config(&self, querier, time)
@props P02
@ens[P02,P03] r is Ok ==> r->Ok_0 == answer::<CQ, QueryMsg, GetConfigResponse>(*querier, self.0@, QueryMsg::GetConfig { time })
@@ fn IbcCore::get_fee(&self, querier, time)
@props P02
@ens[P02,P03] r is Ok ==> r->Ok_0 == answer::<CQ, QueryMsg, GetFeeResponse>(*querier, self.0@, QueryMsg::GetFee { time })
@@ fn IbcCore::get_portfolio(&self, querier, time)
@props P02
@ens[P02,P03] r is Ok ==> r->Ok_0 == answer::<CQ, QueryMsg, GetPortfolioResponse>(*querier, self.0@, QueryMsg::GetPortfolio { time })
@@ fn IbcCore::simulate_mint(&self, querier, amount, funds, time)
@props P02
@ens[P02] r is Ok ==> r->Ok_0 == answer::<CQ, QueryMsg, SimulateMintResponse>(*querier, self.0@, QueryMsg::SimulateMint { amount, funds, time })
@@ fn IbcCore::simulate_burn(&self, querier, amount, time)
@props P02
@ens[P02] r is Ok ==> r->Ok_0 == answer::<CQ, QueryMsg, SimulateBurnResponse>(*querier, self.0@, QueryMsg::SimulateBurn { amount, time })
@@ file helpers/periphery.rs
@@ raw
use crate::ibcx_interface::helpers::core::exec_of;
@@ fn IbcPeriphery::addr(&self)
@props P03
@ens[P03] r == self.0
@@ fn IbcPeriphery::call(&self, msg)
@props P03
@ens[P03] r is Ok ==> exists|m: ExecuteMsg| msg.vx_into_spec(m) && r->Ok_0@ == #[trigger] exec_of(self.0@, m, Seq::<Coin>::empty())
@start let ghost msg0 = msg;
@tail if $r is Ok { let b = $r->Ok_0->Wasm_0->msg@; let m = choose|m: ExecuteMsg| msg0.vx_into_spec(m) && #[trigger] json::<ExecuteMsg>(m) == b; assert($r->Ok_0@ == exec_of(self.0@, m, Seq::<Coin>::empty())); }
@@ fn IbcPeriphery::call_with_funds(&self, msg, funds)
@props P03
@ens[P03] r is Ok ==> exists|m: ExecuteMsg| msg.vx_into_spec(m) && r->Ok_0@ == #[trigger] exec_of(self.0@, m, funds@)
@start let ghost msg0 = msg;
@tail if $r is Ok { let b = $r->Ok_0->Wasm_0->msg@; let m = choose|m: ExecuteMsg| msg0.vx_into_spec(m) && #[trigger] json::<ExecuteMsg>(m) == b; assert($r->Ok_0@ == exec_of(self.0@, m, funds@)); }
