#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in (state or [])],
        "mechanism": [{"name": n, "where": w} for (n, w) in mech],
        "observe_at": observe or ["entry point responses", "contract storage"],
        "hook_needed": None}})
C='contracts/core/src/'; A='contracts/airdrop/src/'; Q='contracts/periphery/src/'; K='packages/'
TOK=C+'execute/token.rs'; UNI=C+'state/units.rs'; FEE=C+'state/fee.rs'; EFEE=C+'execute/fee.rs'
INIT=C+'execute/rebalance/init.rs'; FIN=C+'execute/rebalance/finalize.rs'
TRD=C+'execute/rebalance/trade/mod.rs'; DEF=C+'execute/rebalance/trade/deflate.rs'; INF=C+'execute/rebalance/trade/inflate.rs'
UPD=C+'execute/gov/update.rs'; PAU=C+'execute/gov/pause.rs'; CON=C+'contract.rs'; QRY=C+'query.rs'; REB=C+'state/rebalance.rs'

p("C01","A mint issues exactly the requested index tokens and splits them exactly",
 "A successful mint of a given amount of index tokens raises the recorded total supply by exactly that amount and orders exactly that amount to be minted; the minted tokens are completely divided between the fee collector (nothing without a mint fee, otherwise the fee rate applied to the amount, rounded down but at least one token) and the receiver. For every asset in the portfolio the payer is charged at least the asset's unit times the amount, rounded up and never less than one token, everything paid beyond that charge is sent back in full to the refund address, and a mint is rejected when an asset is missing, underpaid, or not in the portfolio. The receiver and the refund address are the ones given in the request and default to the sender.",
 ["inputs","configurations"],"all portfolios, fee settings, amounts, attached funds and addresses",
 "tests mint a handful of round amounts from two-asset portfolios; the arithmetic must hold for every unit, amount, fee rate and fund list",
 [TOK,UNI],[("mint",TOK),("required amounts and refund",UNI)],
 [("total supply","number of index tokens in existence",C+'state/mod.rs')])
p("C02","A burn destroys exactly the paid index tokens minus fee and pays pro rata",
 "A successful burn requires the payment to consist of index tokens only; the payment is completely divided between the burn fee (rate times payment rounded down, sent to the fee collector, nothing without a burn fee) and the burned amount, and recorded total supply and burned tokens decrease by exactly the burned amount. The redeemer address given in the request (default: the sender) receives, for every asset in the portfolio, exactly the asset's unit times the burned amount rounded down, and nothing else leaves the contract.",
 ["inputs","configurations"],"all portfolios, fee settings, payments and addresses",
 "tests burn one or two fixed amounts; rounding and splitting must hold for all units, payments and rates",
 [TOK,UNI],[("burn",TOK),("redeemed amounts",UNI)],
 [("total supply","number of index tokens in existence",C+'state/mod.rs')])
p("C03","The index stays fully collateralised through every operation",
 "After any sequence of mints, burns, fee accruals and payouts, fee updates and rebalance trades, for every asset the tokens the contract has received minus those it has sent out are at least what it owes: unit times total supply, plus accrued unpaid streaming fees, plus (for the reserve asset) the reserve units times total supply. No operation of the core contract may move obligations up or holdings down so that an asset becomes under-collateralised, whatever the rounding, provided swaps deliver what their messages demand.",
 ["histories","inputs"],"all operation sequences with arbitrary amounts, units, weights, fee rates and simulated swap prices",
 "a history property over integer rounding; tests check single operations on round numbers and never compare holdings with obligations",
 [TOK,UNI,FEE,EFEE,DEF,INF,TRD,UPD,FIN],[("rounding direction of charges, redemptions and trade units",UNI),("trade unit accounting",TRD),("fee accrual",FEE)],
 [("index units","per-token asset holdings",C+'state/mod.rs'),("reserve units","holdings waiting to be swapped in a rebalance",C+'state/mod.rs'),("collected","accrued unpaid fees",FEE)])
p("C04","Mint and burn are refused while paused or rebalancing; pause expires on time",
 "While the contract is paused or a rebalance is in progress, no mint and no burn succeeds. A pause without expiry lasts until it is released and a pause with expiry ends at the first block whose time reaches the expiry; governance, and nobody else, can pause an unpaused contract until an expiry strictly in the future and can release a paused one. The config query reports the same effective pause status for the asked time.",
 ["inputs","histories"],"all block times, expiries, senders and pause/release/rebalance histories",
 "tests sample a few times around one expiry; the gate must hold in every reachable combination of pause, expiry and rebalance",
 [TOK,PAU,C+'state/pause.rs',C+'state/config.rs',QRY],[("pause gate",C+'state/pause.rs'),("rebalance gate",TOK),("pause/release",PAU)],
 [("paused","pause flag and expiry",C+'state/pause.rs')])
p("C05","Only governance changes configuration and governance moves only by handover",
 "Only the current governance address can pause, release, propose or revoke a governance transfer, change fees, the rebalance manager, the reserve asset or trade routes, and start a rebalance; everybody else's attempt fails without effect. Governance changes exactly when the address proposed by the current governance accepts itself, at most one proposal is pending at a time, and revoking or accepting removes it. Each configuration change alters exactly the setting it names to exactly the validated value it was given and leaves every other setting untouched; fees and the reserve asset cannot change during a rebalance and the manager can change only during one.",
 ["inputs","histories"],"all senders, message variants, payloads and reachable states",
 "tests try one wrong sender per message and never check the frame of the untouched state",
 [UPD,PAU,INIT,C+'lib.rs',C+'state/config.rs',C+'execute/gov/mod.rs',CON],[("governance checks",C+'state/config.rs'),("two-step transfer",UPD)],
 [("gov","governance address",C+'state/config.rs'),("pending gov","proposed governance",C+'state/mod.rs')])
p("C06","Rebalance lifecycle: one at a time, only by the entitled, fee accrual frozen",
 "At most one rebalance exists at a time; it is started only by governance, and when it names a manager only that manager can trade in it or finalize it (anybody can when it names none). Trades and finalization are rejected when no rebalance is in progress. Starting a rebalance freezes streaming-fee accrual, which stays frozen until finalization unfreezes it and restarts fee time, so the rebalance period is never charged.",
 ["histories","inputs"],"all senders, manager settings and interleavings of rebalance, fee and governance operations",
 "tests cover the straight start/trade/finalize path with one manager",
 [INIT,FIN,TRD,UPD],[("start",INIT),("trade authorisation",TRD),("finalize",FIN)],
 [("rebalance","plan in progress",C+'state/mod.rs')])
p("C07","An accepted rebalance plan is well-formed",
 "A rebalance is accepted only if its deflation and inflation lists are both non-empty, no asset occurs twice within or across them, and every deflation asset is in the portfolio with a target unit not above its current unit. The plan is stored exactly as given, the reserve starts empty, and any plan violating these conditions is rejected without effect.",
 ["inputs"],"all portfolios and all deflation/inflation lists",
 "tests use a few hand-written invalid plans; duplicates and overflows can occur at any position of lists of any length",
 [REB,INIT,UNI],[("plan validation",REB)])
p("C08","Rebalance trades respect targets, limits, cooldown, slippage and reserves",
 "A trade succeeds only when the trade route for exactly that asset pair exists, its cooldown since its own last trade has elapsed, the traded amount is within the route's maximum, the simulated price is within the caller's slippage limit, a deflation never takes an asset below its target unit and an inflation never spends more than the reserve set aside for that asset. A successful trade lowers the sold side's unit by the traded amount per index token rounded up and raises the bought side by the amount received per index token rounded down, for a deflation distributed over the inflation assets in proportion to their weights without ever exceeding it, records the trade time, and its swap message carries the simulated amount as its limit. For the reserve asset itself units move one to one between portfolio and reserve without any swap.",
 ["inputs","histories"],"all plans, units, weights, supplies, routes, times, amounts and simulated prices",
 "tests trade a few fixed amounts; limits, rounding and proportional distribution must hold for all values",
 [DEF,INF,TRD,REB,UNI],[("deflate",DEF),("inflate",INF),("cooldown",REB)],
 [("trade infos","routes, cooldown, maximum and last trade time per pair",C+'state/mod.rs')])
p("C09","Finalization only after the plan is met, and it leaves a clean portfolio",
 "A rebalance can be finalized, by whoever is entitled to, exactly when every deflation asset's unit is at or below its target and no reserve unit is left. Finalizing removes the plan and the reserve, drops exactly the assets whose unit is zero from the portfolio and changes no remaining unit; a rejected finalization changes nothing.",
 ["inputs","histories"],"all plans, portfolios and reserve states",
 "tests finalize one finished and one unfinished example; a check that looks at only some assets still passes them",
 [FIN,UNI],[("finalize",FIN)])
p("C10","Streaming fee accrual follows compound interest and is conserved",
 "When t seconds have passed since the last accrual, accrual lowers each asset's unit by exactly unit times ((1+rate)^t - 1) in 18-digit fixed-point arithmetic rounded down, adds exactly that per-token fee times the total supply (rounded down) to the accrued fees of the same asset, and sets the accrual time to now. Nothing changes when accrual is frozen, when no time has passed, or when no streaming fee is configured. Accrual takes place before every mint, burn, fee payout, rebalance start and fee update, so queries for the current time and the next operation see the same units.",
 ["inputs","histories"],"all units, rates, elapsed times, supplies, previously accrued fees and operation orders",
 "tests compare one or two sample periods; the arithmetic and the merging with earlier accruals must hold for every asset list and duration",
 [FEE,EFEE,CON],[("collect",FEE),("accrual before operations",CON)],
 [("collected","accrued unpaid fees",FEE),("last collected at","time of last accrual",FEE)])
p("C11","Accrued streaming fees are paid exactly once and only to the collector",
 "Accrued streaming fees leave the contract only to the fee collector in charge when they accrued: either when that collector realizes them, or when governance replaces the fee settings. Each payout sends exactly the accrued amounts and resets them to zero in the same step, so no accrued fee is ever paid twice, lost or altered; the collector, and only it, can realize, and all other fee settings stay as they are.",
 ["histories","inputs"],"all interleavings of accruals, payouts and fee updates with arbitrary collectors and amounts",
 "needs arbitrary histories of accrual, payout and fee replacement; tests pay out once from a fixed state",
 [EFEE,UPD,FEE],[("realize",EFEE),("fee update",UPD)],
 [("collected","accrued unpaid fees",FEE)])
p("C12","Fee rates are always within their bounds",
 "In every state the contract can reach, every configured mint, burn and streaming fee rate is strictly between zero and one, and the streaming rate does not exceed the per-second equivalent of 100 percent a year (0.000000021979553). Instantiation and fee updates with any rate outside these bounds are rejected, and rates inside them are stored exactly as given.",
 ["inputs","histories"],"all fee payloads at instantiation and update",
 "tests try a few rates; bounds must hold for every rate in every field combination",
 [FEE,CON,UPD],[("rate checks",FEE)])
p("C13","Queries and simulations agree with what execution does",
 "In every state, the mint and burn simulations for the current time return exactly the amounts that executing the same mint or burn right then mints, spends, refunds, burns and redeems whenever that execution succeeds, and reject attached funds that execution rejects. The config, fee, portfolio, balance, supply, rebalance and trade-route queries report exactly the stored state, with pending streaming-fee accrual up to the requested time applied, and no query changes state.",
 ["inputs","histories"],"all reachable states, query arguments and times",
 "tests compare simulations on single fixed states; agreement must hold for every portfolio, fee and time",
 [QRY,TOK,FEE,UNI],[("simulations",QRY)],observe=["query responses","entry point responses"])
p("C14","No asset ever occurs twice in the portfolio",
 "In every state the contract can reach, each asset occurs at most once in the portfolio and at most once among the reserve units, and instantiation with a repeated asset is rejected. Adding to or subtracting from an asset changes that asset's unit by exactly the given amount, keeps all other assets and their order, and fails rather than wraps when the unit would become negative or too large.",
 ["histories","inputs"],"all portfolios and operation sequences",
 "duplicates make lookups by asset silently ignore value; tests use short lists without near-duplicates",
 [UNI,CON],[("duplicate check",UNI),("unit updates",UNI)],
 [("index units","portfolio",C+'state/mod.rs')])
p("A01","An airdrop never pays out more than it received and closes exactly once",
 "For every airdrop the sum of all successful claims never exceeds its total funding, each successful claim sends exactly the claimed amount of the airdrop's own denomination to the claimer and counts exactly that amount, and closing sends exactly the unclaimed remainder to the creator once. After closing, no claim, funding or second close succeeds.",
 ["histories","inputs"],"all interleavings of register, fund, claim and close over any number of airdrops",
 "the bound is over whole histories with many claims and fundings; tests run a few fixed steps",
 [A+'execute/claim.rs',A+'execute/close.rs',A+'execute/fund.rs'],[("claim accounting",A+'execute/claim.rs'),("close",A+'execute/close.rs')],
 [("airdrop","totals and closing height",A+'airdrop.rs')])
p("A02","Every claim key is honoured at most once per airdrop",
 "In an open airdrop each account, and in a bearer airdrop each claim hash, can claim successfully at most once, whoever submits it, and the recorded claim is exactly the amount paid. Claims in one airdrop never block or consume claims in another.",
 ["histories","inputs"],"all claim sequences over all airdrops, accounts and hashes",
 "tests repeat one claim once; collisions across airdrops, keys and submitters need arbitrary histories",
 [A+'execute/claim.rs',A+'state.rs'],[("claim log",A+'state.rs')],
 [("claim logs","claimed amount per airdrop and key",A+'state.rs')])
p("A03","A claim needs a valid Merkle proof and, for bearers, the signer's signature",
 "A claim succeeds only if the sha256 hash of \"<key>:<amount>\" (key: the claimer's account in an open airdrop, the claim hash in a bearer airdrop), folded with the given proof by hashing sorted pairs, equals the airdrop's Merkle root. A bearer claim additionally requires the registered signer's signature over the sha256 hash of \"<claim hash>/<claimer>/<amount>\". An open claim is never accepted by a bearer airdrop or vice versa.",
 ["inputs"],"all roots, proofs of any length, keys, amounts, accounts and signatures",
 "tests use a few recorded proofs; rejection must hold for every altered field and proof of any length",
 [A+'verify.rs',A+'execute/claim.rs'],[("Merkle verification",A+'verify.rs'),("signature check",A+'execute/claim.rs')])
p("A04","Only the creator funds or closes an airdrop and nothing else changes",
 "Funding and closing an airdrop succeed only for its creator while it is open; funding needs a positive payment of exactly the airdrop's denomination and raises its total by exactly that payment. Registering, funding, claiming and closing one airdrop leave every other airdrop, label and claim record untouched and never change an airdrop's creator, signer, denomination, Merkle root, label or creation height.",
 ["inputs","histories"],"all senders, payments, airdrops and states",
 "tests never check the untouched fields and other airdrops",
 [A+'execute/fund.rs',A+'execute/close.rs',A+'execute/claim.rs'],[("fund",A+'execute/fund.rs'),("close",A+'execute/close.rs')])
p("A05","Registration gives a fresh id, a unique namespaced label and the paid total",
 "Each registration gets a new consecutive id never used before, records the sender as creator, the payment (positive, single denomination as named) as total, nothing claimed, and the given 32-byte Merkle root. A label is stored under the sender's own namespace (\"<sender>/<label>\"), is never reassigned, and identifies exactly the airdrop it was registered with. A bearer registration needs a signature by the given public key over the hash of its own address.",
 ["inputs","histories"],"all registration sequences, senders, labels, roots, keys and payments",
 "tests register one or two airdrops; freshness and label uniqueness are history properties",
 [A+'execute/register.rs',A+'state.rs',A+'verify.rs'],[("register",A+'execute/register.rs'),("labels",A+'state.rs')],
 [("latest airdrop id","next id",A+'state.rs'),("labels","label to id",A+'state.rs')])
p("A06","Airdrop queries agree with state and with what a claim would accept",
 "For an explicitly given account, claim verification answers positively exactly when the same claim's proof and signature would be accepted by execution at that moment for that airdrop (earlier claims and remaining balance aside). Looking up an airdrop by id or by label, its claims and labels returns exactly the stored values.",
 ["inputs","histories"],"all states and all open and bearer claim payloads",
 "tests query only recorded open claims; the bearer path was never checked end to end",
 [A+'query/claim.rs',A+'query/airdrop.rs',A+'query/label.rs',A+'verify.rs'],[("verify claim",A+'query/claim.rs')],observe=["query responses"])
p("P01","Only the periphery itself can finish an operation; it returns everything left",
 "The internal finishing step of the periphery succeeds only when called by the periphery contract itself and sends its whole balance of the named asset to the named valid address. Nobody else can trigger a payout of the periphery's balance.",
 ["inputs"],"all callers, assets, balances and refund addresses",
 "tests have no periphery execution coverage offline; every caller must be excluded",
 [Q+'execute.rs',Q+'contract.rs'],[("finish operation",Q+'execute.rs')])
p("P02","Periphery operations respect the user's limits",
 "A mint with exact input never lets its swaps spend more than the payment and succeeds only if the index tokens to be received after the mint fee reach the requested minimum; a mint with exact output mints exactly the requested amount and never lets its swaps spend more than the payment. A burn with exact input burns exactly the payment and the minimum outputs of its swaps together with what needs no swap add up to at least the requested minimum; a burn with exact output never burns more than the payment, and what it burns is an amount whose simulated proceeds reach the requested output to within the fixed tolerance without exceeding it, grossed up by the burn fee, less one unit. Whenever the simulation says a limit cannot be met, the operation fails.",
 ["inputs"],"all portfolios, pools, routes, fees, payments and limits",
 "tests need a live chain; limits depend on rounding in every split",
 [Q+'execute.rs',Q+'lib.rs',K+'pool/src/sim/route.rs',K+'pool/src/sim/mod.rs'],[("limits",Q+'execute.rs'),("split over swaps",K+'pool/src/sim/route.rs')])
p("P03","Periphery operations compose the right messages in the right order",
 "A mint through the periphery consists of its swaps, then one core mint paying for every portfolio asset its unit times the minted amount rounded up, with receiver and refund address set to the user, then the return of the remaining input asset to the user. A burn through the periphery consists of one core burn paying the index tokens, then its swaps, then the return of the output asset (and, for exact output, also the remaining index tokens) to the user. All swaps are sent by the periphery along the user's given routes, and the payment must be the single asset named.",
 ["inputs"],"all portfolios, swap routes, payments and amounts",
 "not covered offline by tests at all",
 [Q+'execute.rs',Q+'lib.rs',K+'interface/src/helpers/core.rs',K+'interface/src/types.rs'],[("message composition",Q+'execute.rs')])
p("P04","Periphery simulations report what the operation does",
 "The simulation of a mint with exact output reports as received the requested amount less the mint fee, as spent every portfolio asset's unit times the requested amount rounded up, and as cost the simulated input of exactly the swaps such a mint sends; the simulation of a burn with exact input reports the paid amount less the burn fee, every unit times that amount rounded down, and the simulated output of exactly the swaps such a burn sends. The simulations of a mint with exact input and of a burn with exact output report an index amount whose simulated cost (or proceeds) does not exceed the named amount and misses it by less than the fixed tolerance, the assets spent (or redeemed) for it, and the amount after the mint fee, less a fixed margin of 100 (or before the burn fee). Asset lists are sorted by denomination.",
 ["inputs"],"all portfolios, fees, pools, routes and amounts",
 "no unit test calls the periphery's queries; agreement with execution depends on fee, rounding and order in every combination",
 [Q+'query.rs',Q+'lib.rs',Q+'contract.rs'],[("simulation queries",Q+'query.rs')],observe=["query responses"])
p("M01","Power computation is exact for integer exponents and accurate otherwise",
 "For every base in (0,2), an integer exponent gives the repeated fixed-point product (exponent 0 gives one, exponent 1 the base itself), and any other exponent gives the product of the integer power and the binomial series of the fractional power cut off at the documented precision 1e-8, which for bases of at least one half is within 1e-7 of the true value. Bases outside the supported range are rejected and the signed difference always returns the absolute difference with a flag telling whether the first argument is larger.",
 ["inputs"],"all bases and exponents",
 "tests evaluate a few points; the exponent-between-one-and-two defect repaired here slipped through them",
 [K+'math/src/pow.rs'],[("pow",K+'math/src/pow.rs')],observe=["return values"])
p("W01","Weighted pool simulation never drains reserves and updates them exactly",
 "A simulated swap with exact input returns at most the output reserve, a swap with exact output of half the reserve or more is refused, and amounts follow the weighted constant-product formula with the swap fee taken from the input (using the documented power approximation, output rounded down, input rounded up). After a simulated swap the input reserve has grown by exactly the input and the output reserve has shrunk by exactly the output, all other reserves, weights and parameters are unchanged, and an unknown asset is an error.",
 ["inputs"],"all reserves, weights, fees and amounts within the supported base range",
 "tests replay recorded mainnet pools; conservation and rounding must hold for all reserves and weights",
 [K+'pool/src/weighted.rs',K+'math/src/pow.rs'],[("weighted pool",K+'pool/src/weighted.rs')],observe=["return values","pool state"])
p("S01","Route simulation totals and per-swap limits add up",
 "Simulating a mint or burn of an index amount produces one entry per portfolio asset in order, with exactly the asset amount the core contract charges (at least unit times amount) or redeems (unit times amount rounded down), passes the assets hop by hop through the user's route with pool state carried over between swaps, and totals exactly the sum of the entries. Turning a simulation into swap messages fails if the user's limit is tighter than the total; otherwise one swap per entry that needs a swap is produced in order, whose maximum inputs never sum to more than, and whose minimum outputs (with unswapped amounts) never sum to less than, the limit, and no swap's limit is tighter than its own simulated amount.",
 ["inputs"],"all portfolios, pools, routes, amounts and limits",
 "tests compare a few totals with recorded data; the sum bounds depend on rounding in every entry",
 [K+'pool/src/sim/route.rs',K+'pool/src/sim/index_in.rs',K+'pool/src/sim/index_out.rs'],[("limits",K+'pool/src/sim/route.rs')],observe=["return values"])
p("S02","Amount search returns only results within budget and tolerance",
 "Whenever the search for the index amount affordable with a given input succeeds, its simulated spending does not exceed the input and misses it by less than the fixed tolerance; likewise the search for the index amount needed for a given output returns a result whose simulated output is below or equal to the desired output by less than the tolerance. Revised estimates (for tolerances up to one) stay between the user's limit and the searched amount, a user limit the search cannot meet is refused, and every returned result equals a fresh simulation of its own index amount.",
 ["inputs"],"all pools, portfolios, inputs, limits and tolerances",
 "tests check convergence for one data set; the guarantee must hold for whatever the iteration ends with",
 [K+'pool/src/sim/index_in.rs',K+'pool/src/sim/index_out.rs',K+'pool/src/sim/mod.rs'],[("search loops",K+'pool/src/sim/index_out.rs')],observe=["return values"])
p("U01","Migration only moves to a strictly newer version of the same contract",
 "Without force, a migration of any of the contracts succeeds only if the stored contract name equals its own and its version is strictly greater by semantic versioning than the stored one; otherwise it fails without effect. A successful or forced migration records exactly the contract's own name and version, and no other state changes.",
 ["inputs","configurations"],"all stored names and versions including pre-releases and malformed strings",
 "tests compare three version strings",
 [K+'utils/src/lib.rs',CON,A+'contract.rs',Q+'contract.rs'],[("version check",K+'utils/src/lib.rs')])
p("L01","Listings are paginated, ordered, complete and bounded",
 "Every listing query returns at most the requested number of entries (10 by default), refuses a limit above 30, returns entries strictly after the given cursor in ascending order or strictly before it in descending order, and following the cursor enumerates each stored entry exactly once.",
 ["inputs","histories"],"all stored sets, cursors, limits and orders",
 "tests list three entries; off-by-one at cursors and limits needs all combinations",
 [K+'interface/src/lib.rs',QRY,A+'query/airdrop.rs',A+'query/claim.rs',A+'query/label.rs'],[("range options",K+'interface/src/lib.rs')],observe=["query responses"])
p("T01","Swap routes and route descriptions convert without loss",
 "A compact route description \"in,out\" with hops \"pool,denom\" converts to exactly that pair of assets and that hop list in order; the pools needed for a set of routes are exactly the distinct pools mentioned, sorted ascending. Swap estimates and swap messages built from a route keep its hops in order with exactly the given sender, asset, amount and limit.",
 ["inputs"],"all routes of any length, amounts and limits",
 "tests convert one single-hop example",
 [K+'interface/src/types.rs',K+'interface/src/periphery.rs',UPD],[("route conversion",K+'interface/src/types.rs'),("pool id extraction",K+'interface/src/periphery.rs')],observe=["return values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
