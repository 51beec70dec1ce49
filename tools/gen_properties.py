#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P=[]
C='contracts/core/src/'; A='contracts/airdrop/src/'; Q='contracts/periphery/src/'; L='packages/pool/src/'
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every redemption right and collected fee is fully backed by held assets",
 "After every operation the index contract holds, for every asset, at least (per-token unit x index tokens in circulation) plus the streaming fees accrued but not yet paid out plus any proceeds set aside by a running rebalance. No operation by any user, governance, manager or collector can take assets out that others still have a claim on.",
 ["histories","inputs"],"all histories of mint, burn, fee realisation, governance updates, rebalance and the passing of time, over all portfolios, unit values and fee settings",
 "The unit tests call single handlers on hand-written round numbers with a mocked bank that never checks balances; none accumulates a history, so a leak of value between operations is invisible to them.",
 [C+"execute/token.rs",C+"execute/fee.rs",C+"state/fee.rs",C+"state/units.rs",C+"execute/rebalance"],
 [("required funds and redemption amounts are unit x amount",C+"state/units.rs calc_require_amount/calc_refund_amount"),("units move by what was really swapped",C+"execute/rebalance/trade")],
 ["bank balance of the contract","GetPortfolio","GetFee","GetTotalSupply"],
 [("index units","claim of one index token on each asset",C+"state/mod.rs INDEX_UNITS"),("reserve units","sale proceeds not yet reinvested",C+"state/mod.rs RESERVE_UNITS"),("collected","streaming fee owed to the collector",C+"state/fee.rs")])

p("C02","Reported supply always equals the index tokens in circulation",
 "The reported total supply equals the amount of index tokens that exist on chain after every operation. It changes only by a successful mint (up, by the minted amount) or a successful burn (down, by the amount destroyed); a failed operation changes nothing.",
 ["histories","inputs"],"all histories of operations, including failing ones, and all amounts and fee rates",
 "Tests check the stored number of one call against one constant and never compare it with the tokens really minted or destroyed.",
 [C+"execute/token.rs",C+"query.rs"],[("supply counter updated next to the mint/burn message",C+"execute/token.rs mint/burn")],["GetTotalSupply","bank supply of the index denom","GetBalance"])

p("C03","A mint charges exactly the portfolio price and returns the rest",
 "A mint of N succeeds only when the attached funds are exactly the set of portfolio assets and each covers N x unit rounded down (at least one base unit); it keeps exactly that amount of each asset, sends every excess coin to the refund address, and gives the receiver N minus the mint fee (N x rate rounded down, at least one base unit) and the collector the fee. A missing, extra or insufficient asset makes it fail without effect; sufficient funds make it succeed when minting is open.",
 ["inputs","configurations"],"all amounts, unit vectors, fee rates, fund vectors, and receiver/refund addresses, at any point of a history",
 "The tests use a handful of fund vectors and two fee rates; rounding at fractional units, the one-unit minimum and unusual fund sets are not covered.",
 [C+"execute/token.rs",C+"state/units.rs"],[("refund computation rejects missing and extra denoms",C+"state/units.rs calc_refund_amount"),("fee split",C+"execute/token.rs mint")],["bank balances of sender, receiver, refund address, collector, contract"])

p("C04","A burn redeems exactly the portfolio share of the tokens destroyed",
 "A burn accepts only index tokens; of the R received, the burn fee (R x rate rounded down) goes to the collector, the rest is destroyed, and the redeem address receives, for every portfolio asset, the destroyed amount x unit rounded down and nothing else. It takes nothing from and gives nothing to anyone else.",
 ["inputs","configurations"],"all amounts, unit vectors, fee rates, payment coins and redeem addresses, at any point of a history",
 "The tests cover three round-number burns; rounding and the interplay of fee, supply and fractional units are not sampled.",
 [C+"execute/token.rs",C+"state/units.rs"],[("fee split and redemption",C+"execute/token.rs burn")],["bank balances of sender, redeem address, collector, contract","bank supply"])

p("C05","Mint and burn simulations and portfolio reports match what execution does",
 "For any state, amount and funds, the mint and burn simulations report the same received amount, spent funds, refund and redemption that the corresponding operation then produces, and fail when its asset requirements would make it fail. Balance and portfolio queries report the holder's tokens and, for the current or a requested later time, the units and assets the next operation at that time would use.",
 ["inputs","histories","configurations"],"all amounts, fund vectors, fee settings and query times at any point of a history",
 "No test runs a simulation and then the operation; the query code recomputes every figure separately, so the two can drift apart.",
 [C+"query.rs",C+"state/units.rs",C+"state/fee.rs"],[("simulation re-derives accrual, requirement and fee",C+"query.rs simulate_mint/simulate_burn/get_portfolio")],["SimulateMint","SimulateBurn","GetPortfolio","GetBalance"])

p("C06","Streaming fee accrues by the compound formula, once per elapsed second",
 "When a streaming fee with rate r is active, each state-changing accrual after t elapsed seconds lowers every unit by unit x ((1+r)^t - 1) and books exactly that reduction x supply (rounded down) as owed to the collector; accruing twice at the same instant changes nothing the second time. While the fee is frozen or absent no unit changes and nothing is booked, and fee queries for the current or a later time report precisely what accrual at that time would yield.",
 ["histories","inputs"],"all rates up to the maximum, elapsed times, unit vectors and supplies, with freezing and fee changes interleaved",
 "Tests check two rates at one or two durations against loose brackets; interleavings with mint, burn, freeze and re-configuration are not covered.",
 [C+"state/fee.rs",C+"execute/fee.rs",C+"contract.rs",C+"query.rs"],[("accrual",C+"state/fee.rs StreamingFee::collect"),("accrual before each supply- or fee-affecting operation",C+"contract.rs execute")],["GetFee","GetPortfolio"])

p("C07","Accrued fees are paid to their collector in full, once, and only to it",
 "Realising fees succeeds only for the configured collector and transfers to it exactly the accrued amounts, after which nothing is owed; a second realisation at the same instant pays nothing. Fees accrued before a change of the fee strategy are never lost: they reach the collector they accrued to, or remain claimable.",
 ["histories"],"all histories that interleave accrual, realisation and fee strategy changes",
 "The fee update test checks only attributes and the new configuration, so dropping accrued fees goes unnoticed.",
 [C+"execute/fee.rs",C+"execute/gov/update.rs"],[("realisation",C+"execute/fee.rs realize_streaming_fee"),("strategy change",C+"execute/gov/update.rs update_fee")],["bank balance of collectors","GetFee"])

p("C08","An index can only be created and run with a valid configuration",
 "Whatever is requested at creation or in a fee update, the contract never ends up with a mint, burn or streaming rate that is not strictly between 0 and 1, nor a streaming rate above the fixed maximum, nor an invalid address, nor a portfolio listing an asset twice; such requests fail and leave everything as it was, and all other requests by an entitled sender are accepted and reported back exactly.",
 ["inputs","configurations"],"all creation and fee update payloads, including boundary rates and malformed addresses",
 "Tests check a few rates around the limits on the validator alone, not through creation and update.",
 [C+"contract.rs",C+"state/fee.rs",C+"state/units.rs",C+"execute/gov/update.rs"],[("rate check",C+"state/fee.rs check_rates"),("duplicate check",C+"contract.rs instantiate")],["GetFee","GetConfig","GetPortfolio"])

p("C09","Governance powers belong to governance alone, with two-step handover",
 "Pausing, releasing, changing fees, reserve asset, trade routes or the rebalance manager, starting a rebalance and proposing or revoking a successor succeed only for the current governance address; anyone else's attempt fails without effect. Governance changes hands only when the address that current governance proposed (and has not revoked) itself accepts, and at most one proposal is pending at a time.",
 ["histories"],"all histories of governance operations by all senders",
 "Tests exercise each operation once with one stranger; sequences of propose, revoke, accept and re-propose with operations by former or future governance are not covered.",
 [C+"execute/gov",C+"execute/rebalance/init.rs",C+"state/config.rs"],[("sender check",C+"state/config.rs check_gov"),("pending governance",C+"execute/gov/update.rs update_gov/accept_gov/revoke_gov")],["GetConfig","outcome of each call"])

p("C10","A pause blocks mint and burn exactly while it is in force",
 "From a successful pause until its expiry second is reached or governance releases it, every mint and burn fails; at any other time the pause does not block them. A pause needs an expiry in the future (or none), cannot be placed over a pause in force, can be released only while in force, and the reported pause state for any queried time agrees with this.",
 ["histories","schedules"],"all sequences of pause, release, mint, burn and clock advances, including exact expiry seconds",
 "Tests fix a single clock value per check; expiry boundaries across operations and re-pausing after expiry are not covered.",
 [C+"state/pause.rs",C+"execute/gov/pause.rs",C+"execute/token.rs",C+"query.rs"],[("expiry",C+"state/pause.rs refresh")],["outcome of mint/burn","GetConfig"])

p("C11","A running rebalance locks the portfolio and suspends the streaming fee",
 "From a successful rebalance start to its finalisation, every mint, burn, fee strategy change, reserve asset change and second start fails, and streaming fee accrual is suspended for that whole period without being charged later; a manager change is possible only then. Starting requires a non-empty set of assets to reduce, each in the portfolio with a target not above its current unit, and a non-empty disjoint set of assets to increase with usable weights, without repetitions; trades and finalisation are impossible outside a rebalance.",
 ["histories","inputs"],"all start payloads and all histories around a rebalance",
 "Tests check the validator on fixed payloads and each lock once; combinations with time, fees and failed attempts are not covered.",
 [C+"execute/rebalance/init.rs",C+"state/rebalance.rs",C+"execute/token.rs",C+"execute/gov/update.rs",C+"execute/rebalance/finalize.rs"],[("validation",C+"state/rebalance.rs Rebalance::validate"),("freeze and unfreeze",C+"execute/rebalance/init.rs, finalize.rs")],["outcome of each call","GetRebalance","GetFee"])

p("C12","Rebalance trades stay within the limits governance set",
 "A rebalance trade succeeds only from the manager (or anyone, if none is set), for an asset the rebalance declared on that side, over a route governance registered for that pair, not before the cooldown since the previous trade on that pair has passed, and for at most the registered trade size. A sale never spends more of an asset than the gap to its target nor more than the caller's maximum, a purchase never spends more than the proceeds set aside for that asset nor yields less than the caller's minimum, and no trade touches any other asset.",
 ["histories","inputs"],"all trade requests in all rebalance states, with all cooldowns, limits, clocks and pool prices",
 "Tests call one sale and one purchase at fixed prices; boundary amounts, repeated trades over time and undeclared assets are not covered.",
 [C+"execute/rebalance/trade",C+"state/rebalance.rs"],[("limits",C+"execute/rebalance/trade/deflate.rs, inflate.rs"),("cooldown",C+"state/rebalance.rs assert_cooldown")],["bank balances","outcome of each call","GetTradeInfo"])

p("C13","Rebalance bookkeeping moves exactly the value that was traded",
 "A sale lowers the sold asset's unit by what was really spent per index token and credits what was really received, per token, to the assets being increased in proportion to their weights; a purchase lowers that asset's set-aside proceeds by what was spent and raises its unit by what was received; the reserve asset itself converts one to one without a swap. Up to rounding in the last (18th) decimal per trade, no unit or proceeds appear or vanish, and no other unit changes.",
 ["histories","inputs"],"all sequences of trades over all weights, units, supplies and prices",
 "Tests check one trade each with round units and equal weights; sequences and uneven weights are not covered.",
 [C+"execute/rebalance/trade/deflate.rs",C+"execute/rebalance/trade/inflate.rs",C+"state/units.rs"],[("weight split",C+"execute/rebalance/trade/deflate.rs inflate_reserve_unit")],["GetPortfolio","stored reserve units","bank balances"])

p("C14","A rebalance finalises exactly when its goals are met",
 "Finalisation succeeds if and only if a rebalance is running, the sender is the manager (or no manager is set), every asset to be reduced is at or below its target and no proceeds remain set aside. It then ends the rebalance, drops exactly the assets whose unit is zero, keeps all other units, and streaming fees accrue again from that moment.",
 ["histories"],"all rebalance states, senders and clocks",
 "Tests check four hand-written states; states reached by real trades are not covered.",
 [C+"execute/rebalance/finalize.rs"],[("conditions and pruning",C+"execute/rebalance/finalize.rs finalize")],["outcome of the call","GetRebalance","GetPortfolio","GetFee"])

p("C15","A started rebalance can always be driven to completion",
 "From every state a started rebalance can reach, there is a sequence of allowed trades, given registered routes with sufficient liquidity, after which finalisation succeeds and mint and burn work again. In particular no accepted start payload leads to a rebalance whose every trade fails.",
 ["histories","inputs","configurations"],"all accepted start payloads, portfolios, supplies and reachable rebalance states",
 "It is a reachability property over sequences of trades; tests never drive a rebalance from start to end.",
 [C+"execute/rebalance",C+"state/rebalance.rs"],[("validation on start",C+"state/rebalance.rs validate"),("exact-zero conditions on finalise",C+"execute/rebalance/finalize.rs")],["outcome of finalise after a greedy trading strategy"])

p("C16","A rebalance trade is sent to the chain as a swap of the right assets",
 "The swap a sale sends spends the asset being reduced and yields the reserve asset, along exactly the registered pools and within the simulated amounts; the swap a purchase sends spends the reserve asset and yields the asset being increased. Executed under the chain's own route rules, no trade swaps any other pair of assets.",
 ["inputs","configurations"],"all registered routes of one or more hops, both directions, all amounts",
 "Tests compare the message with one the same helper built; nothing executes it under the chain's route semantics.",
 ["packages/interface/src/types.rs",C+"execute/rebalance/trade",C+"execute/gov/update.rs"],[("message construction","packages/interface/src/types.rs SwapRoutes"),("route registration key",C+"execute/gov/update.rs update_trade_info")],["emitted swap messages"])

p("C17","Registered trade routes are stored, replaced and listed faithfully",
 "A registered trade route is reported back, by single lookup and by listing per input asset, with exactly the pools, cooldown and size limit governance gave and the time of its last trade; registering the same pair again replaces it and clears the last trade time, and registering one pair never affects another. Paged listing in either order visits each route exactly once, in key order, and respects the page limit.",
 ["histories","inputs"],"all sequences of registrations and trades and all paging parameters",
 "Tests read back one registration; collisions between pairs, replacement and paging are not covered.",
 [C+"execute/gov/update.rs",C+"query.rs",C+"state/mod.rs","packages/interface/src/lib.rs"],[("composite key",C+"state/mod.rs TRADE_INFOS"),("paging","packages/interface/src/lib.rs range_option")],["GetTradeInfo","ListTradeInfo"])

p("C18","Failed operations leave no trace and unknown inputs never corrupt state",
 "Any message, including malformed amounts, empty or foreign denoms, invalid addresses and extreme numbers, is either carried out fully or fails with no observable change to balances, configuration, portfolio, fees or rebalance. After any such attempt the ordinary operations that were possible before are still possible.",
 ["inputs","histories"],"arbitrary well-typed messages with arbitrary senders and funds at any point of a history",
 "Tests send well-formed messages only and never check that later operations still work.",
 [C+"contract.rs",C+"execute"],[("all checks precede effects; chain reverts failed messages",C+"execute")],["all queries","bank balances"])

p("C19","Airdrop funds are conserved and isolated per airdrop",
 "At all times the airdrop contract holds, per asset, at least the sum over open airdrops of funds put in minus claims paid, and each airdrop's reported funding and claimed totals equal what was really paid in and out for it. No airdrop ever pays out more than was put into it, whatever happens to others.",
 ["histories"],"all histories of register, fund, claim and close over many concurrent airdrops sharing denoms",
 "Tests handle one airdrop at a time with a bank that is not checked.",
 [A+"execute",A+"airdrop.rs"],[("claimed total capped by funding",A+"execute/claim.rs"),("exact payment required",A+"execute/register.rs, fund.rs")],["bank balances","GetAirdrop"])

p("C20","Each airdrop entitlement is paid at most once",
 "For each airdrop, an account entitlement (open airdrop) or a claim code (bearer airdrop) is paid at most once, no matter who submits the claim, which account is named, how the airdrop is addressed or in what order claims arrive. Every payment made is recorded and reported with its exact amount, and nothing else is.",
 ["histories"],"all claim histories, including replays by other senders, by id and by label, and with other amounts",
 "The tests replay one claim once, with one sender, by id.",
 [A+"execute/claim.rs",A+"state.rs"],[("claim log",A+"state.rs assert_not_claimed, CLAIM_LOGS")],["bank balances","GetClaim","ListClaims"])

p("C21","Only entitlements committed by the creator are paid, and all of them can be",
 "An open claim is paid only if the (account, amount) pair is in the list the airdrop's root commits to, and goes to that account; a bearer claim only if the (code, amount) pair is in the list and the airdrop's registered signer signed that code, recipient and amount, and goes to that recipient. Conversely, while the airdrop is open, funded and the entitlement unpaid, a claim with a correct proof (and signature) succeeds.",
 ["inputs","histories"],"all entitlement lists, proofs, signatures and adversarial mutations of them",
 "Tests use one fixed tree and one tampered amount.",
 [A+"verify.rs",A+"execute/claim.rs",A+"execute/register.rs"],[("merkle proof",A+"verify.rs verify_merkle_proof"),("signature",A+"execute/claim.rs claim_bearer")],["outcome of claims","bank balances"])

p("C22","Airdrop funding and closing are the creator's alone and final",
 "Only an airdrop's creator can add funds to it or close it, and additions must be in its asset alone; closing pays the creator exactly the unclaimed remainder and thereafter no claim, funding or second close succeeds. A bearer airdrop can be registered only with a key whose holder signed its own address, and registering needs a well-formed root and a positive amount of the one asset.",
 ["histories","inputs"],"all histories of register, fund, close and claim by all senders",
 "Tests check each rejection once on fixed states.",
 [A+"execute/fund.rs",A+"execute/close.rs",A+"execute/register.rs"],[("creator and closed checks",A+"execute/fund.rs, close.rs")],["outcome of calls","bank balances","GetAirdrop"])

p("C23","Claim verification agrees with claiming",
 "For any open airdrop and any claim payload naming an account, the verification query answers valid exactly when the proof and signature checks of the claim operation itself would accept that payload, for both airdrop kinds. It never answers valid for a closed airdrop.",
 ["inputs","histories"],"all claim payloads, valid and tampered, for both airdrop kinds",
 "Tests of the query do not exist for bearer airdrops.",
 [A+"query/claim.rs",A+"execute/claim.rs"],[("verification query",A+"query/claim.rs verify_claim")],["VerifyClaim","outcome of Claim"])

p("C24","Airdrop ids, labels and listings are faithful and complete",
 "Airdrops are numbered consecutively from 0, a creator's label is bound to the one airdrop registered with it forever and never collides with another creator's, and lookup by id or label yields the same airdrop. Paged listings (by id, type, label, creator; of claims; of labels) in either order visit each matching item exactly once, in key order, nothing else, and never more than the page limit.",
 ["histories","inputs"],"all registration histories, label strings and paging parameters",
 "Tests list a few airdrops with one or two page settings.",
 [A+"state.rs",A+"query","packages/interface/src/lib.rs"],[("indexes",A+"state.rs airdrops"),("label key",A+"execute/register.rs"),("paging","packages/interface/src/lib.rs range_option")],["GetAirdrop","ListAirdrops","GetLabel","ListLabels","ListClaims","LatestAirdropId"])

p("C25","Minting for a fixed payment gives at least the stated minimum, or nothing",
 "When a fixed payment mint through the periphery succeeds, the user has received at least the stated minimum of index tokens net of fees, has spent no more than the payment, and everything not used comes back to the user. When it fails, nothing moved.",
 ["inputs","configurations"],"all payments, minima, portfolios, fees, routes and pool states",
 "No test runs the periphery at all here.",
 [Q+"execute.rs",L+"sim"],[("search for the mintable amount",L+"sim/index_out.rs"),("finish step returns the rest",Q+"execute.rs finish_operation")],["bank balances of user, periphery and others"])

p("C26","Minting a fixed amount spends at most the payment and returns the rest",
 "When a fixed output mint through the periphery succeeds, exactly the requested number of index tokens was minted, the user received it less the mint fee, the user spent no more than the payment and everything not used came back. When the payment does not suffice, the call fails and nothing moved.",
 ["inputs","configurations"],"all payments, amounts, portfolios, fees, routes and pool states",
 "No test runs the periphery at all here.",
 [Q+"execute.rs",L+"sim"],[("input estimate and per-swap caps",L+"sim/index_out.rs, route.rs to_msgs")],["bank balances","bank supply"])

p("C27","Burning a fixed amount yields at least the stated minimum, or nothing",
 "When a fixed input burn through the periphery succeeds, exactly the index tokens paid were burned (less the burn fee), and the user received at least the stated minimum of the output asset, up to one base unit per portfolio asset of rounding, together with everything else the operation obtained of that asset. When it fails, nothing moved.",
 ["inputs","configurations"],"all amounts, minima, portfolios, fees, routes and pool states",
 "No test runs the periphery at all here.",
 [Q+"execute.rs",L+"sim"],[("per-swap minimum outputs",L+"sim/route.rs to_msgs")],["bank balances","bank supply"])

p("C28","Burning for a fixed output takes at most what was paid and returns the rest",
 "When a fixed output burn through the periphery succeeds, the user spent at most the index tokens paid in, got every unused index token back and received the requested output asset up to the estimator's documented error (fewer than 5000 base units short) and rounding, and not more than asked for beyond rounding. When the tokens paid do not suffice, the call fails and nothing moved.",
 ["inputs","configurations"],"all outputs, payments, portfolios, fees, routes and pool states",
 "No test runs the periphery at all here.",
 [Q+"execute.rs",L+"sim/index_in.rs"],[("search for the amount to burn",L+"sim/index_in.rs")],["bank balances","bank supply"])

p("C29","The periphery keeps nothing and its payout step is internal",
 "After any successful periphery operation the periphery holds none of the payment or output asset, no more index tokens and no more of any other asset than before (portfolio assets a burn returns beyond what the swaps take excepted, and these are below one index unit's worth), and no third party's balance changed except pools and the fee collector. Its payout step cannot be invoked by anyone but itself, so nobody can make it send coins anywhere.",
 ["histories","inputs"],"all sequences of periphery operations by several users and direct attempts to call the payout step",
 "No test runs the periphery at all here.",
 [Q+"execute.rs"],[("sender assertion",Q+"execute.rs finish_operation")],["bank balances of the periphery and of others"])

p("C30","Periphery simulations predict what execution does",
 "For any state and request, executing a fixed output mint with the simulated payment, or a fixed input burn with the simulated amount, succeeds and gives what was simulated (up to pool rounding of a few base units); the simulated burn for an output, and the simulated mint for a payment, are achievable in the same sense within the estimator's documented error.",
 ["inputs","configurations"],"all requests, fees, portfolios, routes and pool states",
 "No test runs the periphery at all here.",
 [Q+"query.rs",Q+"execute.rs",Q+"lib.rs"],[("fee adjustment",Q+"lib.rs deduct_fee/expand_fee"),("simulation queries",Q+"query.rs")],["simulation queries versus execution effects"])

p("C31","Weighted pool estimates follow the invariant and never favour the trader",
 "For every weighted pool, trade and spread factor, the estimated output for an input (and input for an output) equals the weighted constant-product formula within the documented power precision, is monotone in the amount, and selling then buying back never yields a profit beyond that precision. The simulated pool state afterwards reflects exactly the amounts traded, and impossible trades are refused, not mispriced.",
 ["inputs"],"all balances, weights, spread factors and amounts in the supported range",
 "The package's own tests need a chain binary that cannot be built here, and they compare a few recorded pools.",
 [L+"weighted.rs","packages/math/src/pow.rs"],[("invariant solution",L+"weighted.rs solve_constant_function_invariants"),("pool state update",L+"weighted.rs apply_new_pool_assets")],["pool simulation interface"])

p("C32","The power function is accurate over its whole domain",
 "For every base strictly between 0 and 2 and every non-negative exponent, the fixed point power agrees with the real power within the documented precision (relative to the integer part's magnitude), equals 1 for exponent 0 and the base for exponent 1; bases outside the domain are refused.",
 ["inputs"],"all bases in (0,2) at which the series converges in bounded work, and all exponents in the practical range",
 "The test has six points, none with an exponent between 1 and 2.",
 ["packages/math/src/pow.rs"],[("integer and fractional split","packages/math/src/pow.rs pow, pow_int, pow_approx")],["return value"])

p("C33","Index estimates are consistent, route by route and in total",
 "An estimate for trading a basket over given routes uses, for every portfolio asset, the route given for it with the pools in order and pool state carried over from one asset's swap to the next, reports per-asset amounts that add up to the total, and swaps no asset that already is the payment or output asset. The searches never report an amount above the payment, nor one that falls short of the request by the documented error or more, and the messages built from an estimate spend at most the caller's maximum and demand at least the caller's minimum up to rounding.",
 ["inputs","configurations"],"all baskets, routes of several hops, shared pools, amounts and limits",
 "The simulator's only test needs a chain binary and asserts nothing.",
 [L+"sim"],[("estimators and searches",L+"sim/index_in.rs, index_out.rs, mod.rs"),("message limits",L+"sim/route.rs")],["estimator results and swap messages"])

p("C34","Compact swap routes decode to the same routes and pools",
 "Decoding a compact route description yields exactly the assets, pools and hop order that were written, and the set of pools to load for any route list is exactly the pools that occur in it, each once. Pool records of each supported kind load with the id, fee and balances the chain reports, and one of an unknown kind is not taken for a supported one.",
 ["inputs"],"all route lists and pool records",
 "Two fixed decoding examples are tested; pool decoding is not tested here.",
 ["packages/interface/src/periphery.rs",L+"query.rs"],[("decoding","packages/interface/src/periphery.rs SwapInfoCompact"),("pool kind detection",L+"query.rs decode_pool")],["decoded values"])

p("C35","Migration never downgrades or cross-installs a contract unless forced",
 "For each contract, an unforced migration succeeds only when the stored contract name matches and the stored version is strictly lower by semantic versioning; it then records the new version, and otherwise changes nothing. A forced migration always records the current name and version, and no migration alters any other state.",
 ["inputs"],"all stored names and version strings, including pre-release and malformed ones",
 "One test covers a few version pairs on the helper only.",
 ["packages/utils/src/lib.rs",C+"contract.rs",A+"contract.rs",Q+"contract.rs"],[("version rule","packages/utils/src/lib.rs store_version")],["outcome of migrate","contract version record"])

p("C36","Every executed operation reports itself truthfully in its event",
 "Each operation that succeeds emits an event of its contract that the chain accepts (no blank key or value), naming the operation, who executed it and the accounts it concerns, and every amount in it is the amount the operation really moved, minted, burned, traded or recorded: what an indexer or a wallet reads there agrees with the balances and the state after it.",
 ["inputs","histories"],"all operations of the three contracts with all optional fields present or absent, any history before",
 "The tests hardly look at attributes, run no chain that would refuse a blank one, and never compare one with the coins moved.",
 [C+"execute",A+"execute",Q+"execute.rs"],[("core events",C+"execute/*.rs attributes"),("airdrop events",A+"execute/*.rs *_event"),("periphery events",Q+"execute.rs attributes")],["events of executed operations versus balances and queries"])

p("C37","Messages and answers keep the form the published client types state",
 "Every message and query of the three contracts that conforms to the published client types (ts/sdk) is accepted by the contract's decoder and keeps its meaning when encoded again; one that does not conform (an unknown field or variant, a missing required field, a value of another kind) is refused rather than read as something else; and every answer a contract gives to a query, in any state, has the published form for that query, so that a client built against the types never loses, misreads or is refused a value. The Rust client helpers send and ask exactly what the direct form would.",
 ["inputs","histories"],"all generated values of the published message types, all single deviations from them, all queries in any history",
 "The tests build messages as Rust values and read answers as Rust values; neither encoding nor decoding is compared with what clients send and read.",
 ["packages/interface/src","ts/sdk/src/contracts"],[("message and answer types","packages/interface/src/{core,airdrop,periphery}.rs and types"),("published types","ts/sdk/src/contracts/*.types.ts, *.client.ts")],["decoding and re-encoding of messages, shape of answers"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
