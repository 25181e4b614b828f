prop("C18", "Prices are cross-checked, and risky operations refuse unsafe ones",
 "Where an asset has both a market feed and an exchange price, the time-weighted exchange price is used while the two agree within the first tolerance, their average while they agree within the second, and beyond that every operation that could move value out (borrowing, withdrawing or swapping while in debt, leverage, debt swaps, liquidation, write-off, risk-raising refresh) is refused and changes nothing. The same operations are refused when a feed is as old as its allowed maximum age or older, when the price feed contract is paused, or when the exchange pair is not active, also when that asset only enters through the price of another one. Supplying, repaying, debt-free withdrawals, flash loans and reserve claims still work while sources disagree, and any configured source yields exactly its documented price.",
 IC, "every combination of pricing method, exchange, deviation band (at, just inside and just outside both tolerances), feed age, pair state, pause and price dependency, crossed with every operation of six accounts in different situations", RUNS + " No test reaches the oracle module; a single operation passing the wrong flag is invisible to example tests.",
 [CT+"oracle/mod.rs", CT+"lib.rs", CT+"strategy.rs", CT+"positions/liquidation.rs", CT+"cache/mod.rs"],
 [("calculate_final_price: tolerance bands", CT+"oracle/mod.rs"), ("find_token_price_in_egld_from_aggregator: staleness, pause", CT+"oracle/mod.rs"), ("allow_unsafe_price per operation", CT+"lib.rs")],
 [("token_oracle", "per-asset price configuration", CT+"storage/mod.rs")], technique=GRID)
prop("C25", "Exchange shares are priced at their manipulation-resistant fair value",
 "A liquidity-pool share is worth twice the square root of the product of both reserves and both independent prices, divided by the share supply, so trading against the pool does not change its price. It is computed once from exchange prices and once from feed prices. The exchange-price value is used while the two agree within the first tolerance, their average beyond it, and risky operations are refused beyond the second; pools of an exchange with another formula are not priced.",
 IC, "a grid of pool kinds, reserves across eight magnitudes, skews along the constant product up to 1:1000000, share supplies, price deviations and feed ages, crossed with the operations of accounts holding or owing shares", RUNS + " The formula must hold for all reserves and prices, not a few.",
 [CT+"oracle/mod.rs", "common/math/src/math.rs"],
 [("get_lp_price / fair reserves", CT+"oracle/mod.rs")], technique=GRID)
prop("C19", "A price round publishes the median of distinct, fresh, authorised reports",
 "A price report is taken only from a registered oracle, while not paused, with a time not in the future and at most 30 seconds old. Each oracle counts once per round; when the required number of reports is reached the published price is exactly their median (even count: average of the middle two, rounded down), with the current time and the next round number, and the next round starts empty. A round left incomplete for more than 30 minutes is discarded with all its reports, and pairs never mix. Only the owner manages oracles, the required number (1 to 50, never above the number of oracles) and the pause; deployment and upgrade leave it paused, and no price is served while paused or before a first round.",
 HI, "all sequences up to the stated depth of single and batched reports by several oracles on three pairs (with colliding concatenated names), time steps at the freshness and expiry bounds, and every administrative operation by owner and strangers; every combination of prices for the median; the limits 49-52 on counts", RUNS + " Nothing tests the aggregator.",
 [PA+"lib.rs", PA+"utils.rs", PA+"admin.rs", PA+"median.rs", PA+"views.rs"],
 [("submit_unchecked / create_new_round", PA+"utils.rs"), ("median", PA+"median.rs"), ("removeOracles with count", PA+"admin.rs")],
 [("submissions / rounds", "open round and last price per pair", PA+"storage.rs")],
 technique="explicit-state model checking: exhaustive breadth-first enumeration of report and administration histories on the real aggregator in the MultiversX VM, every answer compared with an independent model")

EV="common/events/src/events.rs"
prop("C29", "Events let an outside observer keep an exact copy",
 "After every accepted operation, the last market-state event of each market it touched reports the indexes, total supply, total debt, reserve, idle balance and time the market ends with, at the price used, and no market changes without one. Every position that changed is announced with its final value, the index and price in force, the account's attributes and the amount it changed by; a closed position is announced as empty. Every change of an isolated-debt counter, asset setting, price source, rate curve, e-mode category or e-mode listing, and every new market, is announced with the values stored. A liquidation announces a debt that can now be written off exactly when one remains, and a leveraged account the payment it started with.",
 HI, "for every accepted operation of every kind, in every state reached by the explored histories: strategies, liquidations, write-offs, refreshes, claims, rewards, flash loans, configuration changes, isolation and e-mode",
 RUNS + " Tests never look at event contents; indexers and liquidation bots see nothing else.",
 [EV, LL+"liquidity.rs", CT+"positions/update.rs", CT+"positions/liquidation.rs", CT+"config.rs"],
 [("emit_market_update", LL+"liquidity.rs"), ("update_position_event / emit_position_update_event", CT+"positions/update.rs"), ("check_bad_debt_after_liquidation", CT+"positions/liquidation.rs")], technique=BFS)
prop("C30", "Everyone can always get out",
 "From every state that operations lead to, as long as prices answer and the protocol is not paused, each debt can be repaid in full for the amount owed (up to one base unit), and once debts are repaid each deposit of each account can be withdrawn in full for its worth, in any order and to the last account, and the reserve can be claimed. After that no account is left open with positions, no market records a debt owed by nobody and no deposit owned by nobody but the reserve (up to a base unit per operation and position).",
 HI, "the complete exit, in both orders of accounts, from every distinct state reached by the explored histories (liquidations, write-offs, strategies, isolated, siloed, e-mode and retired e-mode accounts, claimed reserves)",
 RUNS + " A stuck withdrawal needs a particular history; tests sample none.",
 [CT+"positions/repay.rs", CT+"positions/withdraw.rs", LL+"liquidity.rs"],
 [("process_repayment / isolated debt", CT+"positions/repay.rs"), ("process_withdrawal, account closing", CT+"positions/withdraw.rs"), ("repay / withdraw / claim_revenue", LL+"liquidity.rs")], technique=BFS)
prop("C31", "Operations move no value between people",
 "Within one block, count for each person and token the wallet plus deposits minus debts. An operation changes it for nobody but those who take part (sender and holder of the account), and for them together only by rounding (at most a base unit per closed position or reserve payout) and by the configured fee of a flash loan, leverage or liquidation, which goes to the reserve and nowhere else. Changing configuration, refreshing accounts, synchronising indexes and claiming the reserve change it for nobody; only a write-off may cost bystanders and it makes nobody richer, only a reward may give to bystanders and it makes nobody poorer.",
 HI, "every accepted operation of the explored histories, every person and every token, against the values in force in the same block before and after",
 RUNS + " Value leaks appear only in combinations of operations, amounts and index values.",
 [LL+"liquidity.rs", LL+"utils.rs", LL+"cache/mod.rs", CT+"strategy.rs"],
 [("scaled amounts and rounding", LL+"cache/mod.rs"), ("excess refunds", CT+"strategy.rs")], technique=BFS)
prop("C32", "Every price report and every price round leaves an exact public trace",
 "Every report that enters a round is announced with its pair, round and price; a second report of the same oracle in one round is announced as discarded with the time, the start of the round and the reason; a round that expired is announced as discarded before the next one opens; a finished round is announced with its number, the published price and time, and the block and epoch. Nothing else is announced by any operation, and refused operations announce nothing. The record of each listed oracle counts exactly its reports and the accepted ones since it was last added.",
 HI, "all sequences up to the stated depth of single and batched reports (repeated, late, future, by strangers) on three pairs, time steps at the expiry bound, and every administrative operation, including removing and adding an oracle again",
 RUNS + " Nothing tests the aggregator; monitors of oracle behaviour see only its events.",
 [PA+"events.rs", PA+"utils.rs", PA+"admin.rs"],
 [("submit_unchecked: which event", PA+"utils.rs"), ("emit_new_round_event", PA+"events.rs")],
 [("oracle_status", "reports and accepted reports per oracle", PA+"storage.rs")],
 technique="explicit-state model checking: exhaustive breadth-first enumeration of report and administration histories on the real aggregator in the MultiversX VM, events and records compared with an independent model")
prop("C33", "Rewiring and upgrading disturb nobody",
 "When the owner replaces the price source, the accumulator, the converter, the pool template or the safe-price view, every later operation uses the new one and no later operation the old one, and nothing else changes; anything that is not a contract is refused, and so is anyone but the owner. Upgrading a market's code installs the template then configured and keeps the market's tokens, totals, indexes, parameters and rights. Upgrading the controller pauses it and changes nothing else. In between and afterwards every operation behaves as specified.",
 HI, "all sequences up to the stated depth of address changes to either of two sets of surroundings (and to the zero address and a wallet, and by strangers), market and controller upgrades, and lending, liquidation, strategy, flash-loan and claim operations, from accounts in debt, comparing every storage cell, balance, code and right",
 RUNS + " Tests deploy once and never upgrade.",
 [CT+"config.rs", CT+"router.rs", CT+"lib.rs", LL+"lib.rs"],
 [("setAggregator, setAccumulator, setSwapRouter, setSafePriceView, setLiquidityPoolTemplate", CT+"config.rs"), ("upgrade_pool", CT+"router.rs"), ("upgrade", CT+"lib.rs"), ("upgrade", LL+"lib.rs")], technique=BFS)
prop("C34", "A list of payments, accounts or markets is processed like its parts in turn",
 "A supply, withdrawal, borrow or repayment with several payments, a threshold refresh of several accounts, and an index synchronisation or reserve claim for several markets is accepted exactly when the operations made of its single parts, submitted one after another in the order of the list within the block, would all be accepted; it then leaves the same storage and balances in every contract and wallet, gives the same answers and makes the same announcements in the same order. Nothing is gained or lost by splitting or joining, whatever repeats in the list. (Isolated collateral is never part of a list of deposits.)",
 HI, "lists of two and three parts of every market with every market (repeated ones, tiny, ordinary and whole amounts, and amounts at the borrowing and withdrawal limits) for every account, and all account and market lists, after every change of the surroundings",
 RUNS + " Tests use one payment at a time.",
 [CT+"lib.rs", CT+"positions/supply.rs", CT+"positions/borrow.rs", CT+"positions/withdraw.rs", CT+"positions/repay.rs", CT+"validation.rs"],
 [("supply, borrow, withdraw, repay loops", CT+"lib.rs"), ("process_deposit", CT+"positions/supply.rs"), ("validate_bulk_position_limits", CT+"validation.rs")], technique=BFS)
prop("C35", "It makes no difference when interest was last booked",
 "Interest belongs to the time that passed, not to the moment somebody books it. Synchronising any or all markets directly before an operation changes neither whether the operation is accepted (except that a supply cap counts the reserve's share only once booked) nor anything it leaves behind once the markets are synchronised afterwards: storage, balances and rights of every contract and wallet are the same. Nobody gains by touching a market, or by avoiding it, before someone else acts.",
 HI, "every operation of the explored histories with interest pending on some or all markets (half an hour, days, years), played from the same state as found and with interest booked first",
 RUNS + " Tests never leave interest pending between operations of different markets.",
 [CT+"oracle/mod.rs", CT+"cache/mod.rs", CT+"utils.rs", LL+"utils.rs"],
 [("update_asset_index (simulate)", CT+"oracle/mod.rs"), ("cached_market_index", CT+"cache/mod.rs"), ("global_sync", LL+"utils.rs")], technique=BFS)
prop("C36", "The order of different people's operations within a block does not matter",
 "Two operations directed at different accounts (supplies, withdrawals, borrows, repayments, liquidations, refreshes, flash loans and strategies), each accepted on its own in the same block at the same prices, leave the same accounts, balances and markets in either order. One can make the other impossible only by using up something they share: a market's liquidity, a cap or a debt ceiling. Rewards, write-offs and reserve claims are shared events and not part of this.",
 HI, "every accepted operation of the alphabet against one operation of each kind for every account and newcomer, in both orders, from the initial and the shifted states",
 RUNS + " Tests play one user at a time.",
 [CT+"positions/update.rs", CT+"storage/mod.rs", LL+"liquidity.rs", LL+"cache/mod.rs"],
 [("scaled amounts at the current index", LL+"cache/mod.rs"), ("positions keyed by account nonce", CT+"storage/mod.rs")], technique=BFS)
