#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None,
         technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], technique=technique, note=note))
H = ["histories"]; HI = ["histories", "inputs"]; HIC = ["histories", "inputs", "configurations"]; I = ["inputs"]; IC = ["inputs", "configurations"]
CT = "controller/src/"; LL = "liquidity_layer/src/"; PA = "price_aggregator/src/"
RUNS = "Only 28 example-based tests of shared math helpers run here; no contract test runs, and scenario tests sample single histories."
BFS = "explicit-state model checking of the real contracts: exhaustive breadth-first enumeration of operation sequences in the MultiversX VM, every transition checked against invariants and an independent reference model"
GRID = "bounded exhaustive enumeration of the state space of cases, executed on the real contract code and compared with an independent exact reference"

prop("C01", "Every pool stays solvent and holds the tokens it accounts for",
 "After every operation each market's idle tokens plus the debt owed to it are worth at least what it owes its suppliers and the reserve, up to a few base units of rounding per operation. Every token transfer matches the operation's declared effect: nothing is stranded in the controller, and withdrawals, reserve claims and flash loans are paid exactly when the idle balance allows it. This also holds after interest, liquidations, bad-debt write-offs and rewards.",
 HI, "all operation sequences over the supply/borrow/repay/withdraw/liquidate/strategy/flash/claim/reward/time/price alphabet up to the stated depth",
 RUNS + " Solvency is a statement about every sequence and rounding pattern.",
 [LL+"liquidity.rs", LL+"utils.rs", LL+"cache/mod.rs", CT+"positions/liquidation.rs"],
 [("reserve check before transfers out", LL+"cache/mod.rs has_reserves"), ("scaled accounting with indexes", LL+"liquidity.rs"), ("bad-debt socialisation", LL+"utils.rs apply_bad_debt_to_supply_index")],
 [("supplied/borrowed/revenue", "scaled totals of a pool", LL+"storage/mod.rs")], technique=BFS)
prop("C02", "Pool totals are exactly the sum of all positions",
 "At all times a market's recorded total supply equals the sum of all account deposits in it plus the reserve's share, and its recorded total debt equals the sum of all account debts in it. Equality is exact, not approximate, after every accepted operation including liquidation, write-off, strategies and full closes.",
 HI, "all operation sequences up to the stated depth over three markets with 18 and 6 decimals", RUNS + " Totals and positions live in two contracts and are updated on separate paths.",
 [LL+"liquidity.rs", CT+"positions/update.rs", CT+"positions/liquidation.rs", CT+"strategy.rs"],
 [("scaled delta applied both to position and total", LL+"liquidity.rs"), ("position store", CT+"positions/update.rs")], technique=BFS)
prop("C03", "Interest accrues monotonically and is split exactly",
 "Between operations the debt index never falls, and the supply index falls only when bad debt is written off; neither moves when no time has passed (except through rewards or write-offs). For every elapsed time debt grows by the compounding of the current borrow rate, and the interest paid by borrowers equals what suppliers and the reserve receive, the reserve getting exactly its configured fraction. Refreshing twice in one block changes nothing.",
 HIC, "all accrual histories up to the stated depth, plus a grid of utilisations, rates, reserve factors, time spans and index values", RUNS + " The split must hold for every rate, pause length and index value.",
 [LL+"utils.rs", "common/rates/src/lib.rs", CT+"utils.rs"],
 [("global_sync: index update and reserve split", LL+"utils.rs"), ("compound interest expansion", "common/rates/src/lib.rs calculate_compounded_interest")],
 [("borrow_index/supply_index/last_timestamp", "accrual state", LL+"storage/mod.rs")], technique=BFS + "; plus exhaustive accrual grid")
prop("C04", "Borrow and deposit rates follow the configured curve",
 "For every utilisation the yearly borrow rate is the base rate plus the three configured linear segments, continuous and non-decreasing, never above the configured maximum. The deposit rate is utilisation times borrow rate minus the reserve factor, and zero at zero utilisation. Rates reported by a market are exactly these.",
 IC, "every utilisation on a dense grid including all kinks and their neighbours, for every parameter set of a grid of curves", RUNS + " Existing tests sample a handful of utilisations.",
 ["common/rates/src/lib.rs", LL+"view.rs"],
 [("calculate_borrow_rate", "common/rates/src/lib.rs"), ("calculate_deposit_rate", "common/rates/src/lib.rs")], technique=GRID)
prop("C05", "Fixed-point arithmetic rounds half-up exactly",
 "Multiplication, division and precision changes of fixed-point numbers return the exact rational result rounded half up (halves away from zero for negatives), at every combination of precisions. Minimum and maximum return the right operand.",
 I, "all operand pairs from an exhaustive small range and from boundary sets around halves and large magnitudes, at all precision combinations in use", "The 28 existing tests check a few dozen values.",
 ["common/math/src/math.rs"], [("mul_half_up/div_half_up/rescale_half_up and signed versions", "common/math/src/math.rs")], technique=GRID)
prop("C06", "Borrowing never exceeds the collateral's loan-to-value capacity",
 "A borrow, alone or in a batch, is accepted only if the account's total debt afterwards is at most the sum of its deposits each weighted by the loan-to-value ratio stored with that deposit, at safe prices. A borrow within capacity (and other limits) is accepted, and the requested amount is exactly what the borrower receives and owes.",
 HIC, "all sequences up to the stated depth mixing borrows at capacity, one unit beside it, batches, price moves and accrual, with and without e-mode", RUNS + " The boundary must be exact for every collateral mix and batch split.",
 [CT+"positions/borrow.rs", CT+"validation.rs", CT+"helpers/mod.rs"],
 [("validate_ltv_collateral", CT+"positions/borrow.rs"), ("running batch totals", CT+"positions/borrow.rs")], technique=BFS)
prop("C07", "No exit or strategy leaves an account with debt below health factor one",
 "After every accepted withdrawal, leverage, debt swap, collateral swap or collateral repayment the account's health factor, with accrued interest and the prices after any conversion, is at least one or it has no debt. Withdrawals and strategies that keep it at one or above are accepted and pay out exactly.",
 HI, "all sequences up to the stated depth with amounts at the health boundary and one unit beside it, favourable and unfavourable conversions", RUNS + " The boundary depends on every position, price and index.",
 [CT+"positions/withdraw.rs", CT+"strategy.rs", CT+"validation.rs"], [("validate_is_healthy", CT+"validation.rs")], technique=BFS)
prop("C08", "Only unhealthy accounts can be liquidated, and nobody else can take collateral",
 "A liquidation is accepted only when the account's health factor, with accrued interest and current prices, is below one, and any unhealthy account can be liquidated with a payment in a token it owes. Apart from liquidation and bad-debt cleaning no operation by someone other than the holder reduces an account's deposits.",
 HI, "all sequences up to the stated depth with prices exactly at, just above and just below the liquidation boundary", RUNS,
 [CT+"positions/liquidation.rs"], [("health check in process_liquidation", CT+"positions/liquidation.rs")], technique=BFS)
prop("C09", "Liquidation takes a fair amount and refunds the rest",
 "A liquidator is charged at most what the account owes and what restores its health, every excess payment is returned, and repeated payments of one token count as their sum. The collateral seized is worth the repaid debt plus the bonus (never more than 15 percent), spread over all deposits in proportion to value; the protocol fee comes only out of the bonus. Debt and deposits fall by exactly the amounts charged and seized.",
 HIC, "all sequences up to the stated depth with liquidation payments of every size and token mix, over several collateral compositions and bonus/fee configurations", RUNS,
 [CT+"positions/liquidation.rs", CT+"helpers/mod.rs"],
 [("calculate_liquidation_amounts / linear bonus", CT+"helpers/mod.rs"), ("refunds", CT+"positions/liquidation.rs")], technique=BFS)
prop("C10", "Bad debt is written off only when real, and the pool stays usable",
 "Bad debt can be cleaned only for an account whose debt exceeds its collateral while the collateral is worth at most five dollars; its debts are then cancelled, its remaining collateral goes to the reserve, and the loss is taken by the suppliers of the affected market in proportion. Cleaning never touches other markets' suppliers and leaves every market usable for supply, refresh, claim, reward and withdrawal.",
 HI, "all sequences up to the stated depth around insolvent accounts, in ordinary and very small pools", RUNS,
 [CT+"positions/liquidation.rs", LL+"utils.rs", LL+"liquidity.rs"],
 [("can_clean_bad_debt_positions", CT+"positions/liquidation.rs"), ("apply_bad_debt_to_supply_index", LL+"utils.rs"), ("seize_position", LL+"liquidity.rs")], technique=BFS)
prop("C11", "Flash loans are repaid with the fee or undone, and cannot be re-entered",
 "A flash loan succeeds only if amount plus fee came back within the same transaction; the fee (everything above the amount) goes to the reserve and nothing else changes, otherwise the whole transaction is undone. While a loan is outstanding every operation that moves accounts or markets is refused. Afterwards the protocol accepts operations again.",
 HI, "all sequences up to the stated depth of loans of boundary sizes repaid exactly, short, over or in another token, each controller entry point tried from inside the loan", RUNS,
 [CT+"lib.rs", LL+"liquidity.rs", CT+"validation.rs"], [("flash_loan_ongoing guard", CT+"storage/mod.rs"), ("balance check", LL+"liquidity.rs flash_loan")], technique=BFS)
prop("C12", "Privileged operations are refused to everyone else",
 "Configuration and governance operations of the controller can be executed only by its owner, every state-changing operation of a market except its views only by the controller that owns it, and oracle administration only by its owner. A refused call changes nothing.",
 ["inputs","configurations"], "every exported endpoint of every contract crossed with every class of caller", RUNS + " Existing tests do not enumerate endpoints.",
 [CT+"config.rs", CT+"router.rs", CT+"lib.rs", LL+"liquidity.rs", PA+"admin.rs"], [("only_owner annotations", CT+"config.rs"), ("only_owner annotations", LL+"liquidity.rs")], technique=GRID)
prop("C13", "An account is controlled only by the holder of its token",
 "Withdrawing, borrowing and every strategy on an existing account succeed only for the current holder of its account token; control moves with the token. An account is open exactly while its token exists in circulation, a withdrawal of everything closes it and destroys the token, and account attributes fixed at creation never change.",
 HI, "all sequences up to the stated depth of transfers and operations tried by every user on every account, including foreign and counterfeit tokens", RUNS,
 [CT+"positions/account.rs", CT+"utils.rs", CT+"validation.rs", CT+"positions/withdraw.rs"], [("NFT payment validation", CT+"utils.rs"), ("account lifecycle", CT+"positions/account.rs")], technique=BFS)
prop("C14", "Isolated collateral stays isolated and under its debt ceiling",
 "An account with isolated collateral holds only that asset as collateral, uses no e-mode, and borrows only assets allowed in isolation; a regular account never receives an isolated asset. The dollar debt counted against an isolated asset rises with every such borrow by its exact dollar value and falls with repayment (remainders under one dollar may be cleared); a borrow that would push it over the configured ceiling is refused.",
 HIC, "all sequences up to the stated depth over isolated assets with 18 and 2 decimals", RUNS,
 [CT+"positions/supply.rs", CT+"positions/borrow.rs", CT+"utils.rs", CT+"router.rs"], [("validate_isolated_debt_ceiling", CT+"positions/borrow.rs"), ("adjust_isolated_debt_usd", CT+"utils.rs")], technique=BFS)
prop("C15", "A siloed asset is never borrowed together with another",
 "An account owing a siloed asset owes nothing else, whether the debt arose from a borrow, a batch, a debt swap or a leverage operation. Where an asset is made siloed while an account already owes it together with another, that account can take no further debt. Borrows that respect this are not refused for it.",
 HI, "all sequences up to the stated depth over two siloed and two ordinary assets, with the siloed flag turned on and off in between", RUNS,
 [CT+"positions/borrow.rs", CT+"strategy.rs"], [("handle siloed check", CT+"positions/borrow.rs")], technique=BFS)
prop("C16", "E-mode accounts only use their category and get its terms",
 "An account in an e-mode category can deposit and borrow only assets enabled for that use in a category that is not retired, and its deposits take the category's loan-to-value and bonus (and liquidation threshold when opened); accounts outside never get category terms. Category edits and retirement apply only through new deposits or an explicit refresh.",
 HIC, "all sequences up to the stated depth over two categories with asymmetric permissions, with category changes interleaved", RUNS,
 [CT+"positions/emode.rs", CT+"positions/supply.rs", CT+"positions/borrow.rs", CT+"config.rs"], [("apply_e_mode_to_asset_config", CT+"positions/emode.rs")], technique=BFS)
prop("C17", "Supply caps, borrow caps and position limits are enforced exactly",
 "No accepted supply, leverage or collateral swap raises a market's supply, with interest, above its supply cap (the reserve's own interest share not yet recorded does not count); no accepted borrow, leverage or debt swap raises its debt above the borrow cap. No account gets more deposits or debts than the position limits allow. Operations within caps and limits are not refused for them.",
 HIC, "all sequences up to the stated depth with amounts exactly at the cap and one unit over, including batches", RUNS,
 [CT+"positions/supply.rs", CT+"positions/borrow.rs", CT+"validation.rs"], [("validate_supply_cap / validate_borrow_cap", CT+"positions/supply.rs, borrow.rs"), ("validate_bulk_position_limits", CT+"validation.rs")], technique=BFS)
prop("C20", "While paused nothing user-facing runs; resuming restores everything",
 "While the controller is paused every account, flash-loan, strategy, refresh and liquidation operation is refused and changes nothing. Only the owner can pause or resume, pausing itself changes no account or market, and after resuming operations behave as before.",
 HI, "all sequences up to the stated depth with pause and resume at every position", RUNS,
 [CT+"lib.rs", CT+"strategy.rs", CT+"config.rs"], [("require_not_paused", CT+"lib.rs")], technique=BFS)
prop("C21", "Reserve claims pay exactly what is accrued and available",
 "Claiming a market's reserve pays the accumulator the smaller of the reserve's worth (with interest up to now) and the idle balance, reduces reserve and total supply by exactly that, and leaves suppliers' and borrowers' balances unchanged. The accumulator receives tokens in no other way.",
 HI, "all sequences up to the stated depth with claims in every liquidity situation", RUNS,
 [LL+"liquidity.rs", LL+"cache/mod.rs", CT+"router.rs"], [("claim_revenue", LL+"liquidity.rs")], technique=BFS)
prop("C22", "Repayment reduces exactly the debt paid and refunds the excess",
 "Anyone can repay any account's debt; it falls by exactly the amount paid, including interest up to now, and paying at least the whole debt closes it completely. Everything beyond the debt is returned to the payer in the same transaction; paying a token the account does not owe is refused.",
 HI, "all sequences up to the stated depth with repayments of one unit, part, exactly, one over, double, batches and duplicates", RUNS,
 [CT+"positions/repay.rs", LL+"liquidity.rs"], [("repay overpayment handling", LL+"liquidity.rs"), ("batch repay", CT+"lib.rs")], technique=BFS)
prop("C23", "Read-only views agree with what operations do",
 "Account views (balances, collateral and debt values, health factor, liquidatability), market views (rates, utilisation, indexes, totals, reserves) and the liquidation estimate, asked at any moment, equal the values the very next operation uses. Asking changes nothing.",
 HI, "every view at every reachable state up to the stated depth, for every account and market", RUNS,
 [CT+"views.rs", LL+"view.rs"], [("views", CT+"views.rs"), ("views", LL+"view.rs")], technique=BFS)
prop("C24", "Configuration changes are validated and never retroactive",
 "Listing a market or changing its risk or rate parameters is accepted only when the values are coherent, and changes no account, balance or already accrued interest. Open deposits keep their liquidation threshold until an explicit refresh (a further deposit takes the current loan-to-value, bonus and fee), and a refresh that raises risk is refused unless the account stays above the required safety margin.",
 HIC, "all sequences up to the stated depth of parameter changes interleaved with use, plus a grid of valid and boundary-invalid parameters", RUNS,
 [CT+"config.rs", CT+"router.rs", CT+"positions/supply.rs", LL+"liquidity.rs"], [("edit_asset_config / set_token_oracle validation", CT+"config.rs"), ("update_account_threshold", CT+"lib.rs")], technique=BFS + "; plus exhaustive parameter grid")
prop("C26", "Strategies conserve tokens and return every leftover",
 "Leverage, debt swap, collateral swap and repayment with collateral create, lose and strand no token: everything the conversion returns ends in the account, the market or the caller's wallet. New debt equals what was borrowed plus nothing else but the flash fee, and the converted amounts are credited in full.",
 HI, "all sequences up to the stated depth with conversions returning nothing, too little, too much, several parts or foreign tokens", RUNS,
 [CT+"strategy.rs", CT+"helpers/mod.rs"], [("strategy flows", CT+"strategy.rs"), ("create_strategy", LL+"liquidity.rs")], technique=BFS)
prop("C27", "Operations never change accounts or wallets they are not directed at",
 "An accepted operation changes positions only of the accounts named in it and wallets only of its caller. Others see changes solely through interest, rewards and write-offs shared by the whole market.",
 HI, "all sequences up to the stated depth with several accounts and users", RUNS,
 [CT+"positions/update.rs", CT+"storage/mod.rs"], [("positions keyed by account nonce", CT+"storage/mod.rs")], technique=BFS)
prop("C28", "Rewards are shared among suppliers in proportion",
 "Only the owner can add rewards; the amount is credited to the suppliers and reserve of that market in proportion to their shares, up to rounding, and can be withdrawn. Debts, other markets and past interest are unaffected.",
 HI, "all sequences up to the stated depth with rewards of extreme sizes among changing suppliers", RUNS,
 [LL+"liquidity.rs", LL+"utils.rs", CT+"router.rs"], [("add_rewards / update_supply_index", LL+"liquidity.rs")], technique=BFS)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")).read())
P.sort(key=lambda p: p["id"])
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        d["anchors"]["observe_at"] = p["observe"] or ["contract endpoints, storage and balances after each transaction"]
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
NOTE = ("Exhaustive within the stated alphabets, configurations and depths; the real contracts are executed for every transition, "
        "so there is no abstraction gap. Trusts the MultiversX Rust VM and the reference model / invariants of mc/src; "
        "contracts outside the repository are an explorer-controlled stand-in.")
M = dict(version=1, setup_cmd="bash build.sh",
         checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                      technique=p["technique"], level="model_checking", level_note=p["note"] or NOTE) for p in P],
         not_applicable=[],
         notes="No hooks in /repo: everything is driven through contract endpoints, storage and balances of the in-process VM.")
json.dump(M, open(ROOT + "/MANIFEST.json", "w"), indent=1)
