NEWL = "fn main() {\n    let mut l = L::new(Cfg::new(three(), 3));\n    lp(&mut l);\n"
# ---------------------------------------------------------------- pool accounting
seed("claim-burns-rounded-supply", "C02",
 "a reserve claim after interest has accrued, so that the reserve's shares are not a whole number of token units",
 "a full claim burns shares recomputed from the rounded payout out of the pool total instead of exactly the reserve's shares, so the total drifts from the sum of the positions",
 [("liquidity_layer/src/liquidity.rs", "            let actual_supplied_burn_ray = self.min(scaled_to_burn, cache.supplied_ray.clone());",
   "            let payout_scaled = cache.calculate_scaled_supply(&amount_to_transfer);\n            let actual_supplied_burn_ray = self.min(payout_scaled, cache.supplied_ray.clone());")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_111)));
    ok(&mut l, adv(YEAR / 3));
    ok(&mut l, Op::Claim { u: 1, ms: vec![1] });
    let o = l.obs();
    let sum: B = o.accts.values().filter_map(|a| a.dep.get(&1)).map(|p| p.scaled.clone()).sum::<B>() + &o.pools[1].revenue;
    must(sum == o.pools[1].supplied, "pool total differs from the sum of its deposits and reserve");
}
""")
seed("idle-time-charged", "C03",
 "a market without debt for some time, then a borrow, then a later refresh",
 "a market without debt does not move its refresh time, so the first borrower is charged interest for the time before the loan",
 [("liquidity_layer/src/utils.rs", "        if delta_ms > 0 {\n", "        if delta_ms > 0 && cache.borrowed_ray > self.ray_zero() {\n")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, adv(5 * YEAR));
    ok(&mut l, Op::Sync { u: 1, ms: vec![0, 1, 2] });
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(60));
    ok(&mut l, Op::Sync { u: 1, ms: vec![0, 1, 2] });
    let d = view(&mut l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(USDC)]);
    must(d < us(1_001), "a minute old loan owes years of interest");
}
""")
seed("batch-forgets-same-token", "C06",
 "one borrow call that lists the same token twice, each part within capacity but not together, on an account that already owes that token",
 "the running totals of a batch are not updated for a token the account already owes, so the second part is checked against the old debt",
 [("controller/src/utils.rs", "            let _ = borrows.set(index, updated_position);", "            let _ = index;")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(10)));
    // capacity 300 USD, 10 used
    no(&mut l, Op::Borrow { u: 0, acct: 2, pays: vec![(1, us(200)), (1, us(200))] });
}
""")

seed("close-flag-skips-health", "C07",
 "a collateral repayment with the close flag set that leaves part of the debt, with a conversion returning little",
 "the health check after a collateral repayment is skipped when closing was requested, even though debt remains",
 [("controller/src/strategy.rs", "        self.validate_is_healthy(account.token_nonce, &mut cache, None);\n\n        // Execute full position closure",
   "        if !close_position {\n            self.validate_is_healthy(account.token_nonce, &mut cache, None);\n        }\n\n        // Execute full position closure")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(280)));
    no(&mut l, Op::RepayColl { u: 0, acct: 2, coll: 0, amt: e(5), debt: 1, close: true, outs: Some(vec![(1, us(10))]), pays: vec![] });
}
""")
seed("liquidate-at-exactly-one", "C08",
 "a liquidation of an account whose health factor is exactly one",
 "an account with health factor exactly one counts as unhealthy for liquidators",
 [("controller/src/positions/liquidation.rs", "require!(health_factor < self.ray(), ERROR_HEALTH_FACTOR);", "require!(health_factor <= self.ray(), ERROR_HEALTH_FACTOR);")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(256)));
    // 10 EGLD at 32 USD, threshold 80 percent: exactly 256 USD
    ok(&mut l, px(0, 32_000));
    let h = view(&mut l, "getHealthFactor", vec![a_u64(2)]);
    must(h == ray(), "setting: health factor is one");
    no(&mut l, lq(1, 2, 1, us(50)));
}
""")
seed("excess-returned-twice", "C09",
 "a liquidation paid in two owed tokens where the whole last payment and part of the first are excess",
 "after a payment was wholly refunded the remaining excess is not reduced, so the liquidator is refunded the same excess again and gets the collateral for less debt than it pays for",
 [("controller/src/positions/liquidation.rs", "                refunds.push(debt_payment);\n                repaid_tokens.remove(current_index);\n                remaining_excess -= egld_asset_amount_ray;", "                refunds.push(debt_payment);\n                repaid_tokens.remove(current_index);")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(100)));
    ok(&mut l, Op::Borrow { u: 0, acct: 2, pays: vec![(1, us(2_000)), (2, e(10))] });
    ok(&mut l, px(0, 31_000));
    let b0 = has(&l, 1, 1);
    let c0 = has(&l, 1, 2);
    let e0 = has(&l, 1, 0);
    ok(&mut l, Op::Liquidate { u: 1, acct: 2, pays: vec![(1, us(2_000)), (2, e(5))] });
    // paid and received in USD WAD
    let paid = (&b0 - has(&l, 1, 1)) * p10(12) + (&c0 - has(&l, 1, 2)) * b(50);
    let got = (has(&l, 1, 0) - &e0) * b(31);
    eprintln!("paid {paid} got {got}");
    must(got <= paid * b(116) / b(100), "the liquidator received far more than the debt paid plus bonus");
}
""")
seed("five-dollar-edge", "C10",
 "an insolvent account whose collateral is worth exactly five dollars",
 "bad debt with collateral of exactly five dollars cannot be cleaned",
 [("controller/src/positions/liquidation.rs", "total_usd_collateral <= min_collateral_threshold", "total_usd_collateral < min_collateral_threshold")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(250)));
    ok(&mut l, px(0, 500));
    ok(&mut l, Op::CleanBad { u: 1, acct: 2 });
}
""")
seed("flash-overpayment-dropped", "C11",
 "a flash loan whose receiver returns more than amount plus fee",
 "only the required fee is booked to the reserve, anything returned above it belongs to nobody",
 [("liquidity_layer/src/liquidity.rs", "        let protocol_fee = repayment - amount.clone();", "        let protocol_fee = self.min(repayment, required_repayment.clone()) - amount.clone();")],
 NEWL + """
    let r0 = l.pool_obs(1).revenue;
    ok(&mut l, Op::Flash { u: 2, m: 1, amt: us(1_000), outs: vec![(1, us(1_100))], nested: None });
    let r1 = l.pool_obs(1).revenue;
    must(r1 - r0 == b(100_000_000) * p10(21), "the reserve got everything above the amount");
}
""")
ISO = """
fn iso() -> L {
    let mut m = three();
    m[2].iso = true;
    m[2].ceiling_usd = 10_000;
    m[1].isob = true;
    let mut l = L::new(Cfg::new(m, 3));
    ok(&mut l, Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (0, e(1_000))] });
    ok(&mut l, sup(0, Via::New, 2, e(10)));
    ok(&mut l, sup(2, Via::New, 2, e(10)));
    l
}
"""
seed("isolated-overpay-counts", "C14",
 "two isolated accounts of one asset, one of them overpaying its debt",
 "the isolated-debt counter falls by the whole payment instead of the part that repaid debt, erasing other accounts' debt from it",
 [("controller/src/positions/repay.rs", "            let applied_egld_wad = self.min(current_debt_egld_wad, repay_amount_egld.clone());", "            let applied_egld_wad = if current_debt_egld_wad > self.wad_zero() {\n                repay_amount_egld.clone()\n            } else {\n                current_debt_egld_wad\n            };")],
 ISO + """
fn main() {
    let mut l = iso();
    ok(&mut l, bo(0, 2, 1, us(100)));
    ok(&mut l, bo(2, 3, 1, us(200)));
    ok(&mut l, rp(0, 2, 1, us(300)));
    must(l.iso_debt_raw(2).0 >= b(199) * wad(), "the other account's debt still counts");
}
""")
seed("first-batch-debt-unseen", "C15",
 "one borrow naming a siloed asset and then an ordinary one, by an account without debt",
 "the first debt of a batch is not added to the list the later ones are checked against",
 [("controller/src/utils.rs", "        } else {\n            let safe_index = borrows.len() + 1;", "        } else if !borrows.is_empty() {\n            let safe_index = borrows.len() + 1;")],
 """
fn main() {
    let mut m = three();
    m[2].siloed = true;
    let mut l = L::new(Cfg::new(m, 3));
    lp(&mut l);
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    no(&mut l, Op::Borrow { u: 0, acct: 2, pays: vec![(2, me(100)), (1, us(10))] });
    no(&mut l, Op::Borrow { u: 0, acct: 2, pays: vec![(1, us(10)), (2, me(100))] });
}
""")
seed("emode-terms-leak-to-next-account", "C16",
 "one refresh call naming an e-mode account first and an ordinary account after it",
 "the e-mode terms of one account are carried over to the following accounts of the same call",
 [("controller/src/lib.rs", "        for account_nonce in account_nonces {\n            // Clone base config for each account so e-mode overrides remain account-specific.\n            let mut account_asset_config = asset_config.clone();\n",
   "        let mut account_asset_config = asset_config.clone();\n        for account_nonce in account_nonces {\n")],
 """
fn main() {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_500, bonus: 200, assets: vec![(0, true, true), (2, true, true)] }];
    let mut l = L::new(c);
    lp(&mut l);
    ok(&mut l, sup_e(0, 1, 0, e(10)));
    ok(&mut l, sup(2, Via::New, 0, e(10)));
    ok(&mut l, Op::Threshold { u: 1, m: 0, risks: false, accts: vec![2, 3] });
    let o = l.obs();
    must(o.accts[&3].dep[&0].ltv == b(7_500), "ordinary account keeps ordinary terms");
}
""")
seed("borrow-cap-without-interest", "C17",
 "a market whose debt has grown by interest close to its borrow cap",
 "the borrow cap is compared with the debt as it was borrowed, without interest",
 [("controller/src/positions/borrow.rs", "                let borrowed_amount = self.scaled_to_original(\n                    &total_borrow_scaled,\n                    &index.borrow_index_ray,\n                    amount.scale(),\n                );\n\n                require!(\n                    borrowed_amount.clone() + amount.clone()\n                        <=",
   "                let borrowed_amount = self.rescale_half_up(&total_borrow_scaled, amount.scale());\n                let _ = index;\n\n                require!(\n                    borrowed_amount.clone() + amount.clone()\n                        <=")],
 """
fn main() {
    let mut m = three();
    m[1].bcap = 1_000_000_000;
    let mut l = L::new(Cfg::new(m, 3));
    lp(&mut l);
    ok(&mut l, sup(0, Via::New, 0, e(100)));
    ok(&mut l, bo(0, 2, 1, us(900)));
    ok(&mut l, adv(20 * YEAR));
    no(&mut l, bo(0, 2, 1, us(99)));
}
""")
seed("swap-debt-runs-while-paused", "C20",
 "a debt swap while the controller is paused",
 "debt swaps ignore the pause",
 [("controller/src/strategy.rs", "        self.require_not_paused();\n        // Validate tokens are different - prevent no-op swaps\n        require!(\n            existing_debt_token", "        require!(\n            existing_debt_token")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    ok(&mut l, Op::Pause(true));
    no(&mut l, Op::SwapDebt { u: 0, acct: 2, old: 1, amt: e(1), new: 2, outs: vec![(1, us(49))], pays: vec![] });
}
""")
