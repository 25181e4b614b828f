# ---------------------------------------------------------------- fourth round: traces, rewiring, batches
AGG = """
fn agg_world(count: u64) -> (World, Addr, Addr) {
    let mut w = World::new();
    let (owner, agg) = (user("owner"), sc("aggregator"));
    w.add_account(&owner);
    w.set_now(T0);
    let mut args = vec![a_u64(count)];
    for i in 0..3 {
        let o = user(&format!("o{i}"));
        w.add_account(&o);
        args.push(a_addr(&o));
    }
    must(w.deploy(&owner, &agg, "aggregator", args).ok, "deploy");
    must(w.call(&owner, &agg, "unpause", vec![], &[]).ok, "unpause");
    (w, owner, agg)
}
fn report(w: &mut World, agg: &Addr, i: usize, price: &B) -> Vec<String> {
    let (o, t) = (user(&format!("o{i}")), w.now());
    let r = w.call(&o, agg, "submit", vec![a_str("EGLD"), a_str("USD"), a_u64(t), a_big(price)], &[]);
    must(r.ok, "submit");
    r.logs.iter().filter_map(|x| x.2.first()).map(|t| String::from_utf8_lossy(t).to_string()).collect()
}
"""
seed("first-round-expires-silently", "C32",
 "the very first round of a pair is left incomplete for more than half an hour and reopened",
 "an expired round is announced only when a round of that pair was finished before",
 [("price_aggregator/src/utils.rs", "            self.discard_round_event(&token_pair.from.clone(), &token_pair.to.clone(), round_id)\n",
   "            if round_id > 0u32 {\n                self.discard_round_event(&token_pair.from.clone(), &token_pair.to.clone(), round_id);\n            }\n")],
 AGG + """
fn main() {
    let (mut w, _o, agg) = agg_world(2);
    report(&mut w, &agg, 0, &e(40));
    w.set_now(T0 + 1_801);
    let said = report(&mut w, &agg, 1, &e(41));
    must(said.iter().any(|x| x == "discard_round"), "an expired round disappears without a trace");
}
""")
seed("refused-reports-uncounted", "C32",
 "an oracle reporting twice in one round",
 "the record of an oracle counts only the reports that were accepted",
 [("price_aggregator/src/utils.rs", "                oracle_status.total_submissions += 1;", "                oracle_status.total_submissions += accepted as u64;")],
 AGG + """
fn main() {
    let (mut w, _o, agg) = agg_world(2);
    report(&mut w, &agg, 0, &e(40));
    report(&mut w, &agg, 0, &e(41));
    let mut k = b"oracle_status.mapped".to_vec();
    k.extend(a_addr(&user("o0")));
    let v = w.get_storage(&agg, &k);
    let mut want = 1u64.to_be_bytes().to_vec();
    want.extend(2u64.to_be_bytes());
    must(v == want, "one of two reports is missing from the record");
}
""")
seed("pool-upgrade-drops-interest", "C33",
 "a market's code is upgraded while interest is pending since the last operation",
 "an upgrade restarts the market's clock without booking the interest of the time passed",
 [("liquidity_layer/src/lib.rs", "    fn upgrade(&self) {}", "    fn upgrade(&self) {\n        // make sure a market always has a clock\n        self.last_timestamp()\n            .set(self.blockchain().get_block_timestamp_ms());\n    }")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(YEAR));
    let owed = |l: &mut L| view(l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(USDC)]);
    let before = owed(&mut l);
    l.owner_ok("upgradeLiquidityPool", vec![a_tok(USDC)]);
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    must(owed(&mut l) == before, "a year of interest vanished");
}
""")
seed("accumulator-set-once", "C33",
 "the accumulator is replaced while another one is configured, then a reserve is claimed",
 "replacing the accumulator is accepted but the old one keeps receiving the reserve",
 [("controller/src/config.rs", "        self.accumulator_address().set(&accumulator);", "        self.accumulator_address().set_if_empty(&accumulator);")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(YEAR));
    let (other, ow) = (sc("other"), l.owner.clone());
    l.w.add_contract(&other, "env", &ow);
    l.owner_ok("setAccumulator", vec![a_addr(&other)]);
    ok(&mut l, Op::Claim { u: 1, ms: vec![1] });
    must(l.w.balance(&other, USDC) > b(0), "the new accumulator got nothing");
}
""")
seed("refresh-leaks-category-terms", "C16",
 "one refresh of several accounts, an e-mode account before an ordinary one",
 "the category terms of one account are carried over to the accounts refreshed after it",
 [("controller/src/lib.rs", "        for account_nonce in account_nonces {\n            // Clone base config for each account so e-mode overrides remain account-specific.\n            let mut account_asset_config = asset_config.clone();\n",
   "        let mut account_asset_config = asset_config.clone();\n        for account_nonce in account_nonces {\n")],
 """
fn main() {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_300, bonus: 200, assets: vec![(0, true, true), (1, true, true)] }];
    let mut l = L::new(c);
    lp(&mut l);
    ok(&mut l, sup_e(0, 1, 0, e(10)));
    ok(&mut l, sup(2, Via::New, 0, e(10)));
    ok(&mut l, Op::Threshold { u: 1, m: 0, risks: false, accts: vec![2, 3] });
    let p = l.obs().accts[&3].dep[&0].clone();
    must(p.ltv == b(7_500), "an account outside the category got its loan-to-value");
}
""")
seed("curve-change-rewrites-the-past", "C24",
 "a market's rate curve is changed while interest is pending since the last operation",
 "the pending interest is booked at the new curve instead of the one in force until now",
 [("liquidity_layer/src/lib.rs", "        let mut cache = Cache::new(self);\n        self.global_sync(&mut cache);\n        self.emit_market_update(&cache, &asset_price);\n\n        self.parameters().update(|parameters| {",
   "        self.parameters().update(|parameters| {"),
  ("liquidity_layer/src/lib.rs", "            require!(\n                parameters.reserve_factor_bps < self.bps(),\n                ERROR_INVALID_RESERVE_FACTOR\n            );\n        });",
   "            require!(\n                parameters.reserve_factor_bps < self.bps(),\n                ERROR_INVALID_RESERVE_FACTOR\n            );\n        });\n\n        let mut cache = Cache::new(self);\n        self.global_sync(&mut cache);\n        self.emit_market_update(&cache, &asset_price);")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(YEAR));
    let owed = |l: &mut L| view(l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(USDC)]);
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    ok(&mut l, adv(YEAR));
    let s = l.w.snapshot();
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    let want = owed(&mut l);
    l.w.restore(&s);
    let mut p = l.obs().pp[1].clone();
    p.base = bps_ray(1_000);
    ok(&mut l, Op::PoolParams { m: 1, p: Box::new(p) });
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    must(owed(&mut l) == want, "last year's interest was charged at the new rate");
}
""")
seed("close-accepts-any-price", "C18",
 "closing a debt with collateral while the collateral's two price sources disagree",
 "repaying with collateral accepts unsafe prices when the account is to be closed",
 [("controller/src/strategy.rs", "        cache.allow_unsafe_price = false; // Enforce secure price feeds only\n        self.reentrancy_guard(cache.flash_loan_ongoing);\n        // Extract payments and validate account ownership\n        // Parameters: require_account_payment=true, return_nft=false\n",
   "        cache.allow_unsafe_price = close_position;\n        self.reentrancy_guard(cache.flash_loan_ongoing);\n        // Extract payments and validate account ownership\n        // Parameters: require_account_payment=true, return_nft=false\n")],
 SCENE + NEWL + """
    let p = pair(&mut l, "venue", XE, "WEGLD-123456");
    let env = l.env.clone();
    twap(&mut l, &env, XE, 18, "WEGLD-123456", &me(1_250));
    oracle(&mut l, XE, 18, 4, 1, 1, &p, None);
    ok(&mut l, sup(0, Via::New, 2, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    twap(&mut l, &env, XE, 18, "WEGLD-123456", &me(1_900));
    no(&mut l, Op::RepayColl { u: 0, acct: 2, coll: 2, amt: e(1), debt: 1, close: true, outs: Some(vec![(1, us(50))]), pays: vec![] });
}
""")
seed("reward-before-interest", "C28",
 "a reward sent to a market with interest pending since the last operation",
 "the reward is shared at the old index and the pending interest then computed on it",
 [("liquidity_layer/src/liquidity.rs", "        let payment_amount = self.payment_amount(&cache);\n        self.global_sync(&mut cache); // 2. Update indexes\n\n        let new_supply_index",
   "        let payment_amount = self.payment_amount(&cache);\n\n        let new_supply_index"),
  ("liquidity_layer/src/liquidity.rs", "        cache.supply_index_ray = new_supply_index;\n", "        cache.supply_index_ray = new_supply_index;\n        self.global_sync(&mut cache);\n")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(50_000) / 50u32));
    ok(&mut l, adv(YEAR));
    let s = l.w.snapshot();
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    ok(&mut l, Op::Rewards { u: OWNER, m: 1, amt: us(1_000) });
    let want = l.pool_obs(1).sidx;
    l.w.restore(&s);
    ok(&mut l, Op::Rewards { u: OWNER, m: 1, amt: us(1_000) });
    must(l.pool_obs(1).sidx == want, "a reward changes what the past year earned");
}
""")
