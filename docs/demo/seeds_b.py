# ---------------------------------------------------------------- second round
LIQ = "liquidity_layer/src/liquidity.rs"
SCENE = """
/// oracle of a token: method, type, source, pair, tolerances 2 % and 5 %
fn oracle(l: &mut L, tok: &str, dec: u32, method: u64, typ: u64, source: u64, pair: &Addr, onedex: Option<u64>) {
    let c = l.ctrl.clone();
    let mut k = b"token_oracle".to_vec();
    k.extend(n_bytes(key_tok(tok).as_bytes()));
    l.w.set_storage(&c, k, vec![]);
    let mut a = vec![a_tok(tok), a_u64(dec as u64), a_addr(pair), a_u64(method), a_u64(typ), a_u64(source), a_u64(200), a_u64(500), a_u64(9_000)];
    if let Some(x) = onedex {
        a.push(a_u64(x));
    }
    l.owner_ok("setTokenOracle", a);
}
fn pair(l: &mut L, name: &str, first: &str, second: &str) -> Addr {
    let p = sc(name);
    let ow = l.owner.clone();
    l.w.add_contract(&p, "env", &ow);
    l.w.set_storage(&p, b"m_first".to_vec(), first.as_bytes().to_vec());
    l.w.set_storage(&p, b"m_second".to_vec(), second.as_bytes().to_vec());
    l.w.set_storage(&p, b"state".to_vec(), vec![1]);
    p
}
/// time-weighted price: one whole token is worth `amount` of `out_tok`
fn twap(l: &mut L, at: &Addr, tok: &str, dec: u32, out_tok: &str, amount: &B) {
    let key = |k: &str| {
        let mut v = k.as_bytes().to_vec();
        v.extend(n_bytes(tok.as_bytes()));
        v
    };
    l.w.set_storage(at, key("m_sp_out"), out_tok.as_bytes().to_vec());
    l.w.set_storage(at, key("m_sp_rate"), amount.to_bytes_be());
    l.w.set_storage(at, key("m_sp_unit"), p10(dec).to_bytes_be());
}
"""
seed("writeoff-forgets-interest", "C01",
 "bad debt that carries accrued interest when it is written off",
 "the write-off lowers the suppliers' claims by the borrowed shares instead of by the debt they stand for, so claims exceed what the pool holds",
 [(LIQ, "                let current_debt_actual =\n                    cache.calculate_original_borrow_ray(&position.scaled_amount_ray);",
   "                let current_debt_actual = position.scaled_amount_ray.clone();")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(100)));
    ok(&mut l, bo(0, 2, 1, us(2_900)));
    ok(&mut l, adv(20 * YEAR));
    ok(&mut l, px(0, 1));
    ok(&mut l, Op::CleanBad { u: 2, acct: 2 });
    let o = l.pool_obs(1);
    let r27 = p10(27);
    let claims = &o.supplied * &o.sidx / &r27 / p10(21);
    let owed = &o.borrowed * &o.bidx / &r27 / p10(21);
    must(claims <= o.cash + owed + b(10), "suppliers are promised more than the pool holds");
}
""")
seed("rate-cap-only-past-optimal", "C04",
 "a rate curve whose cap lies below its value at the optimal utilization, and utilization below the optimum",
 "the maximum borrow rate is enforced only past the optimal utilization",
 [("common/rates/src/rates.rs", "        let capped_rate = if annual_rate > parameters.max_borrow_rate_ray {",
   "        let capped_rate = if utilization_above_optimal\n            && annual_rate > parameters.max_borrow_rate_ray\n        {"),
  ("common/rates/src/rates.rs", "        let annual_rate = if utilization < parameters.mid_utilization_ray {",
   "        let utilization_above_optimal = utilization >= parameters.optimal_utilization_ray;\n        let annual_rate = if utilization < parameters.mid_utilization_ray {")],
 """
fn main() {
    let mut c = Cfg::new(three(), 3);
    c.mkts[1].rate = [800, 100, 5_000, 10_000, 50_000, 3_000, 6_000];
    let mut l = L::new(c);
    lp(&mut l);
    ok(&mut l, sup(0, Via::New, 0, e(900)));
    ok(&mut l, bo(0, 2, 1, us(26_000)));
    ok(&mut l, adv(YEAR));
    let d = view(&mut l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(USDC)]);
    must(d < us(28_200), "a year at a capped 8 % cost more than that");
}
""")
seed("rescale-in-two-steps", "C05",
 "a value within a hair below one half of the last kept digit, reduced by more than twenty-one digits (a token with few decimals)",
 "dropping very many digits is done in two rounded steps, so values just below a half are rounded up twice",
 [("common/math/src/math.rs", "                let precision_diff = old_precision - new_precision;\n",
   "                let precision_diff = old_precision - new_precision;\n                if precision_diff > 21 {\n                    let step = self.rescale_half_up(value, new_precision + 18);\n                    return self.rescale_half_up(&step, new_precision);\n                }\n")],
 """
fn main() {
    let mut w = World::new();
    let (u, p) = (user("u"), sc("probe"));
    w.add_account(&u);
    w.add_contract(&p, "probe", &u);
    // 0.5 - 1e-27 as a whole number
    let r = w.query(&p, "resc", vec![a_big(&(e(1) * b(500_000_000) - 1u32)), a_u64(27), vec![]]);
    must(r.ok && top_dec(&r.vals[0]).0 == b(0), "a little less than a half became one");
}
""")
seed("conversion-keeps-old-price", "C07",
 "a collateral conversion whose own trade lowers the exchange price of the collateral that is kept",
 "the prices read before a collateral conversion are kept for the health check after it",
 [("controller/src/strategy.rs", "        self.process_deposit(\n            &caller,\n            account.token_nonce,\n            account_attributes,\n            &payments,\n            &mut cache,\n        );\n\n        // Remove the prices from the cache to have a fresh value after the swaps to prevent a bad HF\n        cache.clean_prices_cache();\n",
   "        self.process_deposit(\n            &caller,\n            account.token_nonce,\n            account_attributes,\n            &payments,\n            &mut cache,\n        );\n\n")],
 SCENE + NEWL + """
    let p = pair(&mut l, "venue", XE, "WEGLD-123456");
    let env = l.env.clone();
    twap(&mut l, &env, XE, 18, "WEGLD-123456", &me(1_250));
    oracle(&mut l, XE, 18, 1, 1, 1, &p, None);
    // 10 XEGLD of collateral, 350 USD of debt
    ok(&mut l, sup(0, Via::New, 2, e(10)));
    ok(&mut l, bo(0, 2, 1, us(350)));
    // the trade halves the price of the token it sells
    l.w.set_storage(&env, b"m_swap_tok".to_vec(), XE.as_bytes().to_vec());
    l.w.set_storage(&env, b"m_swap_rate".to_vec(), me(600).to_bytes_be());
    no(&mut l, Op::SwapColl { u: 0, acct: 2, old: 2, amt: e(1), new: 0, outs: vec![(0, me(1_250))], pays: vec![] });
}
""")
seed("anyone-edits-tolerance", "C12",
 "a stranger calling the oracle tolerance endpoint of a listed token",
 "the oracle tolerance of a token can be edited by anybody",
 [("controller/src/config.rs", "    #[only_owner]\n    #[endpoint(editTokenOracleTolerance)]", "    #[endpoint(editTokenOracleTolerance)]")],
 NEWL + """
    let (u, c) = (l.users[2].clone(), l.ctrl.clone());
    let r = l.w.call(&u, &c, "editTokenOracleTolerance", vec![a_tok(USDC), a_u64(300), a_u64(900)], &[]);
    must(!r.ok, "a stranger edited an oracle");
}
""")
seed("any-collection-is-an-account", "C13",
 "a non-fungible token of another collection with the same number and the same attributes as somebody's account",
 "withdraw and borrow no longer check that the token handed in belongs to the account collection",
 [("controller/src/positions/account.rs", "        self.account()\n            .require_same_token(&account_payment.token_identifier);\n\n        let caller", "        let caller")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    let (c, u) = (l.ctrl.clone(), l.users[2].clone());
    let mut k = b"account_attributes".to_vec();
    k.extend(2u64.to_be_bytes());
    let at = l.w.get_storage(&c, &k);
    l.w.mint_nft(&u, "COPY-123456", 2, at);
    let r = l.w.call(&u, &c, "withdraw", vec![a_payment(EGLD, &e(1))], &[nft("COPY-123456", 2)]);
    must(!r.ok, "a copy of the account token controls the account");
}
""")
seed("isolated-strategy-uncounted", "C14",
 "an isolated account that is leveraged through multiply",
 "debt created by a strategy is not counted towards the ceiling of an isolated collateral",
 [("controller/src/positions/borrow.rs", "        self.handle_isolated_debt(cache, &amount, account_attributes, &price_feed);\n\n        let flash_fee", "        let flash_fee")],
 """
fn main() {
    let mut m = three();
    m[0].iso = true;
    m[0].ceiling_usd = 100;
    m[1].isob = true;
    let mut l = L::new(Cfg::new(m, 3));
    ok(&mut l, Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000))] });
    no(&mut l, Op::Multiply { u: 0, acct: 0, emode: 0, coll: 0, amt: us(200), debt: 1, mode: 2, outs: vec![(0, e(5))], pays: vec![(0, e(10))], outs2: None });
    ok(&mut l, Op::Multiply { u: 0, acct: 0, emode: 0, coll: 0, amt: us(90), debt: 1, mode: 2, outs: vec![(0, e(2))], pays: vec![(0, e(10))], outs2: None });
    must(l.iso_debt_raw(0).0 == e(90), "the ceiling does not see the debt of a strategy");
}
""")
seed("retired-category-strategy", "C16",
 "a category that was retired, a listed token added to it afterwards, and a strategy on an account of that category",
 "strategies may create debt under a retired category",
 [("controller/src/positions/borrow.rs", "            emode::EModeModule::e_mode_category(self, account_attributes.e_mode_category_id);\n        self.ensure_e_mode_not_deprecated(&e_mode);\n",
   "            emode::EModeModule::e_mode_category(self, account_attributes.e_mode_category_id);\n")],
 """
fn main() {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_300, bonus: 200, assets: vec![(0, true, true), (1, true, true), (2, true, true)] }];
    let mut l = L::new(c);
    lp(&mut l);
    ok(&mut l, sup_e(0, 1, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    // retired, but its tokens stay listed
    let r = l.exec(&Op::EditEMode { id: 1, ltv: 9_000, thr: 9_300, bonus: 200, deprecated: true });
    must(r.ok, "retire");
    no(&mut l, Op::SwapDebt { u: 0, acct: 2, old: 1, amt: e(1), new: 2, outs: vec![(1, us(50))], pays: vec![] });
}
""")
seed("swap-debt-skips-limit", "C17",
 "a debt conversion that leaves part of the old debt, on an account at its limit of borrow positions",
 "a debt conversion no longer checks the number of borrow positions it leaves",
 [("controller/src/strategy.rs", "        // Ensures the position is not liquidatable due to swap slippage or price movements\n        self.validate_is_healthy(account.token_nonce, &mut cache, None);\n\n        // Enforce final-state borrow position limits.\n        self.validate_bulk_position_limits(\n            account.token_nonce,\n            AccountPositionType::Borrow,\n            &ManagedVec::new(),\n        );\n",
   "        // Ensures the position is not liquidatable due to swap slippage or price movements\n        self.validate_is_healthy(account.token_nonce, &mut cache, None);\n")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    ok(&mut l, Op::Limits { b: 1, s: 10 });
    no(&mut l, Op::SwapDebt { u: 0, acct: 2, old: 1, amt: e(1), new: 2, outs: vec![(1, us(49))], pays: vec![] });
}
""")
seed("paused-pair-still-priced", "C18",
 "an exchange pair in the partially active state as the price source, and a borrow",
 "an exchange pair that only accepts liquidity changes counts as active for risky operations",
 [("controller/src/oracle/mod.rs", "pair_status == StateXExchange::Active || cache.allow_unsafe_price", "pair_status != StateXExchange::Inactive || cache.allow_unsafe_price")],
 SCENE + NEWL + """
    let p = pair(&mut l, "venue", XE, "WEGLD-123456");
    let env = l.env.clone();
    twap(&mut l, &env, XE, 18, "WEGLD-123456", &me(1_250));
    oracle(&mut l, XE, 18, 1, 1, 1, &p, None);
    ok(&mut l, sup(0, Via::New, 2, e(10)));
    ok(&mut l, bo(0, 2, 1, us(10)));
    l.w.set_storage(&p, b"state".to_vec(), vec![2]);
    no(&mut l, bo(0, 2, 1, us(10)));
}
""")
seed("round-kept-alive", "C19",
 "submissions spread so that each follows the last within the limit but the round as a whole outlives it",
 "the age of a round is measured from its latest submission instead of its first",
 [("price_aggregator/src/utils.rs", "        } else {\n            first_sub_time_mapper.get()\n        };", "        } else {\n            last_sub_time_mapper.get()\n        };")],
 """
fn main() {
    let mut w = World::new();
    let (owner, agg) = (user("owner"), sc("aggregator"));
    w.add_account(&owner);
    w.set_now(T0);
    let mut args = vec![a_u64(3)];
    for i in 0..3 {
        let o = user(&format!("o{i}"));
        w.add_account(&o);
        args.push(a_addr(&o));
    }
    must(w.deploy(&owner, &agg, "aggregator", args).ok, "deploy");
    must(w.call(&owner, &agg, "unpause", vec![], &[]).ok, "unpause");
    // three answers, each within half an hour of the last, the round an hour long
    for i in 0..3u64 {
        w.set_now(T0 + i * 1_700);
        let o = user(&format!("o{i}"));
        let r = w.call(&o, &agg, "submit", vec![a_str("EGLD"), a_str("USD"), a_u64(T0 + i * 1_700), a_big(&e(40))], &[]);
        must(r.ok, "submit");
    }
    let r = w.query(&agg, "latestPriceFeed", vec![a_str("EGLD"), a_str("USD")]);
    must(!r.ok, "answers from an expired round made a price");
}
""")
seed("partial-claim-burns-all", "C21",
 "a reserve claim while the pool's cash covers only part of the reserve",
 "a partial claim cancels the whole reserve",
 [(LIQ, "                self.mul_half_up(&revenue_scaled, &ratio_ray, RAY_PRECISION)\n", "                let _ = ratio_ray;\n                revenue_scaled.clone()\n")],
 """
fn main() {
    let mut l = L::new(Cfg::new(three(), 3));
    ok(&mut l, Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(10_000))] });
    ok(&mut l, sup(0, Via::New, 0, e(1_000)));
    ok(&mut l, bo(0, 2, 1, us(9_990)));
    ok(&mut l, adv(YEAR));
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    let rev = l.pool_obs(1).revenue;
    ok(&mut l, Op::Claim { u: 1, ms: vec![1] });
    let o = l.pool_obs(1);
    must(o.cash == b(0), "the cash was paid out");
    must(o.revenue > rev / 2u32, "the unpaid reserve disappeared");
}
""")
seed("refund-in-debt-shares", "C22",
 "a repayment above a debt that has accrued interest",
 "an overpayment is measured against the borrowed shares instead of the debt, so the payer gets part of the interest back",
 [("liquidity_layer/src/utils.rs", "            let over_paid = payment_amount_actual.clone() - current_debt_actual;",
   "            let principal = self.rescale_half_up(\n                position_scaled_amount,\n                cache.parameters.asset_decimals,\n            );\n            let over_paid = payment_amount_actual.clone() - principal;")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(100)));
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(2 * YEAR));
    let owed = debt_units(&l.obs(), &l.cfg.clone(), 2, 1);
    let before = has(&l, 2, 1);
    ok(&mut l, rp(2, 2, 1, us(5_000)));
    must(has(&l, 2, 1) + owed == before, "the payer did not pay exactly the debt");
}
""")
seed("view-simulates-stale-supply", "C23",
 "a view asked while interest is pending on a market whose supply index has already moved",
 "the views simulate pending interest from the borrow index alone and start the supply index from the debt's",
 [("controller/src/oracle/mod.rs", "            let current_supply_index = self.supply_index(pool_address.clone()).get();", "            let current_supply_index = if borrowed == self.ray_zero() {\n                self.ray()\n            } else {\n                self.supply_index(pool_address.clone()).get()\n            };")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(100)));
    ok(&mut l, bo(0, 2, 1, us(2_000)));
    ok(&mut l, adv(3 * YEAR));
    ok(&mut l, rp(0, 2, 1, us(50_000)));
    // nothing is lent any more, but suppliers have earned
    let shown = view(&mut l, "getCollateralAmountForToken", vec![a_u64(1), a_tok(USDC)]);
    must(shown > us(100_000), "the view lost the suppliers' earnings");
}
""")
seed("deposit-updates-threshold", "C24",
 "a deposit into an existing position after the market's threshold was edited",
 "a deposit also moves the liquidation threshold of the position to the edited value",
 [("controller/src/positions/supply.rs", "            position.loan_to_value_bps = asset_info.loan_to_value_bps.clone();\n        }\n\n        if position.liquidation_bonus_bps",
   "            position.loan_to_value_bps = asset_info.loan_to_value_bps.clone();\n            position.liquidation_threshold_bps = asset_info.liquidation_threshold_bps.clone();\n        }\n\n        if position.liquidation_bonus_bps")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    let op = edit(&l.obs(), 0, |c| {
        c.ltv = b(5_000);
        c.thr = b(5_500);
    });
    ok(&mut l, op);
    ok(&mut l, sup(0, Via::Nft(2), 0, e(1)));
    let t = l.obs().accts[&2].dep[&0].thr.clone();
    must(t == b(8_000), "a deposit changed the liquidation threshold");
}
""")
seed("lp-anchor-uses-exchange-side", "C25",
 "a pool share whose second constituent's exchange price has been moved away from its published price",
 "the published price of an LP token takes one constituent's price from the exchange, so it moves with what it should anchor",
 [("controller/src/oracle/mod.rs", "        let off_chain_second_egld_price = self.find_token_price_in_egld_from_aggregator(\n            &oracle_quote_token_id,\n            &configs.quote_token_id,\n            cache,\n        );",
   "        let _ = &oracle_quote_token_id;\n        let off_chain_second_egld_price =\n            self.token_price(&configs.quote_token_id, cache).price_wad;")],
 SCENE + NEWL + """
    let far = pair(&mut l, "far", "WBTC-123456", "WEGLD-123456");
    l.set_feed("WBTC", &(e(1) * 60_000u32));
    oracle(&mut l, BTC, 8, 3, 1, 1, &far, None);
    // one USDC is worth 0.025 EGLD, on the exchange too
    let venue = pair(&mut l, "venue", USDC, "WEGLD-123456");
    let env = l.env.clone();
    twap(&mut l, &env, USDC, 6, "WEGLD-123456", &me(25));
    oracle(&mut l, USDC, 6, 1, 1, 1, &venue, None);
    // market 2 becomes a share of a pool with 1 WBTC and 60000 USDC
    let p = pair(&mut l, "pool", BTC, USDC);
    l.w.set_storage(&p, b"m_res_a".to_vec(), p10(8).to_bytes_be());
    l.w.set_storage(&p, b"m_res_b".to_vec(), us(60_000).to_bytes_be());
    l.w.set_storage(&p, b"m_supply".to_vec(), e(1_000).to_bytes_be());
    oracle(&mut l, XE, 18, 4, 3, 1, &p, None);
    ok(&mut l, sup(0, Via::New, 2, e(100)));
    ok(&mut l, bo(0, 2, 0, e(1)));
    // the exchange price of USDC moves by a quarter, its published price does not
    twap(&mut l, &env, USDC, 6, "WEGLD-123456", &(me(125) / 4u32));
    no(&mut l, bo(0, 2, 0, e(1)));
}
""")
seed("second-output-forgotten", "C26",
 "a conversion that returns the wanted token in two payments",
 "only the last payment of the wanted token is credited; the rest stays in the controller",
 [("controller/src/strategy.rs", "                target_token_result.amount += &payment.amount;", "                target_token_result.amount = payment.amount.clone();")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, Op::SwapColl { u: 0, acct: 2, old: 0, amt: e(5), new: 2, outs: vec![(2, e(3)), (2, e(1))], pays: vec![] });
    let got = dep_units(&l.obs(), &l.cfg.clone(), 2, 2);
    must(got == e(4), "part of the conversion's output is missing");
    let c = l.ctrl.clone();
    must(l.w.balance(&c, XE) == b(0), "tokens are stranded in the controller");
}
""")
seed("leftover-to-router", "C26",
 "a conversion that also returns a token nobody asked for",
 "tokens a conversion returns besides the wanted one go back to the exchange instead of to the caller",
 [("controller/src/strategy.rs", "        if !refunds.is_empty() {\n            self.tx()\n                .to(caller)", "        if !refunds.is_empty() {\n            self.tx()\n                .to(&self.swap_router().get())")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    let before = has(&l, 0, 1);
    // the exchange takes direct transfers through its funding entry only, so the refund is visible as missing
    let r = l.exec(&Op::SwapColl { u: 0, acct: 2, old: 0, amt: e(5), new: 2, outs: vec![(2, e(4)), (1, us(7))], pays: vec![] });
    must(r.ok && has(&l, 0, 1) == before + us(7), "the leftover did not reach the caller");
}
""")
seed("rewards-spread-over-users-only", "C28",
 "a reward for a market that has an unclaimed reserve",
 "a reward is divided by the users' shares only although the reserve's shares earn it too, so claims grow by more than was paid in",
 [(LIQ, "            cache.supplied_ray.clone(),\n            cache.supply_index_ray.clone(),\n            self.rescale_half_up(&payment_amount, RAY_PRECISION),",
   "            cache.supplied_ray.clone() - cache.revenue_ray.clone(),\n            cache.supply_index_ray.clone(),\n            self.rescale_half_up(&payment_amount, RAY_PRECISION),")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(900)));
    ok(&mut l, bo(0, 2, 1, us(20_000)));
    ok(&mut l, adv(10 * YEAR));
    ok(&mut l, Op::Sync { u: 1, ms: vec![1] });
    let worth = |o: &PoolObs| &o.supplied * &o.sidx / p10(48);
    let before = worth(&l.pool_obs(1));
    ok(&mut l, Op::Rewards { u: OWNER, m: 1, amt: us(10_000) });
    let after = worth(&l.pool_obs(1));
    must(after <= before + us(10_000) + b(2), "claims grew by more than the reward");
}
""")
