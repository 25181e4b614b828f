# ---------------------------------------------------------------- third round: announcements, exits, value
SAID = """
/// the last event of that name in an accepted operation
fn said(l: &mut L, op: Op, name: &str) -> Option<Vec<Vec<u8>>> {
    let r = l.exec(&op);
    if !r.ok {
        eprintln!("refused: {op:?}: {}", r.msg);
        std::process::exit(1);
    }
    r.logs.iter().filter(|x| x.2.first().is_some_and(|t| t == name.as_bytes())).last().map(|x| x.2[1..].to_vec())
}
fn iso(l: &L) -> B {
    l.iso_debt_raw(2).0
}
fn iso_world() -> L {
    let mut m = three();
    m[1].isob = true;
    m[2].iso = true;
    m[2].ceiling_usd = 3_000;
    let mut l = L::new(Cfg::new(m, 3));
    ok(&mut l, Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (0, e(1_000))] });
    ok(&mut l, sup(0, Via::New, 2, e(100)));
    l
}
"""
seed("announces-the-overpayment", "C29",
 "a repayment of more than is owed",
 "the repayment event announces the amount sent instead of the amount by which the debt fell",
 [("controller/src/positions/repay.rs", "            cache,\n            &actual_repayment_amount,", "            cache,\n            repay_amount,"),
  ("controller/src/positions/repay.rs", "        let actual_repayment_amount = self.min(repay_amount.clone(), total_debt.clone());", "        let _ = total_debt;"),],
 SAID + NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    let e = said(&mut l, rp(0, 2, 1, us(250)), "update_position").expect("event");
    must(top_dec(&e[1]).0 == us(100), "a debt of 100 is announced as repaid with another amount");
}
""")
seed("erased-dust-unannounced", "C29",
 "a repayment that leaves less than one dollar on an isolated-debt counter",
 "the counter's event is sent before the remainder under a dollar is erased, and not again",
 [("controller/src/utils.rs", "            debt_mapper.update(|debt| *debt += amount_in_usd);\n", "            debt_mapper.update(|debt| *debt += amount_in_usd);\n            self.update_debt_ceiling_event(asset_id, debt_mapper.get());\n"),
  ("controller/src/utils.rs", "                // If dust remains under 1$ globally just erase the tracker\n", "                self.update_debt_ceiling_event(asset_id, debt.clone());\n                // If dust remains under 1$ globally just erase the tracker\n"),
  ("controller/src/utils.rs", "            });\n        }\n        self.update_debt_ceiling_event(asset_id, debt_mapper.get());\n", "            });\n        }\n")],
 SAID + """
fn main() {
    let mut l = iso_world();
    ok(&mut l, bo(0, 2, 1, us(500)));
    let e = said(&mut l, rp(0, 2, 1, us(499) + b(500_000)), "update_debt_ceiling").expect("event");
    must(top_dec(&e[1]).0 == iso(&l), "the announced counter is not the stored one");
}
""")
seed("worthless-debt-unannounced", "C29",
 "a liquidation that takes nearly all collateral of an account whose bonus share of it exceeds five dollars",
 "the collateral left after a liquidation is computed without the bonus paid, so a debt that can be written off is not announced",
 [("controller/src/positions/liquidation.rs", "        let remaining_collateral_egld = if total_collateral > seized_collateral_egld {\n            total_collateral.clone() - seized_collateral_egld.clone()",
   "        let remaining_collateral_egld = if total_collateral > seized_collateral_egld {\n            total_collateral.clone() - max_debt_repaid.clone()"),
  ("controller/src/positions/liquidation.rs", "        let remaining_collateral_egld = if total_collateral >", "        let remaining_collateral_egld = if total_collateral > max_debt_repaid && total_collateral >=")],
 SAID + NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_400)));
    ok(&mut l, px(0, 20_000));
    let x = said(&mut l, lq(1, 2, 1, us(1_400)), "emit_trigger_clean_bad_debt");
    let a = l.obs().accts[&2].clone();
    let left = a.dep.get(&0).map(|p| p.scaled.clone()).unwrap_or_default();
    must(left < p10(27) / 10u32 && !a.bor.is_empty(), "the liquidation takes everything");
    must(x.is_some(), "a debt without collateral is not announced");
}
""")
seed("last-unit-stays", "C30",
 "a withdrawal or borrow of exactly everything a market holds",
 "a market must keep at least one unit, so the last depositor cannot leave",
 [("liquidity_layer/src/cache/mod.rs", "        self.calculate_reserves() >= *amount", "        self.calculate_reserves() > *amount")],
 """
fn main() {
    let mut l = L::new(Cfg::new(three(), 3));
    ok(&mut l, sup(0, Via::New, 1, us(100)));
    ok(&mut l, sup(2, Via::New, 1, us(50)));
    ok(&mut l, wd(0, 1, 1, huge()));
    ok(&mut l, wd(2, 2, 1, huge()));
    must(l.pool_obs(1).cash == b(0), "empty");
}
""")
seed("isolated-debt-grown-past-counter", "C30",
 "an isolated account whose debt is worth more when repaid (interest or price) than what the counter recorded",
 "the isolated-debt counter is no longer floored at zero, so such a debt can never be repaid in full",
 [("controller/src/utils.rs", "                *debt -= if *debt > amount_in_usd {\n                    amount_in_usd\n                } else {\n                    debt.clone()\n                };", "                *debt -= amount_in_usd;")],
 SAID + """
fn main() {
    let mut l = iso_world();
    ok(&mut l, bo(0, 2, 1, us(500)));
    ok(&mut l, adv(YEAR));
    ok(&mut l, rp(0, 2, 1, us(2_000)));
    ok(&mut l, wd(0, 2, 2, huge()));
}
""")
seed("retired-category-holds-deposits", "C30",
 "an account of an e-mode category that has been retired since, withdrawing",
 "withdrawing from an account of a retired category is refused, so its deposits are stuck",
 [("controller/src/lib.rs", "        cache.allow_unsafe_price = borrow_positions.is_empty();\n\n        // Process each withdrawal\n",
   "        cache.allow_unsafe_price = borrow_positions.is_empty();\n        let e_mode =\n            positions::emode::EModeModule::e_mode_category(self, account_attributes.e_mode_category_id);\n        self.ensure_e_mode_not_deprecated(&e_mode);\n\n        // Process each withdrawal\n")],
 """
fn main() {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_300, bonus: 200, assets: vec![(0, true, true), (1, true, true)] }];
    let mut l = L::new(c);
    lp(&mut l);
    ok(&mut l, sup_e(0, 1, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    ok(&mut l, Op::EditEMode { id: 1, ltv: 9_000, thr: 9_300, bonus: 200, deprecated: true });
    ok(&mut l, rp(0, 2, 1, us(150)));
    ok(&mut l, wd(0, 2, 0, huge()));
}
""")
seed("first-fee-to-suppliers", "C31",
 "a leveraged account opened in a debt market whose reserve is still empty",
 "the fee of leverage is handed to the suppliers when the market has no reserve yet",
 [("liquidity_layer/src/liquidity.rs", "        self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());\n",
   "        if cache.revenue_ray == self.ray_zero() {\n            let fee_ray = self.rescale_half_up(strategy_fee, RAY_PRECISION);\n            cache.supply_index_ray = self.update_supply_index(\n                cache.supplied_ray.clone(),\n                cache.supply_index_ray.clone(),\n                fee_ray,\n            );\n        } else {\n            self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());\n        }\n")],
 NEWL + """
    ok(&mut l, sup(2, Via::New, 1, us(10_000)));
    let worth = |l: &L| { let o = l.obs(); &o.accts[&2].dep[&1].scaled * &o.pools[1].sidx };
    let before = worth(&l);
    ok(&mut l, Op::Multiply { u: 0, acct: 0, emode: 0, coll: 2, amt: us(100), debt: 1, mode: 2, outs: vec![(2, me(1_900))], pays: vec![(2, e(5))], outs2: None });
    must(worth(&l) == before, "somebody else's leverage made a supplier richer");
}
""")
seed("short-repayment-forgiven", "C31",
 "a repayment that falls short of the debt by at most ten base units, as when interest accrued since it was computed",
 "a repayment within ten base units of the debt closes it, at the expense of the suppliers",
 [("liquidity_layer/src/utils.rs", "        let current_debt_actual = cache.calculate_original_borrow(position_scaled_amount);\n",
   "        let mut current_debt_actual = cache.calculate_original_borrow(position_scaled_amount);\n        let tolerance = cache.decimal_value(&BigUint::from(10u64));\n        if *payment_amount_actual < current_debt_actual\n            && payment_amount_actual.clone() + tolerance >= current_debt_actual\n        {\n            current_debt_actual = payment_amount_actual.clone();\n        }\n")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(100)));
    ok(&mut l, rp(0, 2, 1, us(100) - b(8)));
    let owed = view(&mut l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(USDC)]);
    must(owed == b(8), "eight units of debt disappeared");
}
""")
