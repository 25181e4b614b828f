# ---------------------------------------------------------------- fifth round: lists, bystanders, further payments
seed("claim-list-ends-at-empty", "C34",
 "the reserves of several markets are claimed in one list, an empty one before a full one",
 "a market without revenue ends the claim: the markets named after it are skipped silently",
 [("controller/src/router.rs", "                    .payment(revenue)\n                    .returns(ReturnsResult)\n                    .sync_call();\n            }\n        }\n    }\n\n    #[payable]\n    #[only_owner]\n    #[endpoint(addRewards)]",
   "                    .payment(revenue)\n                    .returns(ReturnsResult)\n                    .sync_call();\n            } else {\n                // nothing to forward\n                return;\n            }\n        }\n    }\n\n    #[payable]\n    #[only_owner]\n    #[endpoint(addRewards)]")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(1_000)));
    ok(&mut l, adv(YEAR));
    let acc = sc("accumulator");
    let had = l.w.balance(&acc, USDC);
    ok(&mut l, Op::Claim { u: 1, ms: vec![2, 1] });
    must(l.w.balance(&acc, USDC) > had, "the second market of the list was not claimed");
}
""")
seed("swept-with-another", "C27",
 "an account emptied by a liquidation (its remaining debt repaid) while somebody else closes an account",
 "closing an account also closes every other account that happens to hold nothing",
 [("controller/src/positions/withdraw.rs", "            self.account_attributes(account_payment.token_nonce).clear();\n",
   "            self.account_attributes(account_payment.token_nonce).clear();\n            // reclaim the storage of the accounts that hold nothing either\n            let mut idle = ManagedVec::<Self::Api, u64>::new();\n            for nonce in self.accounts().iter() {\n                if self.positions(nonce, AccountPositionType::Deposit).is_empty()\n                    && self.positions(nonce, AccountPositionType::Borrow).is_empty()\n                {\n                    idle.push(nonce);\n                }\n            }\n            for nonce in idle.iter() {\n                self.accounts().swap_remove(&nonce);\n                self.account_attributes(nonce).clear();\n            }\n")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(290)));
    ok(&mut l, sup(2, Via::New, 0, e(1)));
    ok(&mut l, px(0, 20_000));
    ok(&mut l, lq(1, 2, 1, us(400)));
    must(l.obs().accts[&2].dep.is_empty(), "everything is seized");
    ok(&mut l, rp(0, 2, 1, us(400)));
    ok(&mut l, wd(2, 3, 0, e(2)));
    must(l.obs().accts[&2].active, "somebody else's account was closed");
    ok(&mut l, sup(0, Via::Nft(2), 0, e(1)));
}
""")
seed("swap-debt-drops-other-payment", "C26",
 "a debt is swapped with a further payment sent along for another debt of the account",
 "payments in another token than the replaced debt are skipped and stay in the controller",
 [("controller/src/strategy.rs", "        for payment_ref in payments.iter() {\n            self.validate_payment(&payment_ref); // Ensure",
   "        for payment_ref in payments.iter() {\n            if payment_ref.token_identifier != *existing_debt_token {\n                continue;\n            }\n            self.validate_payment(&payment_ref); // Ensure")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(50)));
    ok(&mut l, bo(0, 2, 1, us(500)));
    ok(&mut l, bo(0, 2, 2, e(2)));
    let owed = view(&mut l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(XE)]);
    ok(&mut l, Op::SwapDebt { u: 0, acct: 2, old: 1, amt: e(2), new: 0, outs: vec![(1, us(79))], pays: vec![(2, e(1))] });
    let now = view(&mut l, "getBorrowAmountForToken", vec![a_u64(2), a_tok(XE)]);
    must(now < owed, "the payment for the other debt disappeared");
}
""")
seed("lifted-cap-stays", "C17",
 "a market listed with a supply cap is reconfigured to have none",
 "setting a cap of zero (no cap) keeps the old cap",
 [("controller/src/config.rs", "            supply_cap_wad: if supply_cap == BigUint::zero() {\n                None", "            supply_cap_wad: if supply_cap == BigUint::zero() {\n                old_config.supply_cap_wad.clone()")],
 NEWL + """
    let o = l.obs();
    ok(&mut l, edit(&o, 0, |c| c.scap = Some(e(1_001))));
    no(&mut l, sup(0, Via::New, 0, e(5)));
    let o = l.obs();
    ok(&mut l, edit(&o, 0, |c| c.scap = None));
    ok(&mut l, sup(0, Via::New, 0, e(5)));
}
""")
seed("isolated-supply-uncapped", "C17",
 "an asset in isolation with a supply cap, supplied into an account at the cap",
 "deposits of isolated accounts are not counted against the supply cap",
 [("controller/src/positions/supply.rs", "            self.validate_supply_cap(&asset_info, &deposit_payment, &price_feed, cache);", "            if !position_attributes.is_isolated() {\n                self.validate_supply_cap(&asset_info, &deposit_payment, &price_feed, cache);\n            }")],
 """
fn main() {
    let mut m = three();
    m[2].iso = true;
    m[2].ceiling_usd = 1_000;
    let mut l = L::new(Cfg::new(m, 3));
    ok(&mut l, sup(0, Via::New, 2, e(10)));
    let o = l.obs();
    ok(&mut l, edit(&o, 2, |c| c.scap = Some(e(11))));
    no(&mut l, sup(0, Via::Nft(1), 2, e(2)));
    ok(&mut l, sup(0, Via::Nft(1), 2, e(1)));
}
""")
seed("recent-interest-waits", "C35",
 "less than a day of interest pending on a market, and an account at its limit because of it",
 "interest younger than a day is ignored by health checks until somebody books it",
 [("controller/src/oracle/mod.rs", "            let parameters = self.parameters(pool_address.clone()).get();\n            self.simulate_update_indexes(",
   "            let parameters = self.parameters(pool_address.clone()).get();\n            // not worth computing for less than a day\n            if cache.current_timestamp - last_timestamp < 86_400_000 {\n                return MarketIndex {\n                    borrow_index_ray: current_borrowed_index,\n                    supply_index_ray: current_supply_index,\n                };\n            }\n            self.simulate_update_indexes(")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(299)));
    ok(&mut l, adv(80_000));
    let c = l.obs();
    let owed = debt_units(&c, &l.cfg.clone(), 2, 1);
    let s = l.w.snapshot();
    let most = us(300) - &owed;
    // exactly what is left, and a unit more, both as found and booked
    for booked in [true, false] {
        l.w.restore(&s);
        if booked {
            ok(&mut l, Op::Sync { u: 1, ms: vec![0, 1] });
        }
        no(&mut l, bo(0, 2, 1, &most + 2u32));
    }
}
""")
seed("stored-fee-ignored", "C24",
 "the liquidation fee of an asset is changed, then an account opened before is liquidated",
 "liquidations charge the fee configured now instead of the one stored with the position",
 [("controller/src/positions/liquidation.rs", "                &position.liquidation_fees_bps,", "                &cache.cached_asset_info(&position.asset_id).liquidation_fees_bps,")],
 NEWL + """
    ok(&mut l, sup(0, Via::New, 0, e(10)));
    ok(&mut l, bo(0, 2, 1, us(290)));
    ok(&mut l, px(0, 34_000));
    let s = l.w.snapshot();
    ok(&mut l, lq(1, 2, 1, us(50)));
    let got = has(&l, 1, 0);
    l.w.restore(&s);
    let o = l.obs();
    ok(&mut l, edit(&o, 0, |c| c.fees = b(5_000)));
    ok(&mut l, lq(1, 2, 1, us(50)));
    must(has(&l, 1, 0) == got, "an old position was liquidated on new terms");
}
""")
