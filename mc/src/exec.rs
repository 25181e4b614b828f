//! Executes abstract operations on the real contracts.

use crate::lending::*;
use crate::model::*;
use crate::world::*;

pub fn a_outs(l: &L, outs: &[(usize, B)]) -> Vec<u8> {
    // ManagedArgBuffer argument: concatenated length-prefixed arguments
    let mut v = vec![];
    for (m, a) in outs {
        v.extend(n_bytes(&a_tok(l.tok(*m))));
        v.extend(n_bytes(&a_big(a)));
    }
    v
}

impl L {
    pub fn addr(&self, t: &str) -> Addr {
        match t {
            "controller" => self.ctrl.clone(),
            "aggregator" => self.agg.clone(),
            "env" => self.env.clone(),
            _ => self.pools[t[4..].parse::<usize>().expect("target")].clone(),
        }
    }
    pub fn pays(&self, p: &[(usize, B)]) -> Vec<Pay> {
        p.iter().map(|(m, a)| pay(self.tok(*m), a.clone())).collect()
    }
    fn a_pays(&self, p: &[(usize, B)]) -> Vec<Vec<u8>> {
        p.iter().map(|(m, a)| a_payment(self.tok(*m), a)).collect()
    }
    fn call(&mut self, u: usize, f: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> Res {
        let from = if u == OWNER { self.owner.clone() } else { self.users[u].clone() };
        let c = self.ctrl.clone();
        self.w.call(&from, &c, f, args, pays)
    }
    fn a_i(&self, m: usize) -> Vec<u8> {
        a_tok(self.tok(m))
    }
    fn with_nft(&self, n: u64, p: &[(usize, B)]) -> Vec<Pay> {
        let mut v = if n == 0 { vec![] } else { vec![nft(ACC, n)] };
        v.extend(self.pays(p));
        v
    }
    fn flash_args(&self, outs: &[(usize, B)], nested: &Option<Box<Nested>>) -> Vec<u8> {
        let mut args: Vec<Vec<u8>> = vec![a_u64(outs.len() as u64)];
        for (m, a) in outs {
            args.push(a_tok(self.tok(*m)));
            args.push(a_big(a));
        }
        if let Some(n) = nested {
            let t = self.addr(&n.target);
            args.push(a_addr(&t));
            args.push(a_str(&n.func));
            match &n.pay {
                None => {
                    args.push(vec![]);
                    args.push(vec![]);
                }
                Some((m, a)) => {
                    args.push(a_tok(self.tok(*m)));
                    args.push(a_big(a));
                }
            }
            args.extend(n.args.iter().cloned());
        }
        args.iter().flat_map(|a| n_bytes(a)).collect()
    }

    pub fn exec(&mut self, op: &Op) -> Res {
        let ok = Res { ok: true, msg: String::new(), vals: vec![], logs: vec![] };
        match op {
            Op::Supply { u, via, emode, pays } => {
                let mut p = self.pays(pays);
                let mut args = vec![];
                match via {
                    Via::New => {
                        if *emode != 0 {
                            args = vec![vec![], a_u64(*emode as u64)];
                        }
                    }
                    Via::Nft(n) => p.insert(0, nft(ACC, *n)),
                    Via::Nonce(n) => args = vec![a_u64(*n)],
                }
                self.call(*u, "supply", args, &p)
            }
            Op::Withdraw { u, acct, pays } => {
                let a = self.a_pays(pays);
                self.call(*u, "withdraw", a, &[nft(ACC, *acct)])
            }
            Op::Borrow { u, acct, pays } => {
                let a = self.a_pays(pays);
                self.call(*u, "borrow", a, &[nft(ACC, *acct)])
            }
            Op::Repay { u, acct, pays } => {
                let p = self.pays(pays);
                self.call(*u, "repay", vec![a_u64(*acct)], &p)
            }
            Op::Liquidate { u, acct, pays } => {
                let p = self.pays(pays);
                self.call(*u, "liquidate", vec![a_u64(*acct)], &p)
            }
            Op::CleanBad { u, acct } => self.call(*u, "cleanBadDebt", vec![a_u64(*acct)], &[]),
            Op::Threshold { u, m, risks, accts } => {
                let mut a = vec![self.a_i(*m), a_bool(*risks)];
                a.extend(accts.iter().map(|n| a_u64(*n)));
                self.call(*u, "updateAccountThreshold", a, &[])
            }
            Op::Sync { u, ms } => {
                let a = ms.iter().map(|m| self.a_i(*m)).collect();
                self.call(*u, "updateIndexes", a, &[])
            }
            Op::Claim { u, ms } => {
                let a = ms.iter().map(|m| self.a_i(*m)).collect();
                self.call(*u, "claimRevenue", a, &[])
            }
            Op::Rewards { u, m, amt } => {
                if *u == OWNER {
                    let (o, t) = (self.owner.clone(), self.tok(*m));
                    self.w.mint(&o, t, amt.clone());
                }
                let p = self.pays(&[(*m, amt.clone())]);
                self.call(*u, "addRewards", vec![], &p)
            }
            Op::Flash { u, m, amt, outs, nested } => {
                let fa = self.flash_args(outs, nested);
                let env = self.using(2);
                self.call(
                    *u,
                    "flashLoan",
                    vec![self.a_i(*m), a_big(amt), a_addr(&env), a_str("cb"), fa],
                    &[],
                )
            }
            Op::Multiply { u, acct, emode, coll, amt, debt, mode, outs, pays, outs2 } => {
                let mut a = vec![
                    a_u64(*emode as u64),
                    self.a_i(*coll),
                    a_big(amt),
                    self.a_i(*debt),
                    a_u64(*mode as u64),
                    a_outs(self, outs),
                ];
                if let Some(o2) = outs2 {
                    a.push(a_outs(self, o2));
                }
                let p = self.with_nft(*acct, pays);
                self.call(*u, "multiply", a, &p)
            }
            Op::SwapDebt { u, acct, old, amt, new, outs, pays } => {
                let a = vec![self.a_i(*old), a_big(amt), self.a_i(*new), a_outs(self, outs)];
                let p = self.with_nft(*acct, pays);
                self.call(*u, "swapDebt", a, &p)
            }
            Op::SwapColl { u, acct, old, amt, new, outs, pays } => {
                let a = vec![self.a_i(*old), a_big(amt), self.a_i(*new), a_outs(self, outs)];
                let p = self.with_nft(*acct, pays);
                self.call(*u, "swapCollateral", a, &p)
            }
            Op::RepayColl { u, acct, coll, amt, debt, close, outs, pays } => {
                let mut a = vec![self.a_i(*coll), a_big(amt), self.a_i(*debt), a_bool(*close)];
                if let Some(o) = outs {
                    a.push(a_outs(self, o));
                }
                let p = self.with_nft(*acct, pays);
                self.call(*u, "repayDebtWithCollateral", a, &p)
            }
            Op::Price { m, usd } => {
                let t = ticker(self.tok(*m));
                self.set_feed(&t, usd);
                ok
            }
            Op::EgldPrice { usd } => {
                self.set_feed("EGLD", usd);
                ok
            }
            Op::Advance { secs } => {
                let n = self.w.now() + secs;
                self.w.set_now(n);
                ok
            }
            Op::Xfer { from, to, acct } => {
                let (f, t) = (self.users[*from].clone(), self.users[*to].clone());
                self.w.call(&f, &t, "", vec![], &[nft(ACC, *acct)])
            }
            Op::EditAsset { m, c } => {
                let z = B::default();
                let a = vec![
                    self.a_i(*m),
                    a_big(&c.ltv),
                    a_big(&c.thr),
                    a_big(&c.bonus),
                    a_big(&c.fees),
                    a_bool(c.iso),
                    a_big(&c.ceiling),
                    a_bool(c.siloed),
                    a_bool(c.flash),
                    a_big(&c.ffee),
                    a_bool(c.coll),
                    a_bool(c.bor),
                    a_bool(c.isob),
                    a_big(c.bcap.as_ref().unwrap_or(&z)),
                    a_big(c.scap.as_ref().unwrap_or(&z)),
                ];
                self.call(OWNER, "editAssetConfig", a, &[])
            }
            Op::PoolParams { m, p } => {
                let a = vec![
                    self.a_i(*m),
                    a_big(&p.max),
                    a_big(&p.base),
                    a_big(&p.s1),
                    a_big(&p.s2),
                    a_big(&p.s3),
                    a_big(&p.mid),
                    a_big(&p.opt),
                    a_big(&p.rf),
                ];
                self.call(OWNER, "upgradeLiquidityPoolParams", a, &[])
            }
            Op::Limits { b, s } => {
                self.call(OWNER, "setPositionLimits", vec![a_u64(*b as u64), a_u64(*s as u64)], &[])
            }
            Op::AddEMode { ltv, thr, bonus } => {
                self.call(OWNER, "addEModeCategory", vec![a_u64(*ltv), a_u64(*thr), a_u64(*bonus)], &[])
            }
            Op::RemoveEMode { id } => self.call(OWNER, "removeEModeCategory", vec![a_u64(*id as u64)], &[]),
            Op::EditEMode { id, ltv, thr, bonus, deprecated } => {
                let mut v = vec![*id];
                for x in [ltv, thr, bonus] {
                    v.extend(n_big(&B::from(*x)));
                    v.extend(4u32.to_be_bytes());
                }
                v.push(*deprecated as u8);
                self.call(OWNER, "editEModeCategory", vec![v], &[])
            }
            Op::AddToEMode { m, id, c, b } => {
                let a = vec![self.a_i(*m), a_u64(*id as u64), a_bool(*c), a_bool(*b)];
                self.call(OWNER, "addAssetToEModeCategory", a, &[])
            }
            Op::EditInEMode { m, id, c, b } => {
                let a = vec![self.a_i(*m), a_u64(*id as u64), vec![*c as u8, *b as u8]];
                self.call(OWNER, "editAssetInEModeCategory", a, &[])
            }
            Op::RemFromEMode { m, id } => {
                let a = vec![self.a_i(*m), a_u64(*id as u64)];
                self.call(OWNER, "removeAssetFromEModeCategory", a, &[])
            }
            Op::Raw { u, target, func, args, pays, .. } => {
                let from = if *u == OWNER { self.owner.clone() } else { self.users[*u].clone() };
                let to = self.addr(target);
                let fake = pays.iter().any(|p| p.0.starts_with("FAKE"));
                let before = fake.then(|| self.w.snapshot());
                for (t, n, _) in pays {
                    // a token of another collection, made to look like the account it stands for
                    if t.starts_with("FAKE") {
                        let mut k = b"account_attributes".to_vec();
                        k.extend(n.to_be_bytes());
                        let c = self.ctrl.clone();
                        let at = self.w.get_storage(&c, &k);
                        if self.w.acct(&from).esdt.get_esdt_balance(t.as_bytes(), *n) == B::default() {
                            self.w.mint_nft(&from, t, *n, at);
                        }
                    }
                }
                let p: Vec<Pay> =
                    pays.iter().map(|(t, n, a)| Pay { token: t.clone(), nonce: *n, amount: a.clone() }).collect();
                let r = self.w.call(&from, &to, func, args.clone(), &p);
                if let (false, Some(s)) = (r.ok, &before) {
                    self.w.restore(s);
                }
                r
            }
            Op::Wire { u, what, to } => {
                let a = self.surroundings(*what, *to);
                self.call(*u, WIRES[*what].0, vec![a_addr(&a)], &[])
            }
            Op::UpgradePool { u, m } => {
                let t = if *m < self.pools.len() { self.a_i(*m) } else { a_tok("NOPE-123456") };
                self.call(*u, "upgradeLiquidityPool", vec![t], &[])
            }
            Op::UpgradeCtrl => self.call(OWNER, "upgradeContract", vec![b"controller".to_vec(), vec![5, 6]], &[]),
            Op::Pause(p) => self.call(OWNER, if *p { "pause" } else { "unpause" }, vec![], &[]),
        }
    }
}
