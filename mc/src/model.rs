//! Reference model of the lending protocol: an executable specification over
//! big integers, written from the documented rules, independent of the
//! contract's code.  `step` maps an observable state and an operation to the
//! only acceptable next state, or to a refusal.

use crate::lending::*;
use crate::world::EGLD;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, BTreeSet};

pub type R<T> = Result<T, String>;
pub fn rej<T>(s: &str) -> R<T> {
    Err(s.to_string())
}

// ------------------------------------------------------------ arithmetic
/// round(a/b), ties up
pub fn rdiv(a: &B, d: &B) -> R<B> {
    if d.is_zero() {
        return rej("division by zero");
    }
    Ok((a + d / 2u32) / d)
}
/// (a*b)/RAY half-up
pub fn rmul(a: &B, c: &B) -> B {
    (a * c + ray() / 2u32) / ray()
}
/// (a*RAY)/b half-up
pub fn rdivr(a: &B, d: &B) -> R<B> {
    rdiv(&(a * ray()), d)
}
/// rescale half-up from `f` decimals to `t` decimals
pub fn resc(v: &B, f: u32, t: u32) -> B {
    if t >= f {
        v * p10(t - f)
    } else {
        let k = p10(f - t);
        (v + &k / 2u32) / k
    }
}
pub fn up(v: &B, f: u32) -> B {
    v * p10(27 - f)
}
pub fn bps_r(v: &B) -> B {
    v * p10(23)
}
pub fn sub(a: &B, c: &B) -> R<B> {
    if a < c { rej("underflow") } else { Ok(a - c) }
}
pub fn minb(a: &B, c: &B) -> B {
    if a < c { a.clone() } else { c.clone() }
}

// ------------------------------------------------------------ rates
pub const YEAR_MS: u64 = 31_556_926_000;

pub fn annual_rate(u: &B, p: &PoolParams) -> R<B> {
    let r = ray();
    // the curve multiplies then divides with truncation
    let md = |a: &B, m: &B, d: &B| -> R<B> {
        if d.is_zero() {
            return rej("division by zero");
        }
        Ok(a * m / d)
    };
    let a = if u < &p.mid {
        &p.base + md(u, &p.s1, &p.mid)?
    } else if u < &p.opt {
        &p.base + &p.s1 + md(&sub(u, &p.mid)?, &p.s2, &sub(&p.opt, &p.mid)?)?
    } else {
        &p.base + &p.s1 + &p.s2 + md(&sub(u, &p.opt)?, &p.s3, &sub(&r, &p.opt)?)?
    };
    Ok(minb(&a, &p.max))
}
pub fn rate_per_ms(u: &B, p: &PoolParams) -> R<B> {
    rdivr(&annual_rate(u, p)?, &(B::from(YEAR_MS) * ray()))
}
pub fn compound(rate: &B, ms: u64) -> B {
    let r = ray();
    if ms == 0 {
        return r;
    }
    let x = rate * B::from(ms);
    let x2 = rmul(&x, &x);
    let x3 = rmul(&x2, &x);
    let x4 = rmul(&x3, &x);
    let x5 = rmul(&x4, &x);
    let t = |v: &B, k: u32| (v + B::from(k) / 2u32) / B::from(k);
    r + &x + t(&x2, 2) + t(&x3, 6) + t(&x4, 24) + t(&x5, 120)
}
pub fn pool_util(p: &PoolObs) -> R<B> {
    let s = rmul(&p.supplied, &p.sidx);
    if s.is_zero() {
        return Ok(B::zero());
    }
    rdivr(&rmul(&p.borrowed, &p.bidx), &s)
}
pub fn grow_supply_index(supplied: &B, idx: &B, rewards: &B) -> R<B> {
    if supplied.is_zero() || rewards.is_zero() {
        return Ok(idx.clone());
    }
    Ok(idx + rdivr(rewards, supplied)?)
}
pub fn add_revenue_ray(p: &mut PoolObs, fee_ray: &B) -> R<()> {
    if fee_ray.is_zero() {
        return Ok(());
    }
    let s = rdivr(fee_ray, &p.sidx)?;
    p.revenue += &s;
    p.supplied += s;
    Ok(())
}
/// Interest accrual of a pool up to `now_s` (seconds).
pub fn accrue(p: &mut PoolObs, prm: &PoolParams, now_s: u64) -> R<()> {
    let now = now_s * 1000;
    if now < p.ts {
        return rej("time goes backwards");
    }
    let d = now - p.ts;
    if d == 0 {
        return Ok(());
    }
    let u = pool_util(p)?;
    let f = compound(&rate_per_ms(&u, prm)?, d);
    let nb = rmul(&p.bidx, &f);
    let interest = sub(&rmul(&p.borrowed, &nb), &rmul(&p.borrowed, &p.bidx))?;
    let fee = rmul(&interest, &bps_r(&prm.rf));
    let rewards = sub(&interest, &fee)?;
    p.sidx = grow_supply_index(&p.supplied, &p.sidx, &rewards)?;
    p.bidx = nb;
    add_revenue_ray(p, &fee)?;
    p.ts = now;
    Ok(())
}
/// The state with every pool's interest brought up to the current block.
pub fn normalise(o: &Obs) -> R<Obs> {
    let mut n = o.clone();
    for i in 0..n.pools.len() {
        let now = n.now;
        accrue(&mut n.pools[i], &o.pp[i], now)?;
    }
    Ok(n)
}

// ------------------------------------------------------------ valuation
/// price in EGLD (WAD)
pub fn price_egld(o: &Obs, cfg: &Cfg, i: usize) -> R<B> {
    if ticker(cfg.mkts[i].tok) == "EGLD" {
        return Ok(wad());
    }
    Ok(resc(&rdivr(&(&o.prices[i] * p10(9)), &(&o.egld_usd * p10(9)))?, 27, 18))
}
pub fn val_ray(amount_ray: &B, price_wad: &B) -> B {
    rmul(amount_ray, &(price_wad * p10(9)))
}
/// EGLD amount (RAY) -> USD (WAD)
pub fn usd_of(egld_ray: &B, o: &Obs) -> B {
    resc(&rmul(egld_ray, &(&o.egld_usd * p10(9))), 27, 18)
}
pub fn amt_ray(pos: &Pos, p: &PoolObs, borrow: bool) -> B {
    rmul(&pos.scaled, if borrow { &p.bidx } else { &p.sidx })
}

#[derive(Clone, Debug, Default)]
pub struct Vals {
    pub coll: B,
    pub weighted: B,
    pub ltv: B,
    pub debt: B,
}
pub fn values(o: &Obs, cfg: &Cfg, a: &AcctObs) -> R<Vals> {
    let mut v = Vals::default();
    for (m, p) in &a.dep {
        let x = val_ray(&amt_ray(p, &o.pools[*m], false), &price_egld(o, cfg, *m)?);
        v.weighted += rmul(&x, &bps_r(&p.thr));
        v.ltv += rmul(&x, &bps_r(&p.ltv));
        v.coll += x;
    }
    for (m, p) in &a.bor {
        v.debt += val_ray(&amt_ray(p, &o.pools[*m], true), &price_egld(o, cfg, *m)?);
    }
    Ok(v)
}
pub fn hf(v: &Vals) -> R<B> {
    if v.debt.is_zero() { Ok(ray() * 2u32) } else { rdivr(&v.weighted, &v.debt) }
}
pub fn healthy(o: &Obs, cfg: &Cfg, a: &AcctObs) -> R<bool> {
    if a.bor.is_empty() {
        return Ok(true);
    }
    Ok(hf(&values(o, cfg, a)?)? >= ray())
}

// ------------------------------------------------------------ operations
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Via {
    New,
    Nft(u64),
    Nonce(u64),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Supply { u: usize, via: Via, emode: u8, pays: Vec<(usize, B)> },
    Withdraw { u: usize, acct: u64, pays: Vec<(usize, B)> },
    Borrow { u: usize, acct: u64, pays: Vec<(usize, B)> },
    Repay { u: usize, acct: u64, pays: Vec<(usize, B)> },
    Liquidate { u: usize, acct: u64, pays: Vec<(usize, B)> },
    CleanBad { u: usize, acct: u64 },
    Threshold { u: usize, m: usize, risks: bool, accts: Vec<u64> },
    Sync { u: usize, ms: Vec<usize> },
    Claim { u: usize, ms: Vec<usize> },
    Rewards { u: usize, m: usize, amt: B },
    /// flash loan to the env contract which sends back `outs`
    Flash { u: usize, m: usize, amt: B, outs: Vec<(usize, B)>, nested: Option<Box<Nested>> },
    Multiply {
        u: usize,
        acct: u64,
        emode: u8,
        coll: usize,
        amt: B,
        debt: usize,
        mode: u8,
        outs: Vec<(usize, B)>,
        pays: Vec<(usize, B)>,
        /// outs of the optional conversion of the initial payment
        outs2: Option<Vec<(usize, B)>>,
    },
    SwapDebt { u: usize, acct: u64, old: usize, amt: B, new: usize, outs: Vec<(usize, B)>, pays: Vec<(usize, B)> },
    SwapColl { u: usize, acct: u64, old: usize, amt: B, new: usize, outs: Vec<(usize, B)>, pays: Vec<(usize, B)> },
    RepayColl {
        u: usize,
        acct: u64,
        coll: usize,
        amt: B,
        debt: usize,
        close: bool,
        outs: Option<Vec<(usize, B)>>,
        pays: Vec<(usize, B)>,
    },
    // environment
    Price { m: usize, usd: B },
    EgldPrice { usd: B },
    Advance { secs: u64 },
    Xfer { from: usize, to: usize, acct: u64 },
    // governance (sent by the owner)
    EditAsset { m: usize, c: Box<AssetCfg> },
    PoolParams { m: usize, p: Box<PoolParams> },
    Limits { b: u8, s: u8 },
    AddEMode { ltv: u64, thr: u64, bonus: u64 },
    RemoveEMode { id: u8 },
    EditEMode { id: u8, ltv: u64, thr: u64, bonus: u64, deprecated: bool },
    AddToEMode { m: usize, id: u8, c: bool, b: bool },
    EditInEMode { m: usize, id: u8, c: bool, b: bool },
    RemFromEMode { m: usize, id: u8 },
    Pause(bool),
    /// point the controller at another contract (see WIRES); 2: zero address, 3: a wallet
    Wire { u: usize, what: usize, to: u8 },
    UpgradePool { u: usize, m: usize },
    UpgradeCtrl,
    /// a literal call; `ok`: whether it must be accepted (and then change nothing)
    Raw { u: usize, target: String, func: String, args: Vec<Vec<u8>>, pays: Vec<(String, u64, B)>, ok: bool },
}
pub const OWNER: usize = usize::MAX;
/// What a flash-loan receiver tries to do while holding the loan.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nested {
    /// "controller", or "pool<i>"
    pub target: String,
    pub func: String,
    pub pay: Option<(usize, B)>,
    pub args: Vec<Vec<u8>>,
}

/// Positions changed by an operation on `acct` may only belong to these accounts.
pub struct Ctx<'a> {
    pub cfg: &'a Cfg,
    /// per market: total shares before and after the pending interest is booked
    book: std::cell::RefCell<Vec<(B, B)>>,
}

fn aget<'a>(o: &'a Obs, n: u64) -> R<&'a AcctObs> {
    match o.accts.get(&n) {
        Some(a) if a.active => Ok(a),
        _ => rej("account not in the market"),
    }
}

impl<'a> Ctx<'a> {
    pub fn new(cfg: &'a Cfg) -> Ctx<'a> {
        Ctx { cfg, book: Default::default() }
    }
    fn dec(&self, m: usize) -> u32 {
        self.cfg.mkts[m].dec
    }
    fn supported(&self, o: &Obs, m: usize) -> R<()> {
        if m < o.pools.len() { Ok(()) } else { rej("asset not supported") }
    }
    fn emode_of(&self, o: &Obs, id: u8) -> R<Option<EModeObs>> {
        if id == 0 {
            return Ok(None);
        }
        match o.emodes.get(&id) {
            None => rej("e-mode category not found"),
            Some(e) => Ok(Some(e.clone())),
        }
    }
    fn emode_live(&self, o: &Obs, id: u8) -> R<Option<EModeObs>> {
        let e = self.emode_of(o, id)?;
        if let Some(x) = &e {
            if x.deprecated {
                return rej("e-mode category deprecated");
            }
        }
        Ok(e)
    }
    /// asset configuration as seen by an account in e-mode `id`
    fn eff(&self, o: &Obs, m: usize, id: u8) -> R<AssetCfg> {
        let mut c = o.mk[m].clone();
        if id == 0 {
            return Ok(c);
        }
        let e = match o.emodes.get(&id) {
            Some(e) => e,
            None => return rej("e-mode category not found"),
        };
        match e.assets.get(&m) {
            None => rej("asset not in e-mode category"),
            Some((cc, bb)) => {
                if c.iso {
                    return rej("isolated asset in e-mode");
                }
                c.coll = *cc;
                c.bor = *bb;
                c.ltv = e.ltv.clone();
                c.thr = e.thr.clone();
                c.bonus = e.bonus.clone();
                Ok(c)
            }
        }
    }

    fn pool_in(&self, o: &mut Obs, m: usize, amt: &B) {
        o.pools[m].cash += amt;
    }
    fn pool_out(&self, o: &mut Obs, m: usize, amt: &B) -> R<()> {
        if &o.pools[m].cash < amt {
            return rej("insufficient liquidity");
        }
        o.pools[m].cash -= amt;
        Ok(())
    }
    fn take(&self, bal: &mut B, amt: &B) -> R<()> {
        if &*bal < amt {
            return rej("insufficient funds");
        }
        *bal -= amt;
        Ok(())
    }

    // ---- pool primitives (pools are already accrued)
    fn p_supply(&self, o: &mut Obs, n: u64, m: usize, amt: &B, c: &AssetCfg) -> R<()> {
        let s = rdivr(&up(amt, self.dec(m)), &o.pools[m].sidx)?;
        let a = o.accts.get_mut(&n).unwrap();
        let pos = a.dep.entry(m).or_insert_with(|| Pos {
            scaled: B::zero(),
            thr: c.thr.clone(),
            bonus: c.bonus.clone(),
            fees: c.fees.clone(),
            ltv: c.ltv.clone(),
            kind: 1,
            nonce: n,
        });
        // parameters that can only be refreshed, never the liquidation threshold
        pos.ltv = c.ltv.clone();
        pos.bonus = c.bonus.clone();
        pos.fees = c.fees.clone();
        pos.scaled += &s;
        o.pools[m].supplied += s;
        self.pool_in(o, m, amt);
        Ok(())
    }
    /// returns the amount paid out (net of fee)
    fn p_withdraw(&self, o: &mut Obs, n: u64, m: usize, amt: &B, fee: Option<&B>) -> R<B> {
        let dec = self.dec(m);
        let pos = o.accts[&n].dep.get(&m).cloned().ok_or("token not available for this account")?;
        let cur = resc(&rmul(&pos.scaled, &o.pools[m].sidx), 27, dec);
        let (s, gross) = if amt >= &cur {
            (pos.scaled.clone(), cur)
        } else {
            (rdivr(&up(amt, dec), &o.pools[m].sidx)?, amt.clone())
        };
        let mut net = gross;
        if let Some(f) = fee {
            if &net < f {
                return rej("withdraw amount less than fee");
            }
            net -= f;
            add_revenue_ray(&mut o.pools[m], &up(f, dec))?;
        }
        if o.pools[m].cash < net {
            return rej("insufficient liquidity");
        }
        o.pools[m].supplied = sub(&o.pools[m].supplied, &s)?;
        let left = sub(&pos.scaled, &s)?;
        self.pool_out(o, m, &net)?;
        let a = o.accts.get_mut(&n).unwrap();
        if left.is_zero() {
            a.dep.remove(&m);
        } else {
            a.dep.get_mut(&m).unwrap().scaled = left;
        }
        Ok(net)
    }
    /// adds debt; does not move tokens
    fn p_debt(&self, o: &mut Obs, n: u64, m: usize, amt: &B, c: &AssetCfg) -> R<()> {
        if &o.pools[m].cash < amt {
            return rej("insufficient liquidity");
        }
        let s = rdivr(&up(amt, self.dec(m)), &o.pools[m].bidx)?;
        let a = o.accts.get_mut(&n).unwrap();
        let pos = a.bor.entry(m).or_insert_with(|| Pos {
            scaled: B::zero(),
            thr: c.thr.clone(),
            bonus: c.bonus.clone(),
            fees: c.fees.clone(),
            ltv: c.ltv.clone(),
            kind: 2,
            nonce: n,
        });
        pos.scaled += &s;
        o.pools[m].borrowed += s;
        Ok(())
    }
    /// returns the overpaid amount (handed back to the payer)
    fn p_repay(&self, o: &mut Obs, n: u64, m: usize, amt: &B) -> R<B> {
        let dec = self.dec(m);
        let pos = o.accts[&n].bor.get(&m).cloned().ok_or("no borrow position")?;
        let cur = resc(&rmul(&pos.scaled, &o.pools[m].bidx), 27, dec);
        let (s, over) = if amt >= &cur {
            (pos.scaled.clone(), amt - &cur)
        } else {
            (rdivr(&up(amt, dec), &o.pools[m].bidx)?, B::zero())
        };
        let left = sub(&pos.scaled, &s)?;
        o.pools[m].borrowed = sub(&o.pools[m].borrowed, &s)?;
        self.pool_in(o, m, amt);
        self.pool_out(o, m, &over)?;
        let a = o.accts.get_mut(&n).unwrap();
        if left.is_zero() {
            a.bor.remove(&m);
        } else {
            a.bor.get_mut(&m).unwrap().scaled = left;
        }
        Ok(over)
    }

    // ---- isolation tracker
    fn iso_add(&self, o: &mut Obs, n: u64, m: usize, amt: &B) -> R<()> {
        let a = &o.accts[&n];
        if !a.isolated {
            return Ok(());
        }
        let t = self.iso_idx(a)?;
        let egld = resc(&val_ray(&up(amt, self.dec(m)), &price_egld(o, self.cfg, m)?), 27, 18);
        let usd = usd_of(&(egld * p10(9)), o);
        if &o.iso_debt[t] + &usd > o.mk[t].ceiling {
            return rej("debt ceiling reached");
        }
        o.iso_debt[t] += usd;
        Ok(())
    }
    fn iso_idx(&self, a: &AcctObs) -> R<usize> {
        let t = a.iso_tok.clone().unwrap_or_default();
        self.cfg.mkts.iter().position(|m| m.tok == t).ok_or("isolated token".into())
    }
    fn iso_sub(&self, o: &mut Obs, t: usize, usd: &B) {
        if usd.is_zero() {
            return;
        }
        let d = &o.iso_debt[t];
        let mut n = if d > usd { d - usd } else { B::zero() };
        if n < wad() {
            n = B::zero();
        }
        o.iso_debt[t] = n;
    }
    /// `value_ray`: EGLD value of the payment
    fn iso_repaid(&self, o: &mut Obs, n: u64, m: usize, value_ray: &B) -> R<()> {
        let a = o.accts[&n].clone();
        if !a.isolated {
            return Ok(());
        }
        let t = self.iso_idx(&a)?;
        let pos = a.bor.get(&m).ok_or("no borrow position")?;
        let cur = val_ray(&amt_ray(pos, &o.pools[m], true), &price_egld(o, self.cfg, m)?);
        let cur = resc(&cur, 27, 18) * p10(9);
        let usd = usd_of(&minb(&cur, value_ray), o);
        self.iso_sub(o, t, &usd);
        Ok(())
    }

    /// one repayment leg; pays `amt` of market `m`; overpayment goes to user `u`
    fn repay_leg(&self, o: &mut Obs, u: usize, n: u64, m: usize, amt: &B, value_ray: Option<B>) -> R<()> {
        if !o.accts[&n].bor.contains_key(&m) {
            return rej("no borrow position");
        }
        if amt.is_zero() && value_ray.is_none() {
            return rej("zero payment");
        }
        let v = match value_ray {
            Some(v) => v,
            None => resc(&val_ray(&up(amt, self.dec(m)), &price_egld(o, self.cfg, m)?), 27, 18) * p10(9),
        };
        self.iso_repaid(o, n, m, &v)?;
        let over = self.p_repay(o, n, m, amt)?;
        o.bal[u][m] += over;
        Ok(())
    }

    fn check_siloed(&self, o: &Obs, n: u64, m: usize, c: &AssetCfg) -> R<()> {
        let a = &o.accts[&n];
        if a.isolated && !c.isob {
            return rej("not borrowable in isolation");
        }
        let others: Vec<usize> = a.bor.keys().cloned().filter(|x| *x != m).collect();
        if c.siloed && !others.is_empty() {
            return rej("siloed");
        }
        // existing siloed debt forbids any other debt
        if others.iter().any(|x| o.mk[*x].siloed) {
            return rej("siloed");
        }
        Ok(())
    }
    fn borrow_cap(&self, o: &Obs, m: usize, amt: &B, c: &AssetCfg) -> R<()> {
        if let Some(cap) = &c.bcap {
            let cur = resc(&rmul(&o.pools[m].borrowed, &o.pools[m].bidx), 27, self.dec(m));
            if cur + amt > *cap {
                return rej("borrow cap");
            }
        }
        Ok(())
    }
    fn new_account(&self, o: &mut Obs, u: usize, isolated: Option<usize>, emode: u8, mode: u8) -> u64 {
        let n = o.accts.len() as u64 + 1;
        o.accts.insert(
            n,
            AcctObs {
                active: true,
                isolated: isolated.is_some(),
                emode: if isolated.is_some() { 0 } else { emode },
                mode,
                iso_tok: isolated.map(|m| self.cfg.mkts[m].tok.to_string()),
                dep: BTreeMap::new(),
                bor: BTreeMap::new(),
                holder: Some(u),
            },
        );
        n
    }
    fn deposits(&self, o: &mut Obs, n: u64, pays: &[(usize, B)]) -> R<()> {
        let a = o.accts[&n].clone();
        self.emode_live(o, a.emode)?;
        let newp = pays.iter().map(|p| p.0).filter(|m| !a.dep.contains_key(m)).collect::<BTreeSet<_>>().len();
        if a.dep.len() + newp > o.limits.1 as usize {
            return rej("position limit");
        }
        for (m, amt) in pays {
            self.supported(o, *m)?;
            if amt.is_zero() {
                return rej("zero amount");
            }
            let c = self.eff(o, *m, a.emode)?;
            if !c.coll {
                return rej("not collateral");
            }
            if a.isolated {
                if self.iso_idx(&a)? != *m {
                    return rej("mix isolated collateral");
                }
            } else if c.iso {
                return rej("mix isolated collateral");
            }
            if let Some(cap) = &c.scap {
                // the reserve's share of interest not booked yet does not count
                let mut shares = o.pools[*m].supplied.clone();
                if let Some((raw, norm)) = self.book.borrow().get(*m) {
                    if shares == *norm {
                        shares = raw.clone();
                    }
                }
                let cur = resc(&rmul(&shares, &o.pools[*m].sidx), 27, self.dec(*m));
                if cur + amt > *cap {
                    return rej("supply cap");
                }
            }
            self.p_supply(o, n, *m, amt, &c)?;
        }
        Ok(())
    }
    fn strategy_debt(&self, o: &mut Obs, n: u64, m: usize, amt: &B) -> R<B> {
        let a = o.accts[&n].clone();
        self.supported(o, m)?;
        self.emode_live(o, a.emode)?;
        let c = self.eff(o, m, a.emode)?;
        if !c.bor {
            return rej("not borrowable");
        }
        self.borrow_cap(o, m, amt, &c)?;
        self.iso_add(o, n, m, amt)?;
        self.check_siloed(o, n, m, &c)?;
        let fee = amt * &c.ffee / B::from(10_000u32);
        if &fee > amt {
            return rej("strategy fee exceeds amount");
        }
        self.p_debt(o, n, m, amt, &c)?;
        add_revenue_ray(&mut o.pools[m], &up(&fee, self.dec(m)))?;
        let got = amt - fee;
        if got.is_zero() {
            return rej("nothing received");
        }
        self.pool_out(o, m, &got)?;
        Ok(got)
    }
    /// swap `give` of `from` (already held by the controller) through the router
    fn swap(&self, o: &mut Obs, u: usize, from: usize, give: &B, want: usize, outs: &[(usize, B)]) -> R<B> {
        if give.is_zero() {
            return rej("nothing to swap");
        }
        o.env_bal[from] += give;
        let mut got = B::zero();
        for (m, a) in outs {
            if &o.env_bal[*m] < a {
                return rej("router: insufficient funds");
            }
            o.env_bal[*m] -= a;
            if *m == want {
                got += a;
            } else {
                o.bal[u][*m] += a;
            }
        }
        Ok(got)
    }
    fn need_nft(&self, o: &Obs, u: usize, n: u64) -> R<()> {
        match o.accts.get(&n) {
            Some(a) if a.holder == Some(u) => {
                if a.active { Ok(()) } else { rej("account not in the market") }
            }
            _ => rej("caller does not hold the account token"),
        }
    }
    fn close_if_empty(&self, o: &mut Obs, n: u64) {
        let a = o.accts.get_mut(&n).unwrap();
        if a.dep.is_empty() && a.bor.is_empty() {
            *a = AcctObs::default();
        }
    }
    fn live(&self, o: &Obs) -> R<()> {
        if o.paused {
            return rej("paused");
        }
        if o.flash {
            return rej("flash loan ongoing");
        }
        if o.egld_usd.is_zero() {
            return rej("no EGLD price");
        }
        Ok(())
    }

    pub fn step(&self, pre: &Obs, op: &Op) -> R<Obs> {
        let mut o = match op {
            Op::Advance { .. } | Op::Price { .. } | Op::EgldPrice { .. } | Op::Xfer { .. } => pre.clone(),
            _ => normalise(pre)?,
        };
        *self.book.borrow_mut() =
            pre.pools.iter().zip(&o.pools).map(|(p, q)| (p.supplied.clone(), q.supplied.clone())).collect();
        self.apply(&mut o, op)?;
        Ok(o)
    }

    fn apply(&self, o: &mut Obs, op: &Op) -> R<()> {
        let cfg = self.cfg;
        match op {
            Op::Supply { u, via, emode, pays } => {
                self.live(o)?;
                if pays.is_empty() {
                    return rej("no payments");
                }
                let (m0, a0) = &pays[0];
                self.supported(o, *m0)?;
                if a0.is_zero() {
                    return rej("zero amount");
                }
                let iso = o.mk[*m0].iso;
                let n = match via {
                    Via::New => 0,
                    Via::Nonce(n) => {
                        if *n != 0 {
                            aget(o, *n)?;
                        }
                        *n
                    }
                    Via::Nft(n) => {
                        self.need_nft(o, *u, *n)?;
                        *n
                    }
                };
                if iso && pays.len() != 1 {
                    return rej("bulk supply with isolated");
                }
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                let n = if n == 0 { self.new_account(o, *u, if iso { Some(*m0) } else { None }, *emode, 1) } else { n };
                self.deposits(o, n, pays)
            }
            Op::Withdraw { u, acct, pays } => {
                self.live(o)?;
                self.need_nft(o, *u, *acct)?;
                for (m, a) in pays {
                    self.supported(o, *m)?;
                    if a.is_zero() {
                        return rej("zero amount");
                    }
                    let net = self.p_withdraw(o, *acct, *m, a, None)?;
                    o.bal[*u][*m] += net;
                }
                if !healthy(o, cfg, &o.accts[acct])? {
                    return rej("health factor");
                }
                self.close_if_empty(o, *acct);
                Ok(())
            }
            Op::Borrow { u, acct, pays } => {
                self.live(o)?;
                self.need_nft(o, *u, *acct)?;
                let a = o.accts[acct].clone();
                let cap = values(o, cfg, &a)?.ltv;
                self.emode_live(o, a.emode)?;
                let newp = pays.iter().map(|p| p.0).filter(|m| !a.bor.contains_key(m)).collect::<BTreeSet<_>>().len();
                if a.bor.len() + newp > o.limits.0 as usize {
                    return rej("position limit");
                }
                for (m, amt) in pays {
                    self.supported(o, *m)?;
                    if amt.is_zero() {
                        return rej("zero amount");
                    }
                    // siloed / isolation flags are per asset, e-mode only alters risk parameters
                    self.check_siloed(o, *acct, *m, &o.mk[*m])?;
                    let c = self.eff(o, *m, a.emode)?;
                    if !c.bor {
                        return rej("not borrowable");
                    }
                    let debt = values(o, cfg, &o.accts[acct])?.debt;
                    let add = val_ray(&up(amt, self.dec(*m)), &price_egld(o, cfg, *m)?);
                    if cap < debt + add {
                        return rej("insufficient collateral");
                    }
                    self.borrow_cap(o, *m, amt, &c)?;
                    self.iso_add(o, *acct, *m, amt)?;
                    self.p_debt(o, *acct, *m, amt, &c)?;
                    self.pool_out(o, *m, amt)?;
                    o.bal[*u][*m] += amt;
                }
                Ok(())
            }
            Op::Repay { u, acct, pays } => {
                self.live(o)?;
                aget(o, *acct)?;
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                for (m, a) in pays {
                    self.supported(o, *m)?;
                    self.repay_leg(o, *u, *acct, *m, a, None)?;
                }
                Ok(())
            }
            Op::Liquidate { u, acct, pays } => {
                self.live(o)?;
                let r = self.liquidate(o, *u, *acct, pays)?;
                let _ = r;
                Ok(())
            }
            Op::CleanBad { acct, .. } => {
                self.live(o)?;
                let a = aget(o, *acct)?.clone();
                let v = values(o, cfg, &a)?;
                let (d, c) = (usd_of(&v.debt, o), usd_of(&v.coll, o));
                if !(d > c && c <= wad() * 5u32) {
                    return rej("cannot clean bad debt");
                }
                for (m, p) in &a.bor {
                    if a.isolated {
                        let x = val_ray(&amt_ray(p, &o.pools[*m], true), &price_egld(o, cfg, *m)?);
                        let usd = usd_of(&x, o);
                        let t = self.iso_idx(&a)?;
                        self.iso_sub(o, t, &usd);
                    }
                    let q = &mut o.pools[*m];
                    let bad = rmul(&p.scaled, &q.bidx);
                    let tot = rmul(&q.supplied, &q.sidx);
                    if !tot.is_zero() {
                        let rem = &tot - minb(&bad, &tot);
                        let idx = rmul(&q.sidx, &rdivr(&rem, &tot)?);
                        q.sidx = if idx.is_zero() { B::one() } else { idx };
                    }
                    q.borrowed = sub(&q.borrowed, &p.scaled)?;
                }
                for (m, p) in &a.dep {
                    o.pools[*m].revenue += &p.scaled;
                }
                let x = o.accts.get_mut(acct).unwrap();
                let h = x.holder;
                *x = AcctObs { holder: h, ..Default::default() };
                Ok(())
            }
            Op::Threshold { m, risks, accts, .. } => {
                self.live(o)?;
                self.supported(o, *m)?;
                for n in accts {
                    let a = aget(o, *n)?.clone();
                    if !a.dep.contains_key(m) {
                        continue;
                    }
                    self.emode_live(o, a.emode)?;
                    let c = self.threshold_eff(o, *m, a.emode)?;
                    let p = o.accts.get_mut(n).unwrap().dep.get_mut(m).unwrap();
                    if *risks {
                        p.thr = c.thr;
                    } else {
                        p.ltv = c.ltv;
                        p.bonus = c.bonus;
                        p.fees = c.fees;
                    }
                    if *risks && !o.accts[n].bor.is_empty() {
                        let h = hf(&values(o, cfg, &o.accts[n])?)?;
                        if h < ray() + ray() / 20u32 {
                            return rej("health factor");
                        }
                    }
                }
                Ok(())
            }
            Op::Sync { ms, .. } => {
                self.live(o)?;
                for m in ms {
                    self.supported(o, *m)?;
                }
                Ok(())
            }
            Op::Claim { ms, .. } => {
                for m in ms {
                    self.claim(o, *m)?;
                }
                Ok(())
            }
            Op::Rewards { u, m, amt } => {
                self.supported(o, *m)?;
                if *u != OWNER {
                    return rej("only the owner");
                }
                self.pool_in(o, *m, amt);
                let r = up(amt, self.dec(*m));
                o.pools[*m].sidx = grow_supply_index(&o.pools[*m].supplied, &o.pools[*m].sidx, &r)?;
                Ok(())
            }
            Op::Flash { m, amt, outs, nested, .. } => {
                self.live(o)?;
                self.supported(o, *m)?;
                if !o.mk[*m].flash {
                    return rej("flash loan not enabled");
                }
                if amt.is_zero() {
                    return rej("zero amount");
                }
                if nested.is_some() {
                    return rej("re-entrant call during a flash loan");
                }
                if &o.pools[*m].cash < amt {
                    return rej("insufficient liquidity");
                }
                let dec = self.dec(*m);
                let need = resc(&rmul(&up(amt, dec), &(ray() + bps_r(&o.mk[*m].ffee))), 27, dec);
                self.pool_out(o, *m, amt)?;
                o.env_bal[*m] += amt;
                for (k, a) in outs {
                    self.take(&mut o.env_bal[*k], a)?;
                }
                if outs.len() != 1 || outs[0].0 != *m || outs[0].1 < need {
                    return rej("flash loan repayment");
                }
                let rep = &outs[0].1;
                self.pool_in(o, *m, rep);
                let fee = sub(rep, amt)?;
                add_revenue_ray(&mut o.pools[*m], &up(&fee, dec))
            }
            Op::Multiply { u, acct, emode, coll, amt, debt, mode, outs, pays, outs2 } => {
                self.live(o)?;
                if coll == debt {
                    return rej("assets are the same");
                }
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                let mut coll_in = B::zero();
                let mut debt_in = B::zero();
                let n = if *acct == 0 {
                    if pays.len() != 1 || pays[0].1.is_zero() {
                        return rej("invalid payments");
                    }
                    let iso = o.mk[*coll].iso;
                    let n = self.new_account(o, *u, if iso { Some(*coll) } else { None }, *emode, *mode);
                    let (pm, pa) = &pays[0];
                    if pm == coll {
                        coll_in = pa.clone();
                    } else if pm == debt {
                        debt_in = pa.clone();
                    } else {
                        match outs2 {
                            None => return rej("multiply requires extra steps"),
                            Some(os) => coll_in = self.swap(o, *u, *pm, pa, *coll, os)?,
                        }
                    }
                    n
                } else {
                    self.need_nft(o, *u, *acct)?;
                    if !pays.is_empty() {
                        return rej("invalid payments");
                    }
                    *acct
                };
                if !matches!(o.accts[&n].mode, 2 | 3 | 4) {
                    return rej("invalid position mode");
                }
                let got = self.strategy_debt(o, n, *debt, amt)?;
                let recv = self.swap(o, *u, *debt, &(got + debt_in), *coll, outs)?;
                self.deposits(o, n, &[(*coll, recv + coll_in)])?;
                if !healthy(o, cfg, &o.accts[&n])? {
                    return rej("health factor");
                }
                if o.accts[&n].bor.len() > o.limits.0 as usize {
                    return rej("position limit");
                }
                Ok(())
            }
            Op::SwapDebt { u, acct, old, amt, new, outs, pays } => {
                self.live(o)?;
                if old == new {
                    return rej("swap debt not supported");
                }
                self.need_nft(o, *u, *acct)?;
                if o.mk[*old].siloed || o.mk[*new].siloed {
                    return rej("swap debt not supported");
                }
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                let got = self.strategy_debt(o, *acct, *new, amt)?;
                let recv = self.swap(o, *u, *new, &got, *old, outs)?;
                let mut all = pays.clone();
                all.push((*old, recv));
                for (m, a) in &all {
                    self.supported(o, *m)?;
                    self.repay_leg(o, *u, *acct, *m, a, None)?;
                }
                if !healthy(o, cfg, &o.accts[acct])? {
                    return rej("health factor");
                }
                if o.accts[acct].bor.len() > o.limits.0 as usize {
                    return rej("position limit");
                }
                Ok(())
            }
            Op::SwapColl { u, acct, old, amt, new, outs, pays } => {
                self.live(o)?;
                if old == new {
                    return rej("assets are the same");
                }
                self.need_nft(o, *u, *acct)?;
                if o.accts[acct].isolated || o.mk[*new].iso {
                    return rej("swap collateral not supported");
                }
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                let got = self.p_withdraw(o, *acct, *old, amt, None)?;
                let recv = self.swap(o, *u, *old, &got, *new, outs)?;
                let mut all = pays.clone();
                all.push((*new, recv));
                self.deposits(o, *acct, &all)?;
                if !healthy(o, cfg, &o.accts[acct])? {
                    return rej("health factor");
                }
                Ok(())
            }
            Op::RepayColl { u, acct, coll, amt, debt, close, outs, pays } => {
                self.live(o)?;
                self.need_nft(o, *u, *acct)?;
                for (m, a) in pays {
                    self.take(&mut o.bal[*u][*m], a)?;
                }
                let got = self.p_withdraw(o, *acct, *coll, amt, None)?;
                let recv = if coll == debt {
                    got
                } else {
                    self.swap(o, *u, *coll, &got, *debt, outs.as_deref().unwrap_or(&[]))?
                };
                let mut all = pays.clone();
                all.push((*debt, recv));
                for (m, a) in &all {
                    self.supported(o, *m)?;
                    self.repay_leg(o, *u, *acct, *m, a, None)?;
                }
                if !healthy(o, cfg, &o.accts[acct])? {
                    return rej("health factor");
                }
                if *close && o.accts[acct].bor.is_empty() {
                    let ms: Vec<usize> = o.accts[acct].dep.keys().cloned().collect();
                    for m in ms {
                        let p = &o.accts[acct].dep[&m];
                        let all = resc(&rmul(&p.scaled, &o.pools[m].sidx), 27, self.dec(m));
                        let net = self.p_withdraw(o, *acct, m, &all, None)?;
                        o.bal[*u][m] += net;
                    }
                }
                self.close_if_empty(o, *acct);
                Ok(())
            }
            Op::Price { m, usd } => {
                for i in 0..o.prices.len() {
                    if ticker(cfg.mkts[i].tok) == ticker(cfg.mkts[*m].tok) {
                        o.prices[i] = usd.clone();
                    }
                }
                if ticker(cfg.mkts[*m].tok) == "EGLD" {
                    o.egld_usd = usd.clone();
                }
                Ok(())
            }
            Op::EgldPrice { usd } => {
                o.egld_usd = usd.clone();
                for i in 0..o.prices.len() {
                    if ticker(cfg.mkts[i].tok) == "EGLD" {
                        o.prices[i] = usd.clone();
                    }
                }
                Ok(())
            }
            Op::Advance { secs } => {
                o.now += secs;
                Ok(())
            }
            Op::Xfer { from, to, acct } => {
                let a = o.accts.get_mut(acct).ok_or("no account")?;
                if a.holder != Some(*from) {
                    return rej("not the holder");
                }
                a.holder = Some(*to);
                Ok(())
            }
            Op::EditAsset { m, c } => {
                self.supported(o, *m)?;
                let zero = c.ltv.is_zero() && c.thr.is_zero();
                if !(zero || c.thr > c.ltv) {
                    return rej("invalid liquidation threshold");
                }
                let e = o.mk[*m].emode_on;
                let mut c = (**c).clone();
                c.emode_on = e;
                if c.bcap.as_ref().is_some_and(|x| x.is_zero()) {
                    c.bcap = None;
                }
                if c.scap.as_ref().is_some_and(|x| x.is_zero()) {
                    c.scap = None;
                }
                o.mk[*m] = c;
                Ok(())
            }
            Op::PoolParams { m, p } => {
                self.supported(o, *m)?;
                if p.max <= p.base || p.opt <= p.mid || p.opt >= ray() || p.rf >= B::from(10_000u32) {
                    return rej("invalid pool parameters");
                }
                let dec = o.pp[*m].dec;
                o.pp[*m] = (**p).clone();
                o.pp[*m].dec = dec;
                Ok(())
            }
            Op::Limits { b, s } => {
                o.limits = (*b, *s);
                Ok(())
            }
            Op::AddEMode { ltv, thr, bonus } => {
                let id = o.emodes.keys().max().cloned().unwrap_or(0) + 1;
                o.emodes.insert(
                    id,
                    EModeObs {
                        ltv: (*ltv).into(),
                        thr: (*thr).into(),
                        bonus: (*bonus).into(),
                        deprecated: false,
                        assets: BTreeMap::new(),
                    },
                );
                Ok(())
            }
            Op::EditEMode { id, ltv, thr, bonus, deprecated } => {
                let e = o.emodes.get_mut(id).ok_or("e-mode category not found")?;
                e.ltv = (*ltv).into();
                e.thr = (*thr).into();
                e.bonus = (*bonus).into();
                e.deprecated = *deprecated;
                Ok(())
            }
            Op::RemoveEMode { id } => {
                let e = o.emodes.get_mut(id).ok_or("e-mode category not found")?;
                e.deprecated = true;
                e.assets.clear();
                self.refresh_emode_flags(o);
                Ok(())
            }
            Op::AddToEMode { m, id, c, b } => {
                self.supported(o, *m)?;
                let e = o.emodes.get_mut(id).ok_or("e-mode category not found")?;
                if e.assets.contains_key(m) {
                    return rej("already in e-mode");
                }
                e.assets.insert(*m, (*c, *b));
                self.refresh_emode_flags(o);
                Ok(())
            }
            Op::EditInEMode { m, id, c, b } => {
                let e = o.emodes.get_mut(id).ok_or("e-mode category not found")?;
                if !e.assets.contains_key(m) {
                    return rej("not in e-mode");
                }
                e.assets.insert(*m, (*c, *b));
                Ok(())
            }
            Op::RemFromEMode { m, id } => {
                let e = o.emodes.get_mut(id).ok_or("e-mode category not found")?;
                if e.assets.remove(m).is_none() {
                    return rej("not in e-mode");
                }
                self.refresh_emode_flags(o);
                Ok(())
            }
            Op::Pause(p) => {
                o.paused = *p;
                Ok(())
            }
            Op::Wire { u, what, to } => {
                if *u != OWNER {
                    return rej("only the owner");
                }
                if *to > 1 {
                    return rej("not a contract");
                }
                if o.wired[*what] == *to {
                    return Ok(());
                }
                o.wired[*what] = *to;
                match what {
                    0 => {
                        std::mem::swap(&mut o.prices, &mut o.spare.prices);
                        std::mem::swap(&mut o.egld_usd, &mut o.spare.egld_usd);
                    }
                    1 => std::mem::swap(&mut o.accu_bal, &mut o.spare.accu),
                    2 => std::mem::swap(&mut o.env_bal, &mut o.spare.env),
                    _ => {}
                }
                Ok(())
            }
            Op::UpgradePool { u, m } => {
                if *u != OWNER {
                    return rej("only the owner");
                }
                self.supported(o, *m)?;
                o.code[*m] = o.wired[3];
                Ok(())
            }
            Op::UpgradeCtrl => {
                o.paused = true;
                Ok(())
            }
            Op::Raw { ok, func, .. } => {
                if *ok { Ok(()) } else { Err(format!("{func} must be refused here")) }
            }
        }
    }
    fn refresh_emode_flags(&self, o: &mut Obs) {
        for m in 0..o.mk.len() {
            o.mk[m].emode_on = o.emodes.values().any(|e| e.assets.contains_key(&m));
        }
    }
    /// threshold refresh uses the effective parameters but does not re-check
    /// isolated/e-mode compatibility
    fn threshold_eff(&self, o: &Obs, m: usize, id: u8) -> R<AssetCfg> {
        let mut c = o.mk[m].clone();
        if id == 0 {
            return Ok(c);
        }
        let e = o.emodes.get(&id).ok_or("e-mode category not found")?;
        if !e.assets.contains_key(&m) {
            return rej("asset not in e-mode category");
        }
        c.ltv = e.ltv.clone();
        c.thr = e.thr.clone();
        c.bonus = e.bonus.clone();
        Ok(c)
    }
    pub fn claim(&self, o: &mut Obs, m: usize) -> R<()> {
        self.supported(o, m)?;
        let dec = self.dec(m);
        let p = &mut o.pools[m];
        let worth = resc(&rmul(&p.revenue, &p.sidx), 27, dec);
        let pay = minb(&p.cash, &worth);
        if pay.is_zero() {
            return Ok(());
        }
        let burn = if pay >= worth { p.revenue.clone() } else { rmul(&p.revenue, &rdivr(&up(&pay, dec), &up(&worth, dec))?) };
        p.revenue = sub(&p.revenue, &minb(&burn, &p.revenue))?;
        p.supplied = sub(&p.supplied, &minb(&burn, &p.supplied))?;
        p.cash -= &pay;
        o.accu_bal[m] += pay;
        Ok(())
    }

    // ---------------------------------------------------------- liquidation
    fn liquidate(&self, o: &mut Obs, u: usize, n: u64, pays: &[(usize, B)]) -> R<LiqOutcome> {
        if pays.is_empty() {
            return rej("invalid payments");
        }
        for (m, a) in pays {
            self.supported(o, *m)?;
            if a.is_zero() {
                return rej("zero amount");
            }
            self.take(&mut o.bal[u][*m], a)?;
        }
        let a = aget(o, n)?.clone();
        let plan = plan_liquidation(o, self.cfg, &a, pays)?;
        for (m, r) in &plan.refunds {
            o.bal[u][*m] += r;
        }
        if plan.repaid.is_empty() {
            return rej("no debt payments to process");
        }
        for (m, amt, val) in &plan.repaid {
            self.repay_leg(o, u, n, *m, amt, Some(val.clone()))?;
        }
        for (m, amt, fee) in &plan.seized {
            let net = self.p_withdraw(o, n, *m, amt, Some(fee))?;
            o.bal[u][*m] += net;
        }
        Ok(plan)
    }
}

#[derive(Clone, Debug, Default)]
pub struct LiqOutcome {
    pub repaid: Vec<(usize, B, B)>,
    pub refunds: Vec<(usize, B)>,
    pub seized: Vec<(usize, B, B)>,
    pub max_debt: B,
    pub bonus: B,
    pub hf: B,
}

fn sdiv_half_away(n: &BigInt, d: &BigInt) -> R<BigInt> {
    if d.is_zero() {
        return rej("division by zero");
    }
    let q: BigInt = (n.abs() + d.abs() / 2) / d.abs();
    Ok(if n.is_negative() != d.is_negative() { -q } else { q })
}

/// bonus at health factor `h` for a target health factor
pub fn linear_bonus(h: &B, target: &B, min_bonus: &B) -> R<B> {
    let maxb = B::from(1500u32) * p10(23);
    let gap = rdivr(&sub(target, h)?, target)?;
    let t = minb(&rmul(&(ray() * 2u32), &gap), &ray());
    Ok(min_bonus + rmul(&sub(&maxb, min_bonus)?, &t))
}
pub fn post_hf(w: &B, debt: &B, d: &B, prop: &B, bonus: &B) -> R<B> {
    let s = rmul(&rmul(prop, d), &(ray() + bonus));
    let nw = w - minb(&s, w);
    let nd = if d >= debt { B::zero() } else { debt - d };
    if nd.is_zero() { Ok(ray() * 2u32) } else { rdivr(&nw, &nd) }
}
pub fn liq_details(coll: &B, w: &B, prop: &B, bonus: &B, debt: &B, target: &B) -> R<(B, B)> {
    let opb = ray() + bonus;
    let dmax = rdivr(coll, &opb)?;
    let den = rmul(prop, &opb);
    let prop_d = if target == &den {
        dmax
    } else {
        let num = BigInt::from(rmul(target, debt)) - BigInt::from(w.clone());
        let d = BigInt::from(target.clone()) - BigInt::from(den);
        let q = sdiv_half_away(&(num * BigInt::from(ray())), &d)?;
        if q.is_negative() { dmax } else { minb(&q.to_biguint().unwrap(), &dmax) }
    };
    let d = minb(&prop_d, debt);
    let h = post_hf(w, debt, &d, prop, bonus)?;
    Ok((d, h))
}
/// (max debt to repay, bonus)
pub fn estimate(w: &B, prop: &B, coll: &B, debt: &B, min_bonus: &B, h: &B) -> R<(B, B)> {
    let t1 = ray() + ray() / 50u32;
    let b1 = linear_bonus(h, &t1, min_bonus)?;
    let (d1, h1) = liq_details(coll, w, prop, &b1, debt, &t1)?;
    if h1 >= ray() {
        return Ok((d1, b1));
    }
    let t2 = ray() + ray() / 100u32;
    let b2 = linear_bonus(h, &t2, min_bonus)?;
    let (d2, _) = liq_details(coll, w, prop, &b2, debt, &t2)?;
    let (_, h3) = liq_details(coll, w, prop, min_bonus, debt, &ray())?;
    if h3 < ray() && &h3 < h {
        let full = rdivr(coll, &(ray() + min_bonus))?;
        return Ok((minb(&full, debt), min_bonus.clone()));
    }
    Ok((d2, b2))
}

/// The complete effect of a liquidation on a (pool-accrued) state.
pub fn plan_liquidation(o: &Obs, cfg: &Cfg, a: &AcctObs, pays: &[(usize, B)]) -> R<LiqOutcome> {
    // payments of the same token are one payment
    let mut merged: Vec<(usize, B)> = vec![];
    for (m, x) in pays {
        match merged.iter_mut().find(|(k, _)| k == m) {
            Some(e) => e.1 += x,
            None => merged.push((*m, x.clone())),
        }
    }
    let mut out = LiqOutcome::default();
    let mut paid = B::zero();
    for (m, x) in &merged {
        let dec = cfg.mkts[*m].dec;
        let price = price_egld(o, cfg, *m)?;
        let pos = a.bor.get(m).ok_or("not part of the debt")?;
        let v = val_ray(&up(x, dec), &price);
        let dv = val_ray(&amt_ray(pos, &o.pools[*m], true), &price);
        if v > dv {
            let exc = resc(&rdivr(&(&v - &dv), &(&price * p10(9)))?, 27, dec);
            let mut amt = x.clone();
            if !exc.is_zero() {
                amt = sub(&amt, &exc)?;
                out.refunds.push((*m, exc));
            }
            paid += &dv;
            out.repaid.push((*m, amt, dv));
        } else {
            paid += &v;
            out.repaid.push((*m, x.clone(), v));
        }
    }
    let v = values(o, cfg, a)?;
    let (mut prop, mut wb) = (B::zero(), B::zero());
    for (m, p) in &a.dep {
        let x = val_ray(&amt_ray(p, &o.pools[*m], false), &price_egld(o, cfg, *m)?);
        let w = rdivr(&x, &v.coll)?;
        prop += rmul(&w, &bps_r(&p.thr));
        wb += rmul(&w, &bps_r(&p.bonus));
    }
    let h = hf(&v)?;
    if h >= ray() {
        return rej("health factor");
    }
    let (maxd, bonus) = estimate(&v.weighted, &prop, &v.coll, &v.debt, &wb, &h)?;
    let d = if paid.is_zero() { maxd } else { minb(&paid, &maxd) };
    for (m, p) in &a.dep {
        let dec = cfg.mkts[*m].dec;
        let price = price_egld(o, cfg, *m)?;
        let tot = amt_ray(p, &o.pools[*m], false);
        let x = val_ray(&tot, &price);
        let w = rdivr(&x, &v.coll)?;
        let se = rmul(&rmul(&w, &d), &(ray() + &bonus));
        let units = minb(&rdivr(&se, &(&price * p10(9)))?, &tot);
        let base = rdivr(&units, &(ray() + &bonus))?;
        let fee = rmul(&sub(&units, &base)?, &bps_r(&p.fees));
        out.seized.push((*m, resc(&units, 27, dec), resc(&fee, 27, dec)));
    }
    if paid > d {
        let mut left = &paid - &d;
        let mut i = out.repaid.len();
        while i > 0 && !left.is_zero() {
            i -= 1;
            let (m, amt, val) = out.repaid[i].clone();
            let dec = cfg.mkts[m].dec;
            if val >= left {
                let back = resc(&rdivr(&left, &(price_egld(o, cfg, m)? * p10(9)))?, 27, dec);
                out.repaid[i] = (m, sub(&amt, &back)?, &val - &left);
                out.refunds.push((m, back));
                left = B::zero();
            } else {
                out.refunds.push((m, amt));
                out.repaid.remove(i);
                left -= val;
            }
        }
    }
    out.max_debt = d;
    out.bonus = bonus;
    out.hf = h;
    Ok(out)
}
pub fn is_egld(tok: &str) -> bool {
    tok == EGLD
}
