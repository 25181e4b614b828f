//! Building blocks for operation alphabets.

use crate::lending::*;
use crate::model::*;
use crate::world::EGLD;
use num_traits::Zero;

pub const USDC: &str = "USDC-123456";
pub const XE: &str = "XEGLD-123456";
pub const BTC: &str = "WBTC-123456";
pub const YEAR: u64 = 365 * 86_400;
pub const DAY: u64 = 86_400;

pub fn e(n: u128) -> B {
    b(n) * p10(18)
}
/// milli-EGLD
pub fn me(n: u128) -> B {
    b(n) * p10(15)
}
pub fn us(n: u128) -> B {
    b(n) * p10(6)
}
pub fn huge() -> B {
    p10(40)
}
pub fn usd_milli(n: u128) -> B {
    b(n) * p10(15)
}

/// EGLD (18 decimals, 40 USD), USDC (6 decimals, 1 USD), XEGLD (18 decimals, 50 USD)
pub fn three() -> Vec<Mkt> {
    vec![mkt(EGLD, 18, 40_000), mkt(USDC, 6, 1_000), mkt(XE, 18, 50_000)]
}

pub fn sup(u: usize, via: Via, m: usize, a: B) -> Op {
    Op::Supply { u, via, emode: 0, pays: vec![(m, a)] }
}
pub fn sup_e(u: usize, em: u8, m: usize, a: B) -> Op {
    Op::Supply { u, via: Via::New, emode: em, pays: vec![(m, a)] }
}
pub fn wd(u: usize, n: u64, m: usize, a: B) -> Op {
    Op::Withdraw { u, acct: n, pays: vec![(m, a)] }
}
pub fn bo(u: usize, n: u64, m: usize, a: B) -> Op {
    Op::Borrow { u, acct: n, pays: vec![(m, a)] }
}
pub fn rp(u: usize, n: u64, m: usize, a: B) -> Op {
    Op::Repay { u, acct: n, pays: vec![(m, a)] }
}
pub fn lq(u: usize, n: u64, m: usize, a: B) -> Op {
    Op::Liquidate { u, acct: n, pays: vec![(m, a)] }
}
pub fn adv(secs: u64) -> Op {
    Op::Advance { secs }
}
pub fn px(m: usize, milli: u128) -> Op {
    if m == 0 { Op::EgldPrice { usd: usd_milli(milli) } } else { Op::Price { m, usd: usd_milli(milli) } }
}
pub fn edit(o: &Obs, m: usize, f: impl FnOnce(&mut AssetCfg)) -> Op {
    let mut c = o.mk[m].clone();
    f(&mut c);
    Op::EditAsset { m, c: Box::new(c) }
}

/// accounts with a user holder: (nonce, holder)
pub fn live(o: &Obs) -> Vec<(u64, usize)> {
    o.accts
        .iter()
        .filter(|(_, a)| a.active)
        .filter_map(|(n, a)| a.holder.map(|h| (*n, h)))
        .collect()
}
pub fn holder(o: &Obs, n: u64) -> usize {
    o.accts.get(&n).and_then(|a| a.holder).unwrap_or(0)
}

fn near(x: &B) -> Vec<B> {
    let mut v = vec![];
    if *x > b(1) {
        v.push(x - 1u32);
    }
    if !x.is_zero() {
        v.push(x.clone());
    }
    v.push(x + 1u32);
    v
}
/// amounts of market `m` around the borrowing limit of account `n`
pub fn edge_borrow(o: &Obs, cfg: &Cfg, n: u64, m: usize) -> Vec<B> {
    let (Ok(o), Some(a)) = (normalise(o), o.accts.get(&n)) else { return vec![] };
    let Ok(v) = values(&o, cfg, a) else { return vec![] };
    let Ok(p) = price_egld(&o, cfg, m) else { return vec![] };
    if p.is_zero() || v.ltv <= v.debt {
        return vec![];
    }
    let room = (&v.ltv - &v.debt) * p10(18) / p;
    near(&(room / p10(27 - cfg.mkts[m].dec)))
}
/// amounts of collateral `m` around the largest healthy withdrawal
pub fn edge_withdraw(o: &Obs, cfg: &Cfg, n: u64, m: usize) -> Vec<B> {
    let (Ok(o), Some(a)) = (normalise(o), o.accts.get(&n)) else { return vec![] };
    let Ok(v) = values(&o, cfg, a) else { return vec![] };
    let Ok(p) = price_egld(&o, cfg, m) else { return vec![] };
    let Some(pos) = a.dep.get(&m) else { return vec![] };
    if p.is_zero() || pos.thr.is_zero() || v.weighted <= v.debt {
        return vec![];
    }
    let room = (&v.weighted - &v.debt) * b(10_000) / &pos.thr * p10(18) / p;
    near(&(room / p10(27 - cfg.mkts[m].dec)))
}
/// prices of market `m` that put account `n` at the liquidation boundary
pub fn edge_price(o: &Obs, cfg: &Cfg, n: u64, m: usize) -> Vec<Op> {
    let (Ok(o), Some(a)) = (normalise(o), o.accts.get(&n)) else { return vec![] };
    let Ok(v) = values(&o, cfg, a) else { return vec![] };
    if a.bor.is_empty() || v.weighted.is_zero() {
        return vec![];
    }
    // exact only when `m` is the single debt; close otherwise
    let p = &o.prices[m] * &v.weighted / &v.debt;
    [b(0), b(1), b(2)]
        .iter()
        .map(|k| (&p + k) - b(1))
        .map(|usd| if m == 0 { Op::EgldPrice { usd } } else { Op::Price { m, usd } })
        .collect()
}
/// outstanding debt of account in market `m`, token units, current block
pub fn debt_units(o: &Obs, cfg: &Cfg, n: u64, m: usize) -> B {
    let Ok(o) = normalise(o) else { return b(0) };
    match o.accts.get(&n).and_then(|a| a.bor.get(&m)) {
        None => b(0),
        Some(p) => resc(&rmul(&p.scaled, &o.pools[m].bidx), 27, cfg.mkts[m].dec),
    }
}
pub fn dep_units(o: &Obs, cfg: &Cfg, n: u64, m: usize) -> B {
    let Ok(o) = normalise(o) else { return b(0) };
    match o.accts.get(&n).and_then(|a| a.dep.get(&m)) {
        None => b(0),
        Some(p) => resc(&rmul(&p.scaled, &o.pools[m].sidx), 27, cfg.mkts[m].dec),
    }
}
