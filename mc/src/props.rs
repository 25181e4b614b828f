//! The properties: scenarios (configurations, initial histories, alphabets,
//! depths) and oracles.

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use crate::world::*;
use num_traits::Zero;
use std::sync::Arc;

pub struct Check {
    pub scenarios: Vec<(Scenario, Oracle)>,
    pub grids: Vec<Grid>,
}
/// A finite space of independent cases, all evaluated on the implementation.
#[derive(Clone)]
pub struct Grid {
    pub name: String,
    pub run: Arc<dyn Fn(&mut GridOut) + Send + Sync>,
}
#[derive(Default)]
pub struct GridOut {
    pub thorough: bool,
    /// replay only this case
    pub only: Option<String>,
    pub cases: u64,
    pub accepted: u64,
    pub bad: Vec<Found>,
    pub counters: Counters,
    pub samples: Vec<String>,
}

fn scn(
    name: &str,
    cfg: Cfg,
    init: Vec<Op>,
    depth: usize,
    f: impl Fn(&Obs, &Cfg, usize) -> Vec<Op> + Send + Sync + 'static,
) -> Scenario {
    Scenario { name: name.into(), cfg, init, alphabet: Arc::new(f), depth }
}
fn orc(f: impl Fn(&mut T, &mut Vec<Viol>, &mut Counters) + Send + Sync + 'static) -> Oracle {
    Arc::new(f)
}
fn d(thorough: bool, quick: usize, deep: usize) -> usize {
    if thorough { deep } else { quick }
}

/// liquidity provider account 1 (user 1)
pub fn lp_init() -> Vec<Op> {
    vec![Op::Supply {
        u: 1,
        via: Via::New,
        emode: 0,
        pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000))],
    }]
}
/// plus account 2 (user 0) with 10 EGLD of collateral
pub fn std_init() -> Vec<Op> {
    let mut v = lp_init();
    v.push(sup(0, Via::New, 0, e(10)));
    v
}
fn std_cfg(users: usize) -> Cfg {
    Cfg::new(three(), users)
}

// ------------------------------------------------------------ alphabets

/// everyday lending with uneven amounts
fn a_lend(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), adv(7), px(1, 1_300)];
    for (n, h) in live(o) {
        if n == 1 {
            v.push(wd(h, n, 1, us(99_700)));
            v.push(wd(h, n, 1, huge()));
            continue;
        }
        v.push(sup(h, Via::Nft(n), 0, e(1) + b(3)));
        v.push(sup(h, Via::Nft(n), 1, b(1)));
        v.push(wd(h, n, 0, e(3) + b(7)));
        v.push(wd(h, n, 0, huge()));
        v.push(wd(h, n, 1, huge()));
        v.push(bo(h, n, 1, us(111) + b(1)));
        v.push(bo(h, n, 2, me(1_333)));
        v.push(rp(h, n, 1, us(37) + b(1)));
        v.push(rp(h, n, 1, us(5_000)));
        v.push(rp(1, n, 2, e(9)));
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, us(10)), (1, us(11)), (2, me(5))] });
    }
    v.push(Op::Claim { u: 1, ms: vec![0, 1, 2] });
    v.push(Op::Sync { u: 1, ms: vec![1, 2] });
    v.push(Op::Rewards { u: OWNER, m: 1, amt: us(17) + b(3) });
    v.push(sup(2, Via::New, 1, us(50)));
    v.push(Op::Flash { u: 2, m: 1, amt: us(1_000) + b(1), outs: vec![(1, us(1_005) + b(1))], nested: None });
    let _ = cfg;
    v
}

/// the whole life cycle including liquidation, bad debt and strategies
fn a_full(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(1, 2_500), px(1, 90_000)];
    for (n, h) in live(o) {
        if n == 1 {
            v.push(Op::Xfer { from: h, to: 2, acct: n });
            continue;
        }
        v.push(sup(h, Via::Nft(n), 2, me(1_500)));
        v.push(wd(h, n, 0, huge()));
        v.push(wd(h, n, 0, e(1)));
        v.push(bo(h, n, 1, us(250)));
        v.push(bo(h, n, 2, e(1)));
        v.push(rp(h, n, 1, us(100)));
        v.push(rp(h, n, 1, us(100_000)));
        v.push(lq(1, n, 1, us(60)));
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(1, us(100)), (1, us(200))] });
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(1, us(100_000)), (2, e(50))] });
        v.push(Op::CleanBad { u: 1, acct: n });
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(1), new: 2, outs: vec![(1, us(48)), (0, me(1))], pays: vec![] });
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(2), new: 2, outs: vec![(2, me(1_550)), (1, us(1))], pays: vec![] });
        v.push(Op::RepayColl {
            u: h,
            acct: n,
            coll: 0,
            amt: e(3),
            debt: 1,
            close: false,
            outs: Some(vec![(1, us(118)), (2, b(5))]),
            pays: vec![],
        });
        v.push(Op::RepayColl {
            u: h,
            acct: n,
            coll: 0,
            amt: e(7),
            debt: 1,
            close: true,
            outs: Some(vec![(1, us(275))]),
            pays: vec![],
        });
    }
    v.push(Op::Multiply {
        u: 2,
        acct: 0,
        emode: 0,
        coll: 2,
        amt: us(100),
        debt: 1,
        mode: 2,
        outs: vec![(2, me(1_980)), (0, b(9))],
        pays: vec![(2, e(3))],
        outs2: None,
    });
    v.push(Op::Claim { u: 1, ms: vec![0, 1, 2] });
    let _ = cfg;
    v
}

/// an account driven deep under water, then liquidated and cleaned
fn a_bad(o: &Obs, _cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(0, 5_000), px(0, 400), px(2, 9), px(1, 1_000)];
    for (n, h) in live(o) {
        if n == 1 {
            v.push(wd(h, n, 1, us(60_000)));
            v.push(wd(h, n, 1, huge()));
            // everything that is not lent out
            let idle = o.pools[1].cash.clone();
            if idle < us(1) && !idle.is_zero() {
                v.push(wd(h, n, 1, idle));
            }
            continue;
        }
        v.push(wd(h, n, 0, huge()));
        v.push(rp(h, n, 1, us(50)));
        v.push(lq(1, n, 1, us(20)));
        v.push(lq(1, n, 1, us(1_000)));
        v.push(Op::CleanBad { u: 2, acct: n });
    }
    v.push(sup(2, Via::New, 1, us(500)));
    v.push(Op::Claim { u: 1, ms: vec![0, 1, 2] });
    v.push(Op::Sync { u: 2, ms: vec![0, 1, 2] });
    v.push(Op::Rewards { u: OWNER, m: 1, amt: us(17) + b(3) });
    v
}
/// account 2 owes 300 USDC and 1 XEGLD against 10 EGLD + 40 USDC
fn indebted() -> Vec<Op> {
    let mut v = std_init();
    v.push(sup(0, Via::Nft(2), 1, us(40)));
    v.push(bo(0, 2, 1, us(250)));
    v.push(bo(0, 2, 2, e(1)));
    v
}
/// a pool so small that a write-off can consume all of it
fn tiny_init() -> Vec<Op> {
    vec![
        // account 1: the only USDC supplier, 0.4 USDC
        sup(1, Via::New, 1, b(400_000)),
        sup(0, Via::New, 0, me(100)),
        bo(0, 2, 1, b(390_000)),
        px(0, 40),
    ]
}


/// borrowing up to the limit, single and bulk
fn a_borrow(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(0, 30_000), px(1, 1_250), px(2, 45_000)];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for m in [1, 2, 0] {
            for x in edge_borrow(o, cfg, n, m) {
                v.push(bo(h, n, m, x));
            }
        }
        // bulk: half of the room each, and one unit too much in the second leg
        if let Some(x) = edge_borrow(o, cfg, n, 1).get(1) {
            let half = x / 2u32;
            let rest = x - &half;
            v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, half.clone()), (1, rest.clone())] });
            v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, half.clone()), (1, &rest + 2u32)] });
            v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, x.clone()), (2, me(100))] });
            v.push(Op::Borrow { u: h, acct: n, pays: vec![(2, me(100)), (1, x.clone())] });
        }
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, us(20)), (2, me(300)), (0, me(200))] });
        v.push(bo(h, n, 1, us(90)));
        v.push(bo(h, n, 1, b(0)));
        v.push(sup(h, Via::Nft(n), 1, us(30)));
        v.push(wd(h, n, 0, e(1)));
        v.push(rp(h, n, 1, us(40)));
    }
    v.push(edit(o, 0, |c| c.ltv = b(6_000)));
    v
}
/// withdrawals and strategies at the edge of health
fn a_health(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(1, 1_180), px(2, 41_000)];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for m in [0, 1, 2] {
            for x in edge_withdraw(o, cfg, n, m) {
                v.push(wd(h, n, m, x));
            }
        }
        v.push(wd(h, n, 1, huge()));
        v.push(Op::Withdraw { u: h, acct: n, pays: vec![(0, me(400)), (1, us(5))] });
        v.push(Op::Withdraw { u: h, acct: n, pays: vec![(0, e(5)), (1, us(40))] });
        v.push(bo(h, n, 1, us(30)));
        v.push(rp(h, n, 1, us(60)));
        v.push(rp(h, n, 1, us(10_000)));
        // fair, lossy and gainful conversions
        for r in [100u128, 70, 130] {
            v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(4), new: 2, outs: vec![(2, me(32 * r))], pays: vec![] });
        }
        for r in [100u128, 60] {
            v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(2), new: 2, outs: vec![(1, us(r))], pays: vec![] });
            v.push(Op::RepayColl {
                u: h,
                acct: n,
                coll: 0,
                amt: e(4),
                debt: 1,
                close: false,
                outs: Some(vec![(1, us(r * 8 / 5))]),
                pays: vec![],
            });
        }
        v.push(Op::RepayColl { u: h, acct: n, coll: 1, amt: us(30), debt: 1, close: false, outs: None, pays: vec![] });
    }
    for amt in [200u128, 560, 640, 900] {
        v.push(Op::Multiply {
            u: 2,
            acct: 0,
            emode: 0,
            coll: 2,
            amt: us(amt),
            debt: 1,
            mode: 2,
            outs: vec![(2, me(amt * 20))],
            pays: vec![(2, e(3))],
            outs2: None,
        });
    }
    v
}
/// prices sweeping across the liquidation boundary
fn a_liqgate(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), adv(30 * DAY), px(0, 33_000), px(1, 1_100)];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for m in [0, 1, 2] {
            v.extend(edge_price(o, cfg, n, m));
        }
        v.push(lq(1, n, 1, us(25)));
        v.push(lq(1, n, 2, me(250)));
        v.push(lq(1, n, 0, me(250)));
        v.push(lq(h, n, 1, us(25)));
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![] });
        v.push(rp(h, n, 1, us(30)));
        v.push(sup(h, Via::Nft(n), 2, me(100)));
        v.push(wd(h, n, 1, us(10)));
    }
    v.push(lq(1, 1, 1, us(25)));
    v.push(lq(1, 9, 1, us(25)));
    v
}
/// liquidations of every size and mix
fn a_liq(o: &Obs, cfg: &Cfg, dd: usize) -> Vec<Op> {
    let mut v = vec![adv(200 * DAY)];
    if dd < 2 {
        for p in [36_000u128, 30_000, 25_000, 15_000, 900] {
            v.push(px(0, p));
        }
        for p in [1_150u128, 1_400, 3_000] {
            v.push(px(1, p));
        }
        v.push(px(2, 65_000));
    }
    for (n, _h) in live(o) {
        if n == 1 {
            continue;
        }
        let d1 = debt_units(o, cfg, n, 1);
        let d2 = debt_units(o, cfg, n, 2);
        for a in [b(1), us(1), us(33), &d1 / 2u32, d1.clone(), &d1 + 1u32, us(5_000)] {
            v.push(lq(1, n, 1, a));
        }
        for a in [b(1), me(90), d2.clone(), e(40)] {
            v.push(lq(1, n, 2, a));
        }
        let two = |x: B, y: B| Op::Liquidate { u: 1, acct: n, pays: vec![(1, x), (2, y)] };
        v.push(two(us(20), me(100)));
        v.push(two(us(5_000), me(100)));
        v.push(two(us(20), e(50)));
        v.push(two(us(5_000), e(50)));
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(2, e(50)), (1, us(50))] });
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(1, &d1 * 6u32 / 10u32), (1, &d1 * 6u32 / 10u32)] });
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(2, &d2 * 6u32 / 10u32), (1, us(3)), (2, &d2 * 6u32 / 10u32)] });
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(0, me(10)), (1, us(3))] });
        v.push(lq(0, n, 1, us(33)));
    }
    v
}
/// values that fall exactly on the boundaries, and one unit (of price or token) around them:
/// health factor 1 and 1.05, debt equal to collateral, collateral worth five dollars
fn a_exact(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![];
    let wei = |m: usize, milli: u128, k: i32| {
        let mut usd = usd_milli(milli);
        if k < 0 {
            usd -= 1u32;
        } else {
            usd += k as u32;
        }
        if m == 0 { Op::EgldPrice { usd } } else { Op::Price { m, usd } }
    };
    for k in [-1, 0, 1] {
        v.push(wei(0, 32_000, k));
        v.push(wei(0, 500, k));
        v.push(wei(0, 25_600, k));
    }
    v.push(px(0, 400));
    v.push(wei(1, 1_250, 0));
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        v.push(lq(1, n, 1, us(1)));
        v.push(lq(1, n, 1, us(5_000)));
        v.push(Op::CleanBad { u: 1, acct: n });
        v.push(bo(h, n, 1, b(1)));
        v.push(bo(h, n, 1, us(44)));
        v.push(wd(h, n, 0, b(1)));
        v.push(wd(h, n, 0, e(2)));
        v.push(rp(h, n, 1, us(1)));
        v.push(Op::Threshold { u: 1, m: 0, risks: true, accts: vec![n] });
    }
    v.push(edit(o, 0, |c| c.thr = b(8_400)));
    let _ = cfg;
    v
}
fn exact_init() -> Vec<Op> {
    let mut v = std_init();
    v.push(bo(0, 2, 1, us(256)));
    v.push(sup(2, Via::New, 0, e(10)));
    v.push(bo(2, 3, 1, us(5)));
    v
}
fn raw(u: usize, target: &str, func: &str, args: Vec<Vec<u8>>, pays: Vec<(&str, u64, B)>) -> Op {
    Op::Raw {
        u,
        target: target.into(),
        func: func.into(),
        args,
        pays: pays.into_iter().map(|(t, n, a)| (t.to_string(), n, a)).collect(),
        ok: false,
    }
}
fn toks(o: &Obs, cfg: &Cfg) -> Vec<&'static str> {
    let _ = o;
    cfg.mkts.iter().map(|m| m.tok).collect()
}

/// isolation: XEGLD (ceiling 300 USD) and a 2-decimals asset are isolated collateral
fn iso_cfg() -> Cfg {
    let mut m = three();
    m[0].isob = false;
    m[1].isob = true;
    m[2].iso = true;
    m[2].ceiling_usd = 300;
    let mut g = mkt("GOLD-123456", 2, 2_000_000);
    g.iso = true;
    g.ceiling_usd = 250;
    g.isob = true;
    m.push(g);
    let mut x = mkt("DAI-123456", 18, 1_000);
    x.isob = true;
    m.push(x);
    Cfg::new(m, 3)
}
fn iso_init() -> Vec<Op> {
    vec![
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (0, e(1_000)), (4, e(50_000))] },
        // 2: isolated XEGLD account, 3: isolated GOLD account
        sup(0, Via::New, 2, e(10)),
        sup(2, Via::New, 3, b(100)),
    ]
}
fn a_iso(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(0, 50_000), px(1, 1_200)];
    for (n, h) in live(o) {
        if n == 1 {
            // a regular account must not mix isolated collateral in
            v.push(sup(h, Via::Nft(n), 2, e(1)));
            continue;
        }
        let a = &o.accts[&n];
        let own = if a.isolated { cfg.mkts.iter().position(|m| Some(m.tok) == a.iso_tok.as_deref()).unwrap() } else { 0 };
        v.push(sup(h, Via::Nft(n), own, p10(cfg.mkts[own].dec)));
        v.push(sup(h, Via::Nft(n), 1, us(10)));
        v.push(sup(1, Via::Nonce(n), 0, e(1)));
        if n == 2 {
            v.push(sup(h, Via::Nft(n), 3, b(10)));
        }
        v.push(bo(h, n, 0, e(1)));
        // around the ceiling
        let room = if o.mk[own].ceiling > o.iso_debt[own] { &o.mk[own].ceiling - &o.iso_debt[own] } else { b(0) };
        let units = &room * p10(6) / (&o.prices[1]);
        for k in [b(0), b(1), b(2)] {
            v.push(bo(h, n, 1, &units + k));
        }
        v.push(bo(h, n, 1, us(120) + b(1)));
        v.push(bo(h, n, 4, e(60) + b(7)));
        v.push(bo(h, n, 1, b(1)));
        v.push(rp(h, n, 1, us(50)));
        v.push(rp(h, n, 1, us(5_000)));
        v.push(rp(h, n, 4, e(5_000)));
        v.push(bo(h, n, own, p10(cfg.mkts[own].dec) / 20u32));
        // leaving about one dollar, where the counter is cleared
        let owed = debt_units(o, cfg, n, 1);
        for left in [us(1) + us(1) / 2u32, us(1), us(1) / 2u32] {
            if owed > left {
                v.push(rp(h, n, 1, &owed - left));
            }
        }
        v.push(wd(h, n, own, huge()));
        v.push(lq(1, n, 1, us(40)));
        v.push(Op::CleanBad { u: 1, acct: n });
        if n == 2 {
            v.push(px(own, 12_000));
        }
        v.push(px(own, 10));
    }
    v.push(Op::Supply { u: 2, via: Via::New, emode: 0, pays: vec![(2, e(1)), (1, us(1))] });
    v.push(Op::Supply { u: 2, via: Via::New, emode: 0, pays: vec![(1, us(1)), (2, e(1))] });
    v.push(Op::Multiply {
        u: 2,
        acct: 0,
        emode: 0,
        coll: 2,
        amt: us(100),
        debt: 1,
        mode: 2,
        outs: vec![(2, e(2))],
        pays: vec![(2, e(3))],
        outs2: None,
    });
    v
}
/// strategies on and around isolated collateral: 4 is a regular account, 5 an
/// isolated one opened by leverage
fn iso_strat_init() -> Vec<Op> {
    let mut v = iso_init();
    v.push(sup(0, Via::New, 0, e(10)));
    v.push(bo(0, 4, 1, us(20)));
    v.push(Op::Multiply { u: 2, acct: 0, emode: 0, coll: 2, amt: us(100), debt: 1, mode: 2, outs: vec![(2, e(2))], pays: vec![(2, e(8))], outs2: None });
    v
}
fn a_iso_strat(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    for (n, h) in live(o) {
        if n == 1 || n == 3 {
            continue;
        }
        let a = &o.accts[&n];
        let own = if a.isolated { cfg.mkts.iter().position(|m| Some(m.tok) == a.iso_tok.as_deref()).unwrap() } else { 0 };
        // into, out of and between isolated collateral
        for (new, out) in [(2usize, me(790)), (3, b(2)), (0, me(900)), (1, us(38))] {
            if new != own {
                v.push(Op::SwapColl { u: h, acct: n, old: own, amt: p10(cfg.mkts[own].dec), new, outs: vec![(new, out)], pays: vec![] });
            }
        }
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(10), new: 4, outs: vec![(1, us(9))], pays: vec![] });
        v.push(Op::SwapDebt { u: h, acct: n, old: 4, amt: us(5), new: 1, outs: vec![(4, e(4))], pays: vec![] });
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: me(200), new: 0, outs: vec![(1, us(7))], pays: vec![] });
        for (debt, amt, out) in [(1usize, me(300), us(14)), (1, e(4), us(190)), (4, me(300), e(14))] {
            v.push(Op::RepayColl { u: h, acct: n, coll: own, amt, debt, close: false, outs: Some(vec![(debt, out)]), pays: vec![] });
        }
        v.push(Op::RepayColl { u: h, acct: n, coll: own, amt: e(4), debt: 1, close: true, outs: Some(vec![(1, us(150))]), pays: vec![] });
        v.push(bo(h, n, 1, us(30)));
        v.push(bo(h, n, 4, e(20)));
        v.push(rp(h, n, 1, us(15)));
        if a.mode == 2 {
            let room = if o.mk[own].ceiling > o.iso_debt[own] { &o.mk[own].ceiling - &o.iso_debt[own] } else { b(0) };
            let units = &room * p10(6) / (&o.prices[1]);
            for k in [us(30), units.clone(), units + b(1)] {
                v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: own, amt: k, debt: 1, mode: 2, outs: vec![(own, e(1))], pays: vec![], outs2: None });
            }
            v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: own, amt: e(20), debt: 4, mode: 2, outs: vec![(own, me(390))], pays: vec![], outs2: None });
            // leverage into some other collateral, or with a debt not allowed in isolation
            v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: 4, amt: us(20), debt: 1, mode: 2, outs: vec![(4, e(19))], pays: vec![], outs2: None });
            v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: own, amt: me(100), debt: 0, mode: 2, outs: vec![(own, me(70))], pays: vec![], outs2: None });
        }
    }
    // a fresh leveraged account whose isolated collateral is bought with the debt token or a third one
    v.push(Op::Multiply { u: 2, acct: 0, emode: 0, coll: 2, amt: us(50), debt: 1, mode: 3, outs: vec![(2, e(4))], pays: vec![(1, us(160))], outs2: None });
    v.push(Op::Multiply { u: 2, acct: 0, emode: 0, coll: 2, amt: us(50), debt: 1, mode: 3, outs: vec![(2, e(1))], pays: vec![(0, e(5))], outs2: Some(vec![(2, e(4))]) });
    v
}
/// every kind of operation on every kind of account: regular, isolated,
/// e-mode, leveraged and siloed, with interest pending
fn mixed_cfg() -> Cfg {
    let mut m = three();
    m[1].isob = true;
    m[2].scap = 540_000_000_000_000_000_000;
    m[2].bcap = 40_000_000_000_000_000_000;
    let mut g = mkt("GOLD-123456", 2, 2_000_000);
    g.iso = true;
    g.ceiling_usd = 250;
    g.bor = false;
    m.push(g);
    let mut x = mkt("DAI-123456", 18, 1_000);
    x.siloed = true;
    x.isob = true;
    m.push(x);
    let mut c = Cfg::new(m, 4);
    c.limits = (3, 3);
    c.emodes = vec![
        EMode { ltv: 9_000, thr: 9_300, bonus: 100, assets: vec![(0, true, true), (2, true, true)] },
        EMode { ltv: 8_500, thr: 9_000, bonus: 200, assets: vec![(1, true, false), (0, true, true)] },
    ];
    c
}
fn mixed_init() -> Vec<Op> {
    vec![
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (0, e(1_000)), (2, e(500))] },
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(4, e(50_000))] },
        sup(0, Via::New, 0, e(10)),
        Op::Borrow { u: 0, acct: 3, pays: vec![(1, us(150)), (2, e(1))] },
        sup(2, Via::New, 3, b(100)),
        bo(2, 4, 1, us(100)),
        sup_e(2, 1, 2, e(5)),
        bo(2, 5, 0, e(4)),
        Op::Multiply { u: 0, acct: 0, emode: 0, coll: 2, amt: us(100), debt: 1, mode: 2, outs: vec![(2, me(1_950))], pays: vec![(2, e(3))], outs2: None },
        Op::Supply { u: 2, via: Via::New, emode: 0, pays: vec![(0, e(8)), (1, us(20))] },
        bo(2, 7, 4, e(60)),
        // everything of account 8 is seized, then its debt repaid: it stays open, empty
        sup(2, Via::New, 0, e(10)),
        bo(2, 8, 1, us(290)),
        px(0, 20_000),
        lq(1, 8, 1, us(400)),
        px(0, 40_000),
        rp(2, 8, 1, us(400)),
        // account 9 can be liquidated
        sup(0, Via::New, 0, e(5)),
        bo(0, 9, 4, e(60)),
        px(4, 3_000),
        // half an hour of interest pending on USDC, ten days on the others
        adv(10 * DAY),
        Op::Sync { u: 1, ms: vec![1] },
        adv(1_800),
    ]
}
/// about ten USD of each market
fn ten(m: usize) -> B {
    [me(250), us(10), me(200), b(1), e(10)][m].clone()
}
/// changes of the surroundings, and of the accounts as a whole
fn mixed_shifts(o: &Obs) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(0, 30_000), px(1, 1_350), px(2, 70_000), px(3, 100_000), px(3, 3_000), px(4, 5_000)];
    for (n, h) in live(o) {
        let a = &o.accts[&n];
        if n < 3 {
            continue;
        }
        v.push(Op::Xfer { from: h, to: 3, acct: n });
        for m in a.bor.keys() {
            v.push(rp(h, n, *m, huge()));
            v.push(lq(1, n, *m, ten(*m)));
        }
        v.push(Op::CleanBad { u: 3, acct: n });
        v.push(wd(h, n, *a.dep.keys().next().unwrap_or(&0), huge()));
    }
    for m in [1usize, 0] {
        if let Some(c) = o.accts.get(&1).and_then(|_| Some(o.pools[m].cash.clone())) {
            if c > ten(m) {
                v.push(wd(holder(o, 1), 1, m, &c - ten(m)));
            }
            v.push(wd(holder(o, 1), 1, m, c));
        }
    }
    v.push(Op::Pause(!o.paused));
    v.push(Op::Limits { b: 1, s: 1 });
    for f in [
        (|c: &mut AssetCfg| c.coll = false) as fn(&mut AssetCfg),
        |c| c.bor = false,
        |c| c.siloed = !c.siloed,
        |c| {
            c.ltv = b(5_000);
            c.thr = b(5_500);
            c.bonus = b(900);
            c.fees = b(2_000);
        },
    ] {
        v.push(edit(o, 0, f));
        v.push(edit(o, 1, f));
    }
    v.push(edit(o, 1, |c| c.scap = Some(us(1))));
    v.push(edit(o, 1, |c| c.isob = false));
    v.push(edit(o, 2, |c| c.scap = None));
    v.push(edit(o, 2, |c| c.bcap = None));
    v.push(edit(o, 3, |c| c.scap = Some(b(100))));
    v.push(Op::RemoveEMode { id: 1 });
    v.push(Op::EditInEMode { m: 0, id: 1, c: true, b: false });
    v.push(Op::EditEMode { id: 1, ltv: 7_000, thr: 7_500, bonus: 300, deprecated: false });
    let mut p = o.pp[1].clone();
    p.base = &p.base * 2u32;
    p.rf = b(3_000);
    v.push(Op::PoolParams { m: 1, p: Box::new(p) });
    v.push(Op::Rewards { u: OWNER, m: 1, amt: us(70) });
    v
}
fn mixed_all(o: &Obs, cfg: &Cfg) -> Vec<Op> {
    let mut v = mixed_shifts(o);
    for (n, h) in live(o) {
        let a = &o.accts[&n];
        if n < 3 {
            continue;
        }
        let dep: Vec<usize> = a.dep.keys().cloned().collect();
        let bor: Vec<usize> = a.bor.keys().cloned().collect();
        for m in 0..5 {
            v.push(sup(h, Via::Nft(n), m, ten(m)));
            v.push(bo(h, n, m, ten(m)));
        }
        v.push(sup(3, Via::Nonce(n), dep.first().cloned().unwrap_or(0), b(1)));
        for x in edge_borrow(o, cfg, n, 1).into_iter().skip(1) {
            v.push(bo(h, n, 1, x));
        }
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, us(5)), (2, me(20))] });
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(0, me(20)), (1, us(5))] });
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(4, e(5)), (1, us(5))] });
        v.push(Op::Supply { u: h, via: Via::Nft(n), emode: 0, pays: vec![(0, me(20)), (1, us(5)), (0, b(7))] });
        for m in &dep {
            v.push(wd(h, n, *m, ten(*m)));
            for x in edge_withdraw(o, cfg, n, *m).into_iter().skip(1) {
                v.push(wd(h, n, *m, x));
            }
            for new in 0..5 {
                if new != *m {
                    v.push(Op::SwapColl { u: h, acct: n, old: *m, amt: ten(*m), new, outs: vec![(new, ten(new) * 9u32 / 10u32 + 1u32)], pays: vec![] });
                    let k = (new + 1) % 3;
                    v.push(Op::SwapColl { u: h, acct: n, old: *m, amt: ten(*m), new, outs: vec![(new, ten(new))], pays: vec![(k, ten(k)), (new, b(3))] });
                }
            }
            for risks in [true, false] {
                v.push(Op::Threshold { u: 1, m: *m, risks, accts: vec![n] });
            }
            for dm in &bor {
                let out = |k: u32| if m == dm { None } else { Some(vec![(*dm, ten(*dm) * k)]) };
                v.push(Op::RepayColl { u: h, acct: n, coll: *m, amt: ten(*m), debt: *dm, close: false, outs: out(1), pays: vec![] });
                v.push(Op::RepayColl { u: h, acct: n, coll: *m, amt: ten(*m) * 20u32, debt: *dm, close: true, outs: out(19), pays: vec![] });
                for k in bor.iter().chain([&0usize]) {
                    v.push(Op::RepayColl { u: h, acct: n, coll: *m, amt: ten(*m), debt: *dm, close: true, outs: out(1), pays: vec![(*k, ten(*k) * 2u32)] });
                }
            }
        }
        if dep.len() > 1 {
            v.push(Op::Withdraw { u: h, acct: n, pays: vec![(dep[0], ten(dep[0])), (dep[1], huge())] });
        }
        for m in &bor {
            v.push(rp(3, n, *m, ten(*m)));
            v.push(lq(3, n, *m, huge()));
            v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(*m, ten(*m)), (1, us(1)), (*m, ten(*m))] });
            for new in [0usize, 1, 2, 4] {
                if new != *m {
                    v.push(Op::SwapDebt { u: h, acct: n, old: *m, amt: ten(new), new, outs: vec![(*m, ten(*m))], pays: vec![] });
                    // with further payments: for the same, another or no debt at all
                    let also = (0..3).filter(|k| k != &new);
                    for k in also {
                        v.push(Op::SwapDebt { u: h, acct: n, old: *m, amt: ten(new), new, outs: vec![(*m, ten(*m))], pays: vec![(k, ten(k))] });
                    }
                }
            }
        }
        for debt in [0usize, 1] {
            let coll = *dep.iter().find(|x| **x != debt).unwrap_or(&2);
            v.push(Op::Multiply { u: h, acct: n, emode: 0, coll, amt: ten(debt), debt, mode: 2, outs: vec![(coll, ten(coll))], pays: vec![], outs2: None });
        }
    }
    for em in 0..3u8 {
        v.push(sup_e(3, em, 0, e(1)));
        v.push(Op::Multiply { u: 3, acct: 0, emode: em, coll: 0, amt: me(400), debt: 2, mode: 3, outs: vec![(0, me(490))], pays: vec![(0, e(1))], outs2: None });
    }
    v.push(sup(3, Via::New, 3, b(100)));
    v.push(Op::Multiply { u: 3, acct: 0, emode: 0, coll: 3, amt: us(50), debt: 1, mode: 4, outs: vec![(3, b(2))], pays: vec![(3, b(10))], outs2: None });
    // one unit more than ten USD, for a pool left with just that
    v.push(Op::Multiply { u: 3, acct: 0, emode: 0, coll: 0, amt: us(10) + 1u32, debt: 1, mode: 3, outs: vec![(0, me(240))], pays: vec![(0, e(1))], outs2: None });
    v.push(Op::Flash { u: 3, m: 1, amt: us(10) + 1u32, outs: vec![(1, us(11))], nested: None });
    for (n, h) in live(o).into_iter().filter(|x| x.0 == 3 || x.0 == 5) {
        v.push(bo(h, n, 1, us(10) + 1u32));
        v.push(Op::SwapDebt { u: h, acct: n, old: if n == 3 { 2 } else { 0 }, amt: us(10) + 1u32, new: 1, outs: vec![(if n == 3 { 2 } else { 0 }, me(200))], pays: vec![] });
    }
    v.push(Op::Sync { u: 3, ms: vec![0, 1, 2, 3, 4] });
    v.push(Op::Claim { u: 3, ms: vec![0, 1, 2, 4] });
    v.push(Op::Rewards { u: 3, m: 1, amt: us(70) });
    v.push(Op::Rewards { u: OWNER, m: 3, amt: b(7) });
    for (m, back) in [(1usize, us(2_011)), (1, us(2_000)), (0, e(3_000))] {
        v.push(Op::Flash { u: 3, m, amt: if m == 1 { us(2_000) } else { e(20) }, outs: vec![(m, back)], nested: None });
    }
    v
}
/// every pair of operations, or shifts of the surroundings before every operation
fn mixed(depth: usize, shift: bool) -> Scenario {
    scn("mixed", mixed_cfg(), mixed_init(), depth, move |o, cfg, d| {
        if shift && d + 1 < depth { mixed_shifts(o) } else { mixed_all(o, cfg) }
    })
}
/// siloed: USDC and DAI may only be borrowed alone
fn silo_cfg() -> Cfg {
    let mut m = three();
    m[1].siloed = true;
    let mut x = mkt("DAI-123456", 18, 1_000);
    x.siloed = true;
    m.push(x);
    let mut c = Cfg::new(m, 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_300, bonus: 100, assets: vec![(0, true, true), (1, true, true), (2, true, true)] }];
    c
}
fn silo_init() -> Vec<Op> {
    vec![
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (0, e(1_000)), (2, e(1_000)), (3, e(50_000))] },
        sup(0, Via::New, 0, e(10)),
        sup_e(2, 1, 0, e(10)),
    ]
}
fn a_silo(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![edit(o, 2, |c| c.siloed = !c.siloed), edit(o, 1, |c| c.siloed = !c.siloed)];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        v.push(bo(h, n, 0, me(100)));
        v.push(bo(h, n, 1, us(10)));
        v.push(bo(h, n, 2, me(100)));
        v.push(bo(h, n, 3, e(10)));
        let two = |x: (usize, B), y: (usize, B)| Op::Borrow { u: h, acct: n, pays: vec![x, y] };
        v.push(two((1, us(1)), (2, me(10))));
        v.push(two((2, me(10)), (1, us(1))));
        v.push(two((1, us(1)), (1, us(2))));
        v.push(two((1, us(1)), (3, e(1))));
        v.push(two((0, me(1)), (2, me(1))));
        for m in 0..4 {
            if !debt_units(o, cfg, n, m).is_zero() {
                v.push(rp(h, n, m, p10(25)));
            }
        }
        for (old, new, amt, out) in [(2usize, 1usize, us(5), me(90)), (1, 2, me(200), us(9)), (2, 0, me(130), me(100)), (1, 3, e(10), us(9))] {
            v.push(Op::SwapDebt { u: h, acct: n, old, amt, new, outs: vec![(old, out)], pays: vec![] });
        }
        if o.accts[&n].mode == 2 {
            for (debt, amt) in [(1usize, us(10)), (0, me(100)), (3, e(10))] {
                v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: 2, amt, debt, mode: 2, outs: vec![(2, me(190))], pays: vec![], outs2: None });
            }
        }
    }
    for debt in [1usize, 0] {
        let amt = if debt == 1 { us(40) } else { e(1) };
        v.push(Op::Multiply {
            u: 2,
            acct: 0,
            emode: 0,
            coll: 2,
            amt,
            debt,
            mode: 2,
            outs: vec![(2, me(790))],
            pays: vec![(2, e(3))],
            outs2: None,
        });
    }
    v
}
/// e-mode: category 1 = {EGLD, XEGLD both ways}, category 2 = {USDC collateral only, EGLD borrow only}
fn emode_cfg() -> Cfg {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![
        EMode { ltv: 9_000, thr: 9_300, bonus: 100, assets: vec![(0, true, true), (2, true, true)] },
        EMode { ltv: 8_500, thr: 9_000, bonus: 200, assets: vec![(1, true, false), (0, false, true)] },
    ];
    c
}
fn emode_init() -> Vec<Op> {
    let mut v = lp_init();
    v.push(sup_e(0, 1, 0, e(10)));
    v.push(sup_e(2, 2, 1, us(500)));
    v
}
fn a_emode(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for m in 0..3 {
            v.push(sup(h, Via::Nft(n), m, p10(cfg.mkts[m].dec)));
            for x in edge_borrow(o, cfg, n, m).into_iter().skip(1) {
                v.push(bo(h, n, m, x));
            }
            v.push(bo(h, n, m, p10(cfg.mkts[m].dec - 1)));
        }
        // several at once, allowed and not allowed in the category, in both orders
        for (x, y) in [(0usize, 1usize), (1, 0), (0, 2), (2, 1)] {
            let a = |m: usize| (m, p10(cfg.mkts[m].dec - 2));
            v.push(Op::Borrow { u: h, acct: n, pays: vec![a(x), a(y)] });
            v.push(Op::Supply { u: h, via: Via::Nft(n), emode: 0, pays: vec![a(x), a(y)] });
        }
        v.push(wd(h, n, 0, e(4)));
        for m in [0usize, 1] {
            v.push(Op::Threshold { u: 1, m, risks: true, accts: vec![n] });
            v.push(Op::Threshold { u: 1, m, risks: false, accts: vec![n] });
        }
        v.push(Op::Liquidate { u: 1, acct: n, pays: vec![(2, e(1))] });
    }
    // several accounts refreshed in one call, in and out of a category, in both orders
    let ids: Vec<u64> = live(o).into_iter().map(|x| x.0).collect();
    if ids.len() > 1 {
        for m in [0usize, 2] {
            for risks in [true, false] {
                v.push(Op::Threshold { u: 1, m, risks, accts: ids.clone() });
                v.push(Op::Threshold { u: 1, m, risks, accts: ids.iter().rev().cloned().collect() });
            }
        }
    }
    for (em, m) in [(1u8, 1usize), (2, 0), (3, 0), (1, 2), (0, 2)] {
        v.push(sup_e(2, em, m, p10(cfg.mkts[m].dec)));
    }
    v.push(px(2, 58_000));
    v.push(Op::RemoveEMode { id: 1 });
    v.push(Op::EditEMode { id: 1, ltv: 7_000, thr: 9_100, bonus: 150, deprecated: false });
    v.push(Op::EditInEMode { m: 0, id: 2, c: true, b: true });
    v.push(Op::EditInEMode { m: 2, id: 1, c: true, b: false });
    v.push(Op::RemFromEMode { m: 2, id: 1 });
    v.push(Op::AddToEMode { m: 1, id: 1, c: true, b: true });
    v.push(Op::AddEMode { ltv: 5_000, thr: 5_500, bonus: 300 });
    v.push(edit(o, 0, |c| c.coll = false));
    v.push(edit(o, 2, |c| c.bor = false));
    v.push(Op::Multiply {
        u: 2,
        acct: 0,
        emode: 1,
        coll: 2,
        amt: e(4),
        debt: 0,
        mode: 2,
        outs: vec![(2, e(3))],
        pays: vec![(2, e(1))],
        outs2: None,
    });
    v
}
/// a category with live debt in it that is retired, emptied, refilled, edited and revived
fn retire_cfg() -> Cfg {
    let mut c = Cfg::new(three(), 3);
    c.emodes = vec![EMode { ltv: 9_000, thr: 9_300, bonus: 100, assets: vec![(0, true, true), (1, true, true)] }];
    c
}
fn retire_init() -> Vec<Op> {
    let mut v = lp_init();
    v.push(sup_e(0, 1, 0, e(10)));
    v.push(bo(0, 2, 1, us(100)));
    v
}
fn a_retire(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![];
    let ed = |thr, dep| Op::EditEMode { id: 1, ltv: 9_000, thr, bonus: 100, deprecated: dep };
    v.push(ed(9_300, true));
    v.push(ed(9_300, false));
    v.push(Op::RemoveEMode { id: 1 });
    v.push(Op::AddToEMode { m: 2, id: 1, c: true, b: true });
    v.push(Op::AddToEMode { m: 1, id: 1, c: true, b: true });
    v.push(Op::EditInEMode { m: 1, id: 1, c: true, b: false });
    v.push(Op::EditInEMode { m: 0, id: 1, c: false, b: true });
    v.push(Op::RemFromEMode { m: 1, id: 1 });
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        let u = |m: usize| p10(cfg.mkts[m].dec);
        for m in 0..3 {
            v.push(sup(h, Via::Nft(n), m, u(m)));
            v.push(bo(h, n, m, u(m)));
        }
        v.push(rp(h, n, 1, us(10)));
        v.push(wd(h, n, 0, e(1)));
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(1), new: 2, outs: vec![(1, us(49))], pays: vec![] });
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(1), new: 0, outs: vec![(1, us(39))], pays: vec![] });
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(1), new: 2, outs: vec![(2, me(790))], pays: vec![] });
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(1), new: 1, outs: vec![(1, us(39))], pays: vec![] });
        v.push(Op::Threshold { u: 1, m: 0, risks: true, accts: vec![n] });
        for (debt, amt) in [(1usize, us(39)), (2, me(790))] {
            v.push(Op::Multiply { u: h, acct: n, emode: 1, coll: 0, amt, debt, mode: 2, outs: vec![(0, me(990))], pays: vec![], outs2: None });
        }
    }
    v.push(sup_e(2, 1, 0, e(1)));
    for (debt, amt) in [(1usize, us(39)), (2, me(790))] {
        v.push(Op::Multiply { u: 2, acct: 0, emode: 1, coll: 0, amt, debt, mode: 2, outs: vec![(0, me(990))], pays: vec![(0, e(3))], outs2: None });
    }
    v
}
/// caps: USDC supply 1000 / borrow 500, EGLD supply 30, XEGLD borrow 3; at most 2+2 positions
fn cap_cfg() -> Cfg {
    let mut m = three();
    m[1].scap = 100_500_000_000;
    m[1].bcap = 500_000_000;
    m[0].scap = 1_015_000_000_000_000_000_000;
    m[2].bcap = 3_000_000_000_000_000_000;
    let mut c = Cfg::new(m, 3);
    c.limits = (2, 3);
    c
}
fn a_cap(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    v.push(edit(o, 0, |c| c.scap = None));
    v.push(edit(o, 1, |c| c.bcap = if c.bcap.is_some() { None } else { Some(us(400)) }));
    let n0 = normalise(o).unwrap_or_else(|_| o.clone());
    let room = |m: usize, borrow: bool| -> B {
        let p = &n0.pools[m];
        let (cap, cur) = if borrow {
            (o.mk[m].bcap.clone(), rmul(&p.borrowed, &p.bidx))
        } else {
            (o.mk[m].scap.clone(), rmul(&p.supplied, &p.sidx))
        };
        let cur = resc(&cur, 27, cfg.mkts[m].dec);
        match cap {
            Some(c) if c > cur => c - cur,
            _ => b(0),
        }
    };
    for (n, h) in live(o) {
        if n == 1 {
            v.push(wd(h, n, 1, us(300)));
            continue;
        }
        for m in [0usize, 1] {
            let r = room(m, false);
            for k in [0u32, 1] {
                v.push(sup(h, Via::Nft(n), m, &r + k));
            }
        }
        for m in [1usize, 2] {
            let r = room(m, true);
            for k in [0u32, 1] {
                v.push(bo(h, n, m, &r + k));
            }
        }
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(1, us(260)), (1, us(241))] });
        v.push(Op::Supply { u: h, via: Via::Nft(n), emode: 0, pays: vec![(0, e(3)), (0, e(3))] });
        v.push(sup(h, Via::Nft(n), 2, e(20)));
        v.push(bo(h, n, 0, me(10)));
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(0, me(5)), (2, me(5)), (1, us(1))] });
        v.push(Op::Borrow { u: h, acct: n, pays: vec![(0, me(5)), (0, me(5)), (0, me(5))] });
        v.push(rp(h, n, 1, us(100)));
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(2), new: 2, outs: vec![(1, us(90))], pays: vec![] });
        v.push(Op::SwapDebt { u: h, acct: n, old: 2, amt: us(400), new: 1, outs: vec![(2, e(1))], pays: vec![] });
        v.push(Op::SwapColl { u: h, acct: n, old: 2, amt: e(1), new: 0, outs: vec![(0, e(6))], pays: vec![] });
        for (old, new) in [(0usize, 1usize), (2, 0)] {
            let r = room(new, false);
            for k in [0u32, 1] {
                v.push(Op::SwapColl { u: h, acct: n, old, amt: e(1), new, outs: vec![(new, &r + k)], pays: vec![] });
            }
        }
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: huge(), new: 2, outs: vec![(2, e(7))], pays: vec![] });
        if o.accts[&n].mode == 2 {
            for (m, debt) in [(0usize, 1usize), (2, 1)] {
                let r = room(debt, true);
                for k in [0u32, 1] {
                    v.push(Op::Multiply { u: h, acct: n, emode: 0, coll: m, amt: &r + k, debt, mode: 2, outs: vec![(m, e(5))], pays: vec![], outs2: None });
                }
            }
        }
    }
    for amt in [300u128, 501] {
        v.push(Op::Multiply {
            u: 2,
            acct: 0,
            emode: 0,
            coll: 2,
            amt: us(amt),
            debt: 1,
            mode: 2,
            outs: vec![(2, me(amt * 20))],
            pays: vec![(2, e(20))],
            outs2: None,
        });
    }
    v.push(Op::Limits { b: 1, s: 1 });
    v.push(edit(o, 1, |c| c.bcap = None));
    v.push(edit(o, 1, |c| c.scap = Some(us(1))));
    v
}
/// repayments of every size by owner and strangers
fn a_repay(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), adv(11), px(1, 1_900)];
    for (n, h) in live(o) {
        if n == 1 {
            v.push(rp(h, n, 1, us(5)));
            continue;
        }
        for m in [1usize, 2] {
            let dbt = debt_units(o, cfg, n, m);
            for a in [b(1), &dbt / 3u32, dbt.clone(), &dbt + 1u32, &dbt * 2u32] {
                v.push(rp(h, n, m, a));
            }
            if dbt > b(1) {
                v.push(rp(1, n, m, &dbt - 1u32));
            }
        }
        let d1 = debt_units(o, cfg, n, 1);
        v.push(Op::Repay { u: 1, acct: n, pays: vec![(1, us(10)), (2, me(50))] });
        v.push(Op::Repay { u: 1, acct: n, pays: vec![(1, &d1 / 2u32), (1, d1.clone())] });
        v.push(Op::Repay { u: 1, acct: n, pays: vec![(1, d1), (2, e(9))] });
        v.push(rp(h, n, 0, e(1)));
        v.push(bo(h, n, 1, us(20)));
        v.push(Op::RepayColl { u: h, acct: n, coll: 0, amt: e(2), debt: 1, close: false, outs: Some(vec![(1, us(79))]), pays: vec![] });
    }
    v.push(rp(1, 9, 1, us(1)));
    v
}
/// accrual histories: long and short pauses between every kind of pool use
fn a_accrue(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(1), adv(3_600), adv(YEAR), adv(12 * YEAR)];
    v.push(Op::Sync { u: 2, ms: vec![1] });
    v.push(Op::Sync { u: 2, ms: vec![0, 1, 2] });
    v.push(Op::Claim { u: 2, ms: vec![1] });
    v.push(Op::Rewards { u: OWNER, m: 1, amt: us(9) + b(1) });
    for (n, h) in live(o) {
        if n == 1 {
            // to utilization kinks: leave exactly the needed supply
            v.push(wd(h, n, 1, us(80_000)));
            v.push(wd(h, n, 1, us(9_500)));
            v.push(wd(h, n, 1, o.pools[1].cash.clone()));
            continue;
        }
        v.push(bo(h, n, 1, us(6_500)));
        v.push(bo(h, n, 1, us(1_500)));
        v.push(rp(h, n, 1, us(3_000) + b(1)));
        v.push(sup(h, Via::Nft(n), 1, us(777)));
    }
    let mut p = o.pp[1].clone();
    p.base = &p.base * 2u32;
    p.rf = b(3_500);
    v.push(Op::PoolParams { m: 1, p: Box::new(p) });
    let _ = cfg;
    v
}
/// strategies with conversions that return too little, too much, or other tokens
fn a_strat(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), px(2, 44_000)];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        let mult = |mode: u8, outs: Vec<(usize, B)>| Op::Multiply {
            u: h,
            acct: n,
            emode: 0,
            coll: 2,
            amt: us(60),
            debt: 1,
            mode,
            outs,
            pays: vec![],
            outs2: None,
        };
        v.push(mult(2, vec![(2, me(1_190)), (0, b(3))]));
        v.push(mult(2, vec![]));
        for (outs, pays) in [
            (vec![(1usize, us(49))], vec![]),
            (vec![(1, us(20)), (1, us(20)), (2, b(9)), (0, me(1))], vec![]),
            (vec![(1, us(4_000))], vec![]),
            (vec![], vec![]),
            (vec![(1, us(10))], vec![(1usize, us(7))]),
        ] {
            v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(1), new: 2, outs, pays });
        }
        for (outs, pays) in [
            (vec![(2usize, me(790)), (1, us(1))], vec![]),
            (vec![], vec![]),
            (vec![(2, me(790))], vec![(2usize, me(5))]),
        ] {
            v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(1), new: 2, outs, pays });
        }
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(1), new: 0, outs: vec![(0, e(1))], pays: vec![] });
        v.push(Op::SwapColl { u: 2, acct: n, old: 0, amt: huge(), new: 1, outs: vec![(1, us(395))], pays: vec![] });
        for (coll, amt, outs, close, pays) in [
            (0usize, e(2), Some(vec![(1usize, us(79)), (2, b(1))]), false, vec![]),
            (0, e(9), Some(vec![(1, us(3_000))]), true, vec![]),
            (0, e(9), Some(vec![(1, us(3_000))]), false, vec![]),
            (1, us(30), None, true, vec![]),
            (0, e(1), None, false, vec![]),
            (0, e(1), Some(vec![(1, us(39))]), false, vec![(1usize, us(5))]),
            (0, e(1), Some(vec![(1, us(39))]), true, vec![(1, us(9_000))]),
        ] {
            v.push(Op::RepayColl { u: h, acct: n, coll, amt, debt: 1, close, outs, pays });
        }
        v.push(sup(h, Via::Nft(n), 1, us(35)));
        v.push(Op::SwapDebt { u: 1, acct: n, old: 1, amt: e(1), new: 2, outs: vec![(1, us(49))], pays: vec![] });
    }
    for (pay, outs2, mode) in [
        ((2usize, e(3)), None, 2u8),
        ((1, us(50)), None, 3),
        ((0, e(2)), Some(vec![(2usize, me(1_500)), (1, us(3))]), 4),
        ((0, e(2)), None, 2),
        ((2, e(3)), None, 1),
        ((2, e(3)), None, 0),
    ] {
        v.push(Op::Multiply {
            u: 2,
            acct: 0,
            emode: 0,
            coll: 2,
            amt: us(100),
            debt: 1,
            mode,
            outs: vec![(2, me(2_900)), (1, b(11))],
            pays: vec![pay],
            outs2,
        });
    }
    let _ = cfg;
    v
}
/// reward distribution among changing sets of suppliers
fn a_rewards(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), adv(77)];
    for (m, a) in [(1usize, us(1)), (1, us(12_345) + b(1)), (1, b(1)), (2, me(3)), (0, e(2))] {
        v.push(Op::Rewards { u: OWNER, m, amt: a.clone() });
        v.push(Op::Rewards { u: 2, m, amt: a });
    }
    for (n, h) in live(o) {
        v.push(wd(h, n, 1, huge()));
        v.push(wd(h, n, 2, huge()));
        v.push(sup(h, Via::Nft(n), 1, us(333) + b(1)));
    }
    v.push(bo(0, 2, 1, us(33)));
    v.push(rp(0, 2, 1, us(5_000)));
    v.push(sup(2, Via::New, 1, b(1)));
    v.push(Op::Claim { u: 2, ms: vec![1, 2] });
    let _ = cfg;
    v
}
/// reserve claims against every liquidity situation
fn a_claim(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR), adv(40 * DAY)];
    for ms in [vec![1], vec![0, 1, 2], vec![1, 1], vec![2]] {
        v.push(Op::Claim { u: 2, ms });
    }
    for (n, h) in live(o) {
        if n == 1 {
            v.push(wd(h, n, 1, o.pools[1].cash.clone()));
            if o.pools[1].cash > us(1) {
                v.push(wd(h, n, 1, &o.pools[1].cash - us(1)));
            }
            v.push(wd(h, n, 1, huge()));
            continue;
        }
        v.push(rp(h, n, 1, us(13)));
        v.push(rp(h, n, 1, us(100_000)));
        v.push(bo(h, n, 1, us(40)));
        v.push(lq(1, n, 1, us(60)));
        v.push(Op::CleanBad { u: 1, acct: n });
    }
    v.push(Op::Flash { u: 2, m: 1, amt: us(40), outs: vec![(1, us(42))], nested: None });
    v.push(px(1, 2_400));
    v.push(px(0, 100));
    v.push(Op::Rewards { u: OWNER, m: 1, amt: us(21) });
    let _ = cfg;
    v
}
/// flash loans of all shapes
fn a_flash(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    let fee = |m: usize, a: &B| -> B {
        let dec = cfg.mkts[m].dec;
        resc(&rmul(&up(a, dec), &(ray() + bps_r(&o.mk[m].ffee))), 27, dec)
    };
    for m in [0usize, 1, 2] {
        for a in [b(1), b(99), p10(cfg.mkts[m].dec) * 7u32 + b(1), o.pools[m].cash.clone(), &o.pools[m].cash + 1u32] {
            if a.is_zero() {
                continue;
            }
            let n = fee(m, &a);
            let f = |outs: Vec<(usize, B)>| Op::Flash { u: 2, m, amt: a.clone(), outs, nested: None };
            v.push(f(vec![(m, n.clone())]));
            if n > b(1) {
                v.push(f(vec![(m, &n - 1u32)]));
            }
            v.push(f(vec![(m, &n + 5u32)]));
        }
        v.push(Op::Flash { u: 2, m, amt: p10(3), outs: vec![], nested: None });
        v.push(Op::Flash { u: 2, m, amt: b(0), outs: vec![], nested: None });
        v.push(Op::Flash { u: 2, m, amt: p10(3), outs: vec![((m + 1) % 3, p10(4))], nested: None });
    }
    v.push(edit(o, 1, |c| c.flash = false));
    v.push(edit(o, 1, |c| c.ffee = b(0)));
    v.push(edit(o, 0, |c| c.ffee = b(333)));
    v.push(bo(0, 2, 1, us(99)));
    v.push(Op::Claim { u: 2, ms: vec![0, 1, 2] });
    v
}
/// while a loan is out, everything that moves accounts or pools must be refused
fn a_reenter(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![];
    let usdc = a_tok(USDC);
    let eg = a_tok(EGLD);
    let pay1 = a_payment(USDC, &us(1));
    let n2 = a_u64(2);
    let calls: Vec<(&str, Option<(usize, B)>, Vec<Vec<u8>>)> = vec![
        ("supply", Some((1, us(5))), vec![]),
        ("supply", Some((1, us(5))), vec![a_u64(2)]),
        ("repay", Some((1, us(5))), vec![n2.clone()]),
        ("liquidate", Some((1, us(5))), vec![n2.clone()]),
        ("cleanBadDebt", None, vec![n2.clone()]),
        ("cleanBadDebt", None, vec![a_u64(3)]),
        ("updateIndexes", None, vec![usdc.clone()]),
        ("updateAccountThreshold", None, vec![eg.clone(), vec![], n2.clone()]),
        ("flashLoan", None, vec![usdc.clone(), a_big(&us(1)), a_addr(&sc("env")), a_str("cb"), n_bytes(&a_u64(0))]),
        ("flashLoan", None, vec![eg.clone(), a_big(&e(1)), a_addr(&sc("env")), a_str("cb"), n_bytes(&a_u64(0))]),
        (
            "multiply",
            Some((2, e(3))),
            vec![vec![], a_tok(XE), a_big(&us(10)), usdc.clone(), a_u64(2), {
                let mut x = n_bytes(&a_tok(XE));
                x.extend(n_bytes(&a_big(&me(200))));
                x
            }],
        ),
        ("borrow", Some((9, b(1))), vec![pay1.clone()]),
        ("withdraw", Some((9, b(1))), vec![pay1.clone()]),
    ];
    for (f, pay, args) in calls {
        if matches!(pay, Some((9, _))) {
            continue;
        }
        for m in [1usize, 0] {
            v.push(Op::Flash {
                u: 2,
                m,
                amt: p10(cfg.mkts[m].dec) * 10u32,
                outs: vec![(m, p10(cfg.mkts[m].dec) * 11u32)],
                nested: Some(Box::new(Nested { target: "controller".into(), func: f.into(), pay: pay.clone(), args: args.clone() })),
            });
        }
    }
    // the lender's own entry points must not accept strangers either
    for (f, args) in [
        ("updateIndexes", vec![a_big(&wad())]),
        ("claimRevenue", vec![a_big(&wad())]),
        ("flashLoan", vec![usdc.clone(), a_big(&us(1)), a_addr(&sc("env")), a_str("cb"), vec![], a_big(&us(0)), a_big(&wad())]),
    ] {
        v.push(Op::Flash {
            u: 2,
            m: 1,
            amt: us(10),
            outs: vec![(1, us(11))],
            nested: Some(Box::new(Nested { target: "pool1".into(), func: f.into(), pay: None, args })),
        });
    }
    v.push(Op::Flash { u: 2, m: 1, amt: us(10), outs: vec![(1, us(11))], nested: None });
    v.push(bo(0, 2, 1, us(5)));
    v.push(px(0, 20));
    v.push(adv(DAY));
    let _ = o;
    v
}
/// account tokens moving between users; every controlled operation tried by everybody
fn a_own(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    let all: Vec<u64> = o.accts.keys().cloned().collect();
    for n in all {
        let h = o.accts[&n].holder;
        for u in 0..3usize {
            if n == 1 && u != 2 {
                continue;
            }
            v.push(wd(u, n, 0, me(10)));
            v.push(bo(u, n, 1, us(1)));
            if h == Some(u) {
                v.push(Op::Xfer { from: u, to: (u + 1) % 3, acct: n });
                v.push(wd(u, n, 0, huge()));
                v.push(sup(u, Via::Nft(n), 0, me(10)));
            } else if n != 1 {
                v.push(sup(u, Via::Nft(n), 0, me(10)));
                v.push(sup(u, Via::Nonce(n), 0, me(10)));
                v.push(rp(u, n, 1, us(1)));
                v.push(Op::SwapColl { u, acct: n, old: 0, amt: me(10), new: 2, outs: vec![(2, me(8))], pays: vec![] });
                v.push(Op::SwapDebt { u, acct: n, old: 1, amt: me(10), new: 2, outs: vec![(1, us(1))], pays: vec![] });
                v.push(Op::RepayColl { u, acct: n, coll: 0, amt: me(20), debt: 1, close: false, outs: Some(vec![(1, us(1))]), pays: vec![] });
            }
        }
    }
    v.push(sup(2, Via::New, 0, e(1)));
    // tokens of another collection never stand for an account
    for f in ["withdraw", "borrow"] {
        v.push(raw(2, "controller", f, vec![a_payment(USDC, &us(1))], vec![("FAKE-123456", 2, b(1))]));
        v.push(raw(0, "controller", f, vec![a_payment(USDC, &us(1))], vec![]));
        v.push(raw(0, "controller", f, vec![a_payment(USDC, &us(1))], vec![(USDC, 0, us(1))]));
    }
    let xo = |t: &str, a: B| {
        let mut x = n_bytes(&a_tok(t));
        x.extend(n_bytes(&a_big(&a)));
        x
    };
    for n in [2u64, 9] {
        let fake = || vec![("FAKE-123456", n, b(1))];
        v.push(raw(2, "controller", "swapCollateral", vec![a_tok(EGLD), a_big(&me(10)), a_tok(XE), xo(XE, me(8))], fake()));
        v.push(raw(2, "controller", "swapDebt", vec![a_tok(USDC), a_big(&me(10)), a_tok(XE), xo(USDC, us(1))], fake()));
        v.push(raw(2, "controller", "repayDebtWithCollateral", vec![a_tok(EGLD), a_big(&me(10)), a_tok(USDC), a_bool(false), xo(USDC, us(1))], fake()));
        v.push(raw(2, "controller", "multiply", vec![vec![], a_tok(EGLD), a_big(&us(1)), a_tok(USDC), a_u64(2), xo(EGLD, me(24))], fake()));
        v.push(raw(2, "controller", "supply", vec![], vec![("FAKE-123456", n, b(1)), (EGLD, 0, me(10))]));
    }
    let _ = cfg;
    v
}
/// governance interleaved with use
fn a_gov(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    for m in [0usize, 1] {
        v.push(edit(o, m, |c| {
            c.ltv = b(5_000);
            c.thr = b(5_500);
            c.bonus = b(800);
            c.fees = b(2_000);
        }));
        v.push(edit(o, m, |c| {
            c.ltv = b(7_800);
            c.thr = b(8_500);
            c.bonus = b(300);
            c.fees = b(500);
        }));
    }
    v.push(edit(o, 0, |c| c.thr = c.ltv.clone()));
    v.push(edit(o, 0, |c| c.thr = &c.ltv - 1u32));
    v.push(edit(o, 0, |c| c.coll = false));
    v.push(edit(o, 1, |c| c.bor = false));
    v.push(edit(o, 1, |c| {
        c.siloed = true;
        c.isob = true;
        c.iso = true;
        c.ceiling = wad() * 7u32;
        c.flash = false;
        c.ffee = b(77);
        c.bcap = Some(us(90_000));
        c.scap = Some(us(990_000));
    }));
    let pp = |f: &dyn Fn(&mut PoolParams)| {
        let mut p = o.pp[1].clone();
        f(&mut p);
        Op::PoolParams { m: 1, p: Box::new(p) }
    };
    v.push(pp(&|p| {
        p.base = bps_r(&b(300));
        p.s1 = bps_r(&b(700));
        p.s2 = bps_r(&b(1_700));
        p.s3 = bps_r(&b(9_700));
        p.mid = bps_r(&b(5_100));
        p.opt = bps_r(&b(7_300));
        p.max = bps_r(&b(12_000));
        p.rf = b(1_111);
    }));
    v.push(pp(&|p| p.max = p.base.clone()));
    v.push(pp(&|p| p.opt = p.mid.clone()));
    v.push(pp(&|p| p.opt = ray()));
    v.push(pp(&|p| p.rf = b(10_000)));
    v.push(pp(&|p| p.rf = b(9_999)));
    for (n, h) in live(o) {
        for m in [0usize, 1] {
            for risks in [true, false] {
                v.push(Op::Threshold { u: 1, m, risks, accts: vec![n] });
            }
        }
        if n == 1 {
            continue;
        }
        v.push(sup(h, Via::Nft(n), 0, me(500)));
        v.push(bo(h, n, 1, us(30)));
        v.push(wd(h, n, 0, me(500)));
        v.push(lq(1, n, 1, us(20)));
    }
    v.push(Op::Threshold { u: 1, m: 0, risks: true, accts: vec![1, 2] });
    v.push(Op::Threshold { u: 1, m: 0, risks: false, accts: vec![2, 1, 2] });
    v.push(px(0, 36_000));
    let _ = cfg;
    v
}
/// everything, while paused or not
fn a_pause(o: &Obs, cfg: &Cfg, _d: usize) -> Vec<Op> {
    let mut v = vec![Op::Pause(!o.paused)];
    for op in a_full(o, cfg, 0) {
        v.push(op);
    }
    v.push(sup(2, Via::New, 0, e(1)));
    v.push(sup(2, Via::Nonce(2), 0, e(1)));
    v.push(Op::Sync { u: 2, ms: vec![1] });
    v.push(Op::Threshold { u: 2, m: 0, risks: false, accts: vec![2] });
    v.push(Op::Flash { u: 2, m: 1, amt: us(40), outs: vec![(1, us(42))], nested: None });
    for f in ["pause", "unpause"] {
        v.push(raw(2, "controller", f, vec![], vec![]));
    }
    v
}

/// the owner rewires and upgrades a market in use
fn a_wire(o: &Obs, _cfg: &Cfg, d: usize) -> Vec<Op> {
    let mut v = vec![adv(YEAR)];
    for what in 0..5 {
        let other = 1 - o.wired[what].min(1);
        v.push(Op::Wire { u: OWNER, what, to: other });
        if d == 0 {
            v.push(Op::Wire { u: OWNER, what, to: 1 - other });
            v.push(Op::Wire { u: OWNER, what, to: 2 });
            v.push(Op::Wire { u: OWNER, what, to: 3 });
            v.push(Op::Wire { u: 1, what, to: other });
        }
    }
    for m in [0usize, 1, 9] {
        v.push(Op::UpgradePool { u: OWNER, m });
    }
    if d == 0 {
        v.push(Op::UpgradePool { u: 1, m: 1 });
    }
    v.push(Op::UpgradeCtrl);
    if o.paused {
        v.push(Op::Pause(false));
    }
    v.push(Op::Claim { u: 2, ms: vec![0, 1, 2] });
    for (n, h) in live(o) {
        if n == 1 {
            v.push(wd(h, n, 1, us(300)));
            continue;
        }
        v.push(bo(h, n, 1, us(40)));
        v.push(rp(1, n, 1, us(13)));
        v.push(lq(1, n, 1, us(60)));
        v.push(wd(h, n, 0, me(500)));
        v.push(Op::SwapColl { u: h, acct: n, old: 0, amt: e(1), new: 2, outs: vec![(2, me(790)), (1, us(1))], pays: vec![] });
        v.push(Op::SwapDebt { u: h, acct: n, old: 1, amt: e(1), new: 2, outs: vec![(1, us(49))], pays: vec![] });
        v.push(Op::RepayColl { u: h, acct: n, coll: 0, amt: me(500), debt: 1, close: false, outs: Some(vec![(1, us(19))]), pays: vec![] });
    }
    v.push(Op::Flash { u: 2, m: 1, amt: us(40), outs: vec![(1, us(42))], nested: None });
    v
}
/// the storage cells that differ between two chains, and the accounts whose
/// code, owner, code rights or balances differ
pub fn cells(a: &State, b: &State) -> Vec<String> {
    let mut v = vec![];
    let mut keys: Vec<&Addr> = a.accounts.keys().chain(b.accounts.keys()).collect();
    keys.sort_by_key(|k| k.as_bytes().to_vec());
    keys.dedup();
    for k in keys {
        let name = String::from_utf8_lossy(k.as_bytes()).replace(['\0', '\u{5}'], "");
        let (Some(x), Some(y)) = (a.accounts.get(k), b.accounts.get(k)) else {
            v.push(format!("{name}: exists only on one side"));
            continue;
        };
        let cs: std::collections::BTreeSet<_> = x.storage.keys().chain(y.storage.keys()).collect();
        for c in cs {
            let z = |s: Option<&Vec<u8>>| s.cloned().unwrap_or_default();
            if z(x.storage.get(c)) != z(y.storage.get(c)) {
                v.push(format!("{name}/{}", String::from_utf8_lossy(c)));
            }
        }
        if x.contract_path != y.contract_path {
            v.push(format!("{name}: code"));
        }
        if x.contract_owner != y.contract_owner {
            v.push(format!("{name}: owner"));
        }
        let bits = |d: &Account| d.code_metadata.bits();
        if bits(x) != bits(y) {
            v.push(format!("{name}: rights {:?} -> {:?}", bits(x), bits(y)));
        }
        let bals = |d: &Account| -> Vec<(Vec<u8>, u64, B)> {
            let mut w = vec![(vec![], 0, d.egld_balance.clone())];
            for (t, e) in d.esdt.iter() {
                for i in e.instances.get_instances().values() {
                    if !i.balance.is_zero() {
                        w.push((t.clone(), i.nonce, i.balance.clone()));
                    }
                }
            }
            w.sort();
            w
        };
        if bals(x) != bals(y) {
            v.push(format!("{name}: balances"));
        }
    }
    v
}

fn accrue_init() -> Vec<Op> {
    let mut v = vec![
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(50)), (0, e(50))] },
        sup(0, Via::New, 0, e(5_000)),
    ];
    v.push(bo(0, 2, 1, us(10_000)));
    v.push(bo(0, 2, 2, e(45)));
    v
}

const POOLS: fn(&F) -> bool = |f| matches!(f, F::Pool(..));
const ALL: fn(&F) -> bool = |_| true;

pub fn build(id: &str, th: bool) -> Option<Check> {
    let mut s: Vec<(Scenario, Oracle)> = vec![];
    let mut g: Vec<Grid> = vec![];
    match id {
        "C01" => {
            let or = orc(|t, vs, _| {
                let n = 12 + 8 * t.depth as u32;
                inv_solvency(t.post, t.cfg, n, vs);
                if let Ok(x) = normalise(t.post) {
                    inv_solvency(&x, t.cfg, n, vs);
                }
                inv_ctrl_empty(t.post, vs);
                conf_on(t, vs, &["Withdraw", "Claim", "Flash"], &["*"], |f| {
                    matches!(f, F::Pool(_, "cash") | F::CtrlBal(_) | F::UserBal(..) | F::AccuBal(_) | F::EnvBal(_))
                });
            });
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 4, 6), a_lend), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 6), a_full), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 5, 7), a_bad), or.clone()));
            s.push((scn("tiny-pool", std_cfg(3), tiny_init(), d(th, 5, 7), a_bad), or));
        }
        "C02" => {
            let or = orc(|t, vs, _| {
                inv_sums(t.post, vs);
                conf_on(t, vs, &[], &["*"], |f| {
                    matches!(f, F::Scaled(..) | F::Pool(_, "supplied") | F::Pool(_, "borrowed") | F::Pool(_, "revenue"))
                });
            });
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 4, 6), a_lend), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 6), a_full), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 5, 7), a_bad), or));
        }
        "C10" => {
            let or = orc(|t, vs, _| {
                conf_on(t, vs, &["CleanBad"], &["CleanBad"], ALL);
                conf_on(t, vs, &["Supply", "Sync", "Claim", "Rewards", "Withdraw", "Repay"], &["*"], POOLS);
            });
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 5, 7), a_bad), or.clone()));
            s.push((scn("tiny-pool", std_cfg(3), tiny_init(), d(th, 5, 7), a_bad), or.clone()));
            s.push((scn("exact", std_cfg(3), exact_init(), d(th, 3, 4), a_exact), or.clone()));
            s.push((scn("isolation", iso_cfg(), iso_init(), d(th, 4, 5), a_iso), or));
        }
        "C03" => {
            let or = orc(|t, vs, c| {
                inv_monotone(t, vs);
                conf_on(t, vs, &["Sync"], &["*"], |f| matches!(f, F::Pool(_, "bidx" | "sidx" | "ts")));
                conf_on(t, vs, &[], &["Sync", "Borrow", "Repay", "Withdraw", "Supply"], |f| {
                    matches!(f, F::Pool(_, "revenue" | "supplied" | "borrowed"))
                });
                conf_on(t, vs, &[], &["Multiply", "SwapDebt", "SwapColl", "RepayColl", "PoolParams", "CleanBad"], |f| matches!(f, F::Pool(_, "revenue")));
                if let (Op::Sync { ms, .. }, true) = (t.op, t.res.ok) {
                    for m in ms {
                        let (p, q) = (&t.pre.pools[*m], &t.post.pools[*m]);
                        if q.ts != t.post.now * 1000 {
                            vs.push(viol("not-synced", format!("market {m}: {} at {}", q.ts, t.post.now)));
                        }
                        // interest paid by borrowers = supplier gain + reserve gain
                        let paid = rmul(&q.borrowed, &q.bidx) - rmul(&p.borrowed, &p.bidx);
                        let got = rmul(&q.supplied, &q.sidx) - rmul(&p.supplied, &p.sidx);
                        let tol = &q.supplied / ray() + &q.sidx / ray() + b(10);
                        let dd = if paid > got { &paid - &got } else { &got - &paid };
                        if dd > tol {
                            vs.push(viol("interest-split", format!("market {m}: paid {paid}, distributed {got}")));
                        }
                        if !paid.is_zero() {
                            c.hit("interest-split-checked");
                        }
                    }
                }
            });
            s.push((scn("accrue", std_cfg(3), accrue_init(), d(th, 4, 6), a_accrue), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 4, 6), a_bad), or));
            g.push(crate::grids::accrual());
        }
        "C04" => g.push(crate::grids::rates()),
        "C05" => g.extend(crate::grids::math()),
        "C06" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Borrow"], &["Borrow"], |f| {
                    matches!(f, F::Scaled(..) | F::UserBal(..) | F::Pool(_, "borrowed" | "cash"))
                });
                if let (Op::Borrow { acct, .. }, true) = (t.op, t.res.ok) {
                    if let (Ok(o), Some(a), Some(a0)) = (normalise(t.post), t.post.accts.get(acct), t.pre.accts.get(acct)) {
                        if let (Ok(v), Ok(v0)) = (values(&o, t.cfg, a), values(&o, t.cfg, a0)) {
                            c.hit("limit-checked");
                            // one unit of rounding per debt
                            if v.debt > &v0.ltv + b(4) + &v.debt / p10(17) {
                                vs.push(viol("over-borrowed", format!("debt {} > capacity {}", v.debt, v0.ltv)));
                            }
                        }
                    }
                }
            });
            s.push((scn("limit", std_cfg(3), std_init(), d(th, 4, 5), a_borrow), or.clone()));
            let mut i2 = std_init();
            i2.push(sup(0, Via::Nft(2), 1, us(200)));
            i2.push(bo(0, 2, 2, e(1)));
            s.push((scn("limit-multi", std_cfg(3), i2, d(th, 4, 5), a_borrow), or.clone()));
            s.push((scn("exact", std_cfg(3), exact_init(), d(th, 3, 4), a_exact), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 3, 4), a_emode), or));
        }
        "C07" => {
            g.push(crate::oracles::moving());
            let or = orc(|t, vs, c| {
                let ks = ["Withdraw", "Multiply", "SwapDebt", "SwapColl", "RepayColl"];
                conf_on(t, vs, &ks, &[], ALL);
                if t.res.ok && ks.contains(&kind(t.op)) {
                    for n in targets(t) {
                        if let (Ok(o), Some(a)) = (normalise(t.post), t.post.accts.get(&n)) {
                            c.hit("health-checked");
                            if !matches!(healthy(&o, t.cfg, a), Ok(true)) {
                                vs.push(viol("unhealthy-exit", format!("account {n} left below health factor 1: {a:?}")));
                            }
                        }
                    }
                }
            });
            s.push((scn("health", std_cfg(3), indebted(), d(th, 4, 5), a_health), or.clone()));
            s.push((scn("strategies", std_cfg(3), indebted(), d(th, 4, 5), a_strat), or.clone()));
            s.push((scn("exact", std_cfg(3), exact_init(), d(th, 3, 4), a_exact), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 3, 4), a_emode), or));
        }
        "C08" => {
            let or = orc(|t, vs, c| {
                if let Op::Liquidate { acct, .. } = t.op {
                    let h = normalise(t.pre).ok().and_then(|o| {
                        let a = o.accts.get(acct)?.clone();
                        hf(&values(&o, t.cfg, &a).ok()?).ok()
                    });
                    match (&h, t.res.ok) {
                        (Some(h), true) if *h >= ray() => {
                            vs.push(viol("healthy-liquidated", format!("account {acct} with health factor {h} was liquidated")))
                        }
                        (Some(h), _) => c.hit(if *h >= ray() { "liquidation-of-healthy" } else { "liquidation-of-unhealthy" }),
                        _ => {}
                    }
                    conf_on(t, vs, &["Liquidate"], &[], ALL);
                }
                // nobody else's operation takes collateral of an account
                if t.res.ok && !matches!(kind(t.op), "Liquidate" | "CleanBad") {
                    let me = sender(t.op);
                    for (n, a) in &t.pre.accts {
                        if a.holder.is_none() || a.holder == me {
                            continue;
                        }
                        for (m, p) in &a.dep {
                            let q = t.post.accts.get(n).and_then(|x| x.dep.get(m)).map(|x| x.scaled.clone()).unwrap_or_default();
                            if q < p.scaled {
                                vs.push(viol("collateral-taken", format!("account {n} market {m} by {:?}", t.op)));
                            }
                        }
                    }
                }
            });
            s.push((scn("gate", std_cfg(3), indebted(), d(th, 4, 5), a_liqgate), or.clone()));
            s.push((scn("exact", std_cfg(3), exact_init(), d(th, 3, 4), a_exact), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 6), a_full), or));
        }
        "C09" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Liquidate"], &["Liquidate"], ALL);
                inv_liquidation(t, vs, c);
            });
            s.push((scn("sizes", std_cfg(3), indebted(), d(th, 4, 5), a_liq), or.clone()));
            let mut cfg = std_cfg(3);
            cfg.mkts[0].bonus = 1_200;
            cfg.mkts[0].lfee = 0;
            cfg.mkts[1].thr = 9_000;
            cfg.mkts[1].ltv = 8_500;
            cfg.mkts[1].bonus = 100;
            cfg.mkts[2].dec = 18;
            cfg.mkts[1].lfee = 5_000;
            s.push((scn("sizes-mixed", cfg, indebted(), d(th, 4, 5), a_liq), or.clone()));
            let mut m = three();
            m[2] = mkt(BTC, 8, 60_000_000);
            let btc = Cfg::new(m, 3);
            let init = vec![
                Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(900_000)), (0, e(9_000)), (2, b(1_000_000_000))] },
                sup(0, Via::New, 0, e(1_000)),
                sup(0, Via::Nft(2), 2, b(50_000_000)),
                bo(0, 2, 1, us(30_000)),
                bo(0, 2, 2, b(20_000_000)),
            ];
            s.push((scn("sizes-btc", btc, init, d(th, 4, 5), a_liq), or));
        }
        "C11" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Flash"], &["Flash"], ALL);
                if t.post.flash {
                    vs.push(viol("guard-left-set", "the flash-loan guard is still set after the transaction"));
                }
                if let (Op::Flash { m, amt, nested, .. }, true) = (t.op, t.res.ok) {
                    c.hit("loan-granted");
                    let dec = t.cfg.mkts[*m].dec;
                    let (p, q) = (&t.pre.pools[*m], &t.post.pools[*m]);
                    let fee = resc(&rmul(&up(amt, dec), &bps_r(&t.pre.mk[*m].ffee)), 27, dec);
                    if q.cash < &p.cash + &fee {
                        vs.push(viol("fee-unpaid", format!("cash {} -> {}, fee {fee}", p.cash, q.cash)));
                    }
                    if nested.is_some() {
                        vs.push(viol("re-entered", format!("{nested:?}")));
                    }
                    let n = normalise(t.pre).unwrap();
                    if t.post.accts != n.accts {
                        vs.push(viol("accounts-moved", "a flash loan changed accounts"));
                    }
                }
            });
            s.push((scn("amounts", std_cfg(3), indebted(), d(th, 3, 4), a_flash), or.clone()));
            let mut init = indebted();
            init.push(sup(2, Via::New, 0, me(100)));
            init.push(bo(2, 3, 1, us(2)));
            s.push((scn("reenter", std_cfg(3), init, d(th, 4, 5), a_reenter), or));
        }
        "C12" => g.push(crate::grids::access()),
        "C13" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["*"], &["*"], |f| matches!(f, F::Attr(_) | F::Active(_) | F::Holder(_)));
                // control follows the token
                if t.res.ok {
                    let acct = match t.op {
                        Op::Withdraw { acct, .. }
                        | Op::Borrow { acct, .. }
                        | Op::SwapDebt { acct, .. }
                        | Op::SwapColl { acct, .. }
                        | Op::RepayColl { acct, .. } => Some(*acct),
                        Op::Multiply { acct, .. } if *acct != 0 => Some(*acct),
                        _ => None,
                    };
                    if let (Some(n), Some(u)) = (acct, sender(t.op)) {
                        c.hit("control-checked");
                        if t.pre.accts.get(&n).and_then(|a| a.holder) != Some(u) {
                            vs.push(viol("foreign-control", format!("user {u} moved account {n}")));
                        }
                    }
                }
                for (n, a) in &t.post.accts {
                    let empty = a.dep.is_empty() && a.bor.is_empty();
                    if !a.active && (!empty || a.isolated || a.emode != 0) {
                        vs.push(viol("closed-account-with-positions", format!("{n}: {a:?}")));
                    }
                    if a.active && a.holder.is_none() {
                        vs.push(viol("account-without-token", format!("{n}: {a:?}")));
                    }
                    if a.active && empty && t.pre.accts.get(n).is_some_and(|x| !x.dep.is_empty()) && kind(t.op) == "Withdraw" {
                        vs.push(viol("empty-account-left", format!("{n}: {a:?}")));
                    }
                }
            });
            let mut init = std_init();
            init.push(bo(0, 2, 1, us(20)));
            s.push((scn("ownership", std_cfg(3), init, d(th, 4, 5), a_own), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 5), a_full), or));
        }
        "C14" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Supply", "Borrow", "Multiply", "Repay", "SwapColl", "SwapDebt", "RepayColl"], &["*"], |f| {
                    matches!(f, F::Iso(_) | F::Attr(_))
                });
                for (n, a) in &t.post.accts {
                    let iso: Vec<usize> = a.dep.keys().cloned().filter(|m| t.post.mk[*m].iso).collect();
                    if (!iso.is_empty() || a.isolated) && a.dep.len() > 1 {
                        vs.push(viol("mixed-isolated-collateral", format!("{n}: {a:?}")));
                    }
                    if !iso.is_empty() && !a.isolated {
                        vs.push(viol("isolated-collateral-in-regular-account", format!("{n}: {a:?}")));
                    }
                    if a.isolated {
                        c.hit("isolated-account-states");
                        for m in a.bor.keys() {
                            // a rule made later does not reach back
                            let old = t.pre.accts.get(n).is_some_and(|p| p.bor.contains_key(m));
                            if !old && !t.post.mk[*m].isob {
                                vs.push(viol("not-borrowable-in-isolation", format!("{n}: {a:?}")));
                            }
                        }
                    }
                }
                for m in 0..t.post.pools.len() {
                    if t.res.ok && t.post.iso_debt[m] > t.pre.iso_debt[m] && t.post.iso_debt[m] > t.post.mk[m].ceiling {
                        vs.push(viol("ceiling-exceeded", format!("market {m}: {} > {}", t.post.iso_debt[m], t.post.mk[m].ceiling)));
                    }
                }
            });
            s.push((scn("isolation", iso_cfg(), iso_init(), d(th, 4, 5), a_iso), or.clone()));
            let or3 = or.clone();
            // while nothing accrues and no price moves the tracker is the debt
            let o2 = orc(move |t, vs, c| {
                or(t, vs, c);
                inv_iso_exact(t, vs, c);
            });
            let steady = |o: &Obs, cfg: &Cfg, dd: usize| -> Vec<Op> {
                a_iso(o, cfg, dd)
                    .into_iter()
                    .filter(|x| !matches!(x, Op::Price { .. } | Op::EgldPrice { .. } | Op::Advance { .. }))
                    .collect()
            };
            s.push((scn("isolation-steady", iso_cfg(), iso_init(), d(th, 4, 6), steady), o2));
            s.push((scn("isolation-strategies", iso_cfg(), iso_strat_init(), d(th, 3, 4), a_iso_strat), or3));
        }
        "C15" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Borrow", "SwapDebt", "Multiply"], &[], ALL);
                for (n, a) in &t.post.accts {
                    if a.bor.keys().any(|m| t.post.mk[*m].siloed) {
                        c.hit("siloed-debt-states");
                        // a rule made later does not reach back
                        let old = t.pre.accts.get(n).is_some_and(|p| {
                            a.bor.iter().all(|(m, x)| p.bor.get(m).is_some_and(|y| x.scaled <= y.scaled))
                        });
                        if a.bor.len() > 1 && !old {
                            vs.push(viol("siloed-debt-mixed", format!("{n}: {a:?}")));
                        }
                    }
                }
            });
            s.push((scn("siloed", silo_cfg(), silo_init(), d(th, 4, 5), a_silo), or));
        }
        "C16" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["*"], &["*"], |f| {
                    matches!(f, F::Risk(..) | F::Scaled(..) | F::Attr(_) | F::Config)
                });
                let z = AcctObs::default();
                for (n, a) in &t.post.accts {
                    let p = t.pre.accts.get(n).unwrap_or(&z);
                    if a.emode == 0 || !t.res.ok {
                        continue;
                    }
                    c.hit("emode-account-states");
                    let cat = t.post.emodes.get(&a.emode);
                    for (bor, x, y) in [(false, &a.dep, &p.dep), (true, &a.bor, &p.bor)] {
                        for (m, q) in x {
                            let grew = y.get(m).is_none_or(|o| o.scaled < q.scaled);
                            if !grew {
                                continue;
                            }
                            let ok = cat.is_some_and(|k| {
                                !k.deprecated && k.assets.get(m).is_some_and(|f| if bor { f.1 } else { f.0 })
                            });
                            if !ok {
                                vs.push(viol("outside-category", format!("account {n} market {m} borrow={bor}")));
                            }
                            if let (false, Some(k)) = (bor, cat) {
                                if q.ltv != k.ltv || q.bonus != k.bonus {
                                    vs.push(viol("category-terms", format!("account {n} market {m}: {q:?}")));
                                }
                            }
                        }
                    }
                }
            });
            let or2 = or.clone();
            s.push((scn("retire", retire_cfg(), retire_init(), d(th, 4, 5), a_retire), or2));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 4, 5), a_emode), or));
        }
        "C17" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Supply", "Borrow", "Multiply", "SwapDebt", "SwapColl"], &[], ALL);
                // caps and limits in force are the ones last set
                conf_on(t, vs, &["EditAsset", "Limits"], &["EditAsset", "Limits"], |f| matches!(f, F::Config));
                if t.res.ok {
                    for m in 0..t.post.pools.len() {
                        let Ok(n) = normalise(t.pre) else { continue };
                        let (p, q) = (&n.pools[m], &t.post.pools[m]);
                        let dec = t.cfg.mkts[m].dec;
                        let k = kind(t.op);
                        let deposit = matches!(k, "Supply" | "Multiply" | "SwapColl");
                        let borrow = matches!(k, "Borrow" | "Multiply" | "SwapDebt");
                        if let (Some(cap), true) = (&t.post.mk[m].scap, deposit && q.cash > p.cash) {
                            c.hit("supply-cap-checked");
                            // the reserve's own share of pending interest does not count
                            let booked = &p.supplied - &t.pre.pools[m].supplied;
                            if resc(&rmul(&(&q.supplied - booked), &q.sidx), 27, dec) > cap + 1u32 {
                                vs.push(viol("supply-cap", format!("market {m}: {q:?}")));
                            }
                        }
                        if let (Some(cap), true) = (&t.post.mk[m].bcap, borrow && q.borrowed > p.borrowed) {
                            c.hit("borrow-cap-checked");
                            if resc(&rmul(&q.borrowed, &q.bidx), 27, dec) > cap + 1u32 {
                                vs.push(viol("borrow-cap", format!("market {m}: {q:?}")));
                            }
                        }
                    }
                    for (n, a) in &t.post.accts {
                        let z = AcctObs::default();
                        let p = t.pre.accts.get(n).unwrap_or(&z);
                        if a.dep.len() > p.dep.len() && a.dep.len() > t.post.limits.1 as usize {
                            vs.push(viol("supply-positions", format!("{n}: {}", a.dep.len())));
                        }
                        if a.bor.len() > p.bor.len() && a.bor.len() > t.post.limits.0 as usize {
                            vs.push(viol("borrow-positions", format!("{n}: {}", a.bor.len())));
                        }
                    }
                }
            });
            s.push((scn("caps", cap_cfg(), std_init(), d(th, 4, 5), a_cap), or));
        }
        "C18" => {
            g.push(crate::oracles::resolution());
            g.push(crate::oracles::safety());
            g.push(crate::oracles::lp_price());
        }
        "C19" => g.extend(crate::aggregator::grids()),
        "C32" => g.extend(crate::aggregator::announcements()),
        "C25" => g.push(crate::oracles::lp_price()),
        "C20" => {
            let or = orc(|t, vs, c| {
                let k = kind(t.op);
                let guarded = matches!(
                    k,
                    "Supply" | "Withdraw" | "Borrow" | "Repay" | "Liquidate" | "CleanBad" | "Threshold" | "Sync" | "Flash" | "Multiply" | "SwapDebt" | "SwapColl" | "RepayColl"
                );
                if t.pre.paused && guarded {
                    c.hit("refusals-while-paused");
                    if t.res.ok {
                        vs.push(viol(format!("ran-while-paused:{k}"), format!("{:?}", t.op)));
                    }
                    if t.hash_pre != t.hash_post {
                        vs.push(viol(format!("changed-while-paused:{k}"), format!("{:?}", t.op)));
                    }
                }
                // pausing and resuming touches nothing else, and operations resume
                conf_on(t, vs, &["Pause", "Raw"], &["Pause"], ALL);
                if !t.pre.paused && guarded {
                    conf_on(t, vs, &["*"], &[], ALL);
                }
            });
            s.push((scn("pause", std_cfg(3), indebted(), d(th, 4, 5), a_pause), or));
        }
        "C21" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Claim"], &["Claim"], ALL);
                conf_on(t, vs, &[], &["*"], |f| matches!(f, F::Pool(_, "revenue") | F::AccuBal(_)));
                if let (Op::Claim { ms, .. }, true) = (t.op, t.res.ok) {
                    let Ok(n) = normalise(t.pre) else { return };
                    for m in ms {
                        let (p, q) = (&n.pools[*m], &t.post.pools[*m]);
                        let paid = &t.post.accu_bal[*m] - &t.pre.accu_bal[*m];
                        let worth = resc(&rmul(&p.revenue, &p.sidx), 27, t.cfg.mkts[*m].dec);
                        c.hit(if paid.is_zero() { "claims-empty" } else if paid < worth { "claims-partial" } else { "claims-full" });
                        if &q.cash + &paid != p.cash {
                            vs.push(viol("claim-cash", format!("market {m}: {} + {paid} != {}", q.cash, p.cash)));
                        }
                        if paid > worth {
                            vs.push(viol("over-claimed", format!("market {m}: {paid} > {worth}")));
                        }
                        if q.sidx != p.sidx || q.bidx != p.bidx || q.borrowed != p.borrowed {
                            vs.push(viol("claim-moved-users", format!("market {m}: {p:?} -> {q:?}")));
                        }
                    }
                    if t.post.accts != n.accts {
                        vs.push(viol("claim-moved-accounts", ""));
                    }
                }
                if t.res.ok && !matches!(kind(t.op), "Claim") && t.post.accu_bal != t.pre.accu_bal {
                    vs.push(viol("accumulator-paid-elsewhere", format!("{:?}", t.op)));
                }
            });
            s.push((scn("claims", std_cfg(3), indebted(), d(th, 4, 6), a_claim), or.clone()));
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 4, 5), a_lend), or));
        }
        "C22" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Repay"], &["Repay"], ALL);
                if let (Op::Repay { u, acct, pays }, true) = (t.op, t.res.ok) {
                    let ms: std::collections::BTreeSet<usize> = pays.iter().map(|x| x.0).collect();
                    for m in ms {
                        let paid: B = pays.iter().filter(|x| x.0 == m).map(|x| x.1.clone()).sum();
                        let before = debt_units(t.pre, t.cfg, *acct, m);
                        let after = debt_units(t.post, t.cfg, *acct, m);
                        let spent = &t.pre.bal[*u][m] - &t.post.bal[*u][m];
                        let want = minb(&paid, &before);
                        c.hit(if paid > before { "overpaid" } else { "partial-or-exact" });
                        if spent != want {
                            vs.push(viol("refund", format!("market {m}: paid {paid}, owed {before}, kept {spent}")));
                        }
                        let exp = sub(&before, &want).unwrap_or_default();
                        if after > &exp + 1u32 || exp > &after + 1u32 {
                            vs.push(viol("debt-reduction", format!("market {m}: owed {before}, paid {want}, still {after}")));
                        }
                        if paid >= before && t.post.accts[acct].bor.contains_key(&m) {
                            vs.push(viol("position-not-closed", format!("market {m}")));
                        }
                    }
                }
            });
            s.push((scn("repay", std_cfg(3), indebted(), d(th, 4, 5), a_repay), or));
        }
        "C23" => {
            // the views of a state need asking only once
            let seen = std::sync::Mutex::new(std::collections::HashSet::new());
            let or = orc(move |t, vs, c| {
                let new = seen.lock().unwrap().insert((t.cfg.mkts.len(), t.hash_post));
                crate::views::agree(t, vs, c, new)
            });
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 4, 5), a_lend), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 5), a_full), or.clone()));
            s.push((scn("sizes", std_cfg(3), indebted(), d(th, 3, 4), a_liq), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 2, 3), a_emode), or));
        }
        "C24" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["EditAsset", "PoolParams", "Threshold"], &["EditAsset", "PoolParams", "Threshold"], ALL);
                conf_on(t, vs, &[], &["*"], |f| matches!(f, F::Risk(..)));
                // positions are liquidated on the terms stored with them
                conf_on(t, vs, &["Liquidate"], &["Liquidate"], ALL);
                let k = kind(t.op);
                if t.res.ok && matches!(k, "EditAsset" | "PoolParams" | "EMode" | "Limits" | "Pause") {
                    c.hit("config-changes");
                    if t.pre.accts != t.post.accts || t.pre.bal != t.post.bal {
                        vs.push(viol("retroactive", format!("{:?} changed accounts", t.op)));
                    }
                    if let (Ok(a), Ok(b)) = (normalise(t.pre), normalise(t.post)) {
                        if a.pools != b.pools {
                            vs.push(viol("config-moved-pools", format!("{:?}", t.op)));
                        }
                    }
                }
                // only a refresh changes the liquidation threshold of an open position
                if t.res.ok && k != "Threshold" {
                    for (n, a) in &t.pre.accts {
                        for (m, p) in &a.dep {
                            if let Some(q) = t.post.accts.get(n).and_then(|x| x.dep.get(m)) {
                                if q.thr != p.thr {
                                    vs.push(viol("threshold-moved", format!("account {n} market {m} by {k}")));
                                }
                            }
                        }
                    }
                }
                if let (Op::Threshold { risks: true, accts, .. }, true) = (t.op, t.res.ok) {
                    if let Ok(o) = normalise(t.post) {
                        for n in accts {
                            let a = &o.accts[n];
                            if !a.bor.is_empty() && a.dep.values().next().is_some() {
                                if let Ok(h) = values(&o, t.cfg, a).and_then(|v| hf(&v)) {
                                    if a != &t.pre.accts[n] && h < ray() {
                                        vs.push(viol("refresh-made-liquidatable", format!("account {n}: {h}")));
                                    }
                                }
                            }
                        }
                    }
                }
            });
            let mut init = std_init();
            init.push(sup(0, Via::Nft(2), 1, us(40)));
            init.push(bo(0, 2, 1, us(200)));
            s.push((scn("governance", std_cfg(3), init, d(th, 4, 5), a_gov), or.clone()));
            s.push((scn("exact", std_cfg(3), exact_init(), d(th, 3, 4), a_exact), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 3, 4), a_emode), or));
            g.push(crate::grids::listing());
        }
        "C29" => {
            let or = orc(|t, vs, c| crate::events::tell(t, vs, c));
            s.push((scn("strategies", std_cfg(3), indebted(), d(th, 4, 5), a_strat), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 5), a_full), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 5, 6), a_bad), or.clone()));
            s.push((scn("liquidation", std_cfg(3), indebted(), d(th, 3, 4), a_liq), or.clone()));
            s.push((scn("claims", std_cfg(3), indebted(), d(th, 3, 5), a_claim), or.clone()));
            s.push((scn("rewards", std_cfg(3), indebted(), d(th, 3, 4), a_rewards), or.clone()));
            s.push((scn("flash", std_cfg(3), indebted(), d(th, 2, 3), a_flash), or.clone()));
            s.push((scn("governance", std_cfg(3), indebted(), d(th, 3, 4), a_gov), or.clone()));
            s.push((scn("isolation", iso_cfg(), iso_init(), d(th, 3, 4), a_iso), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 3, 4), a_emode), or.clone()));
            s.push((scn("retire", retire_cfg(), retire_init(), d(th, 4, 5), a_retire), or));
            g.push(crate::grids::announced());
        }
        "C30" => {
            let seen = std::sync::Mutex::new(std::collections::HashSet::new());
            let or = orc(move |t, vs, c| {
                if seen.lock().unwrap().insert((t.cfg.mkts.len(), t.cfg.limits.clone(), t.hash_post)) {
                    crate::exits::everyone(t, vs, c)
                }
            });
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 3, 4), a_lend), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 5), a_full), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 4, 5), a_bad), or.clone()));
            s.push((scn("strategies", std_cfg(3), indebted(), d(th, 3, 4), a_strat), or.clone()));
            s.push((scn("liquidation", std_cfg(3), indebted(), d(th, 3, 4), a_liq), or.clone()));
            s.push((scn("claims", std_cfg(3), indebted(), d(th, 3, 5), a_claim), or.clone()));
            s.push((scn("isolation", iso_cfg(), iso_init(), d(th, 3, 4), a_iso), or.clone()));
            s.push((scn("siloed", silo_cfg(), silo_init(), d(th, 3, 4), a_silo), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 2, 3), a_emode), or.clone()));
            s.push((scn("retire", retire_cfg(), retire_init(), d(th, 3, 4), a_retire), or));
        }
        "C31" => {
            let or = orc(|t, vs, c| crate::wealth::unmoved(t, vs, c));
            s.push((scn("lend", std_cfg(3), std_init(), d(th, 4, 5), a_lend), or.clone()));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 4, 5), a_full), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 5, 6), a_bad), or.clone()));
            s.push((scn("liquidation", std_cfg(3), indebted(), d(th, 4, 5), a_liq), or.clone()));
            s.push((scn("rewards", std_cfg(3), indebted(), d(th, 3, 4), a_rewards), or.clone()));
            s.push((scn("strategies", std_cfg(3), indebted(), d(th, 4, 5), a_strat), or.clone()));
            s.push((scn("repay", std_cfg(3), indebted(), d(th, 3, 4), a_repay), or.clone()));
            s.push((scn("flash", std_cfg(3), indebted(), d(th, 2, 3), a_flash), or.clone()));
            s.push((scn("governance", std_cfg(3), indebted(), d(th, 3, 4), a_gov), or.clone()));
            s.push((scn("isolation", iso_cfg(), iso_init(), d(th, 3, 4), a_iso), or.clone()));
            s.push((scn("emode", emode_cfg(), emode_init(), d(th, 2, 3), a_emode), or));
        }
        "C33" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["*"], &["*"], ALL);
                let (Some(old), true) = (t.before.clone(), t.res.ok) else { return };
                let want: Vec<String> = match t.op {
                    Op::Wire { what, .. } if t.pre.wired[*what] != t.post.wired[*what] => {
                        vec![format!("controller/{}", String::from_utf8_lossy(WIRES[*what].1))]
                    }
                    Op::Wire { .. } => vec![],
                    Op::UpgradePool { m, .. } if t.pre.code[*m] != t.post.code[*m] => vec![format!("pool{m}: code")],
                    Op::UpgradePool { .. } => vec![],
                    Op::UpgradeCtrl if t.pre.paused => vec![],
                    Op::UpgradeCtrl => vec!["controller/pause_module:paused".to_string()],
                    Op::Claim { .. } => {
                        // the money goes to the accumulator in use and nowhere else
                        if t.post.spare != t.pre.spare {
                            vs.push(viol("another-accumulator", format!("{:?}", t.op)));
                        }
                        return;
                    }
                    _ => return,
                };
                c.hit(&format!("unchanged-by:{}", kind(t.op)));
                let mut got = cells(&old, t.l.w.state());
                // an upgrade by the chain itself leaves the rights it was asked to
                got.retain(|x| !(matches!(t.op, Op::UpgradeCtrl) && x.starts_with("controller: rights")));
                if got != want {
                    vs.push(viol(format!("changed-by:{}", kind(t.op)), format!("{:?}: changed {got:?}, expected {want:?}", t.op)));
                }
            });
            let mut cfg = std_cfg(3);
            cfg.alt = true;
            cfg.limits = (7, 6);
            s.push((scn("rewire", cfg, indebted(), d(th, 5, 6), a_wire), or));
            g.push(crate::oracles::wiring());
        }
        "C26" => {
            let or = orc(|t, vs, c| {
                let ks = ["Multiply", "SwapDebt", "SwapColl", "RepayColl"];
                conf_on(t, vs, &ks, &ks, ALL);
                inv_ctrl_empty(t.post, vs);
                if t.res.ok && ks.contains(&kind(t.op)) {
                    c.hit("strategies-checked");
                    for m in 0..t.post.pools.len() {
                        let sum = |o: &Obs| -> B {
                            o.bal.iter().map(|x| &x[m]).sum::<B>() + &o.ctrl_bal[m] + &o.accu_bal[m] + &o.env_bal[m] + &o.pools[m].cash
                        };
                        if sum(t.pre) != sum(t.post) {
                            vs.push(viol("tokens-lost", format!("market {m}")));
                        }
                    }
                }
            });
            s.push((scn("strategies", std_cfg(3), indebted(), d(th, 4, 5), a_strat), or.clone()));
            s.push((scn("health", std_cfg(3), indebted(), d(th, 4, 5), a_health), or.clone()));
            s.push((scn("siloed", silo_cfg(), silo_init(), d(th, 3, 4), a_silo), or));
        }
        "C27" => {
            let or = orc(|t, vs, c| {
                inv_isolated_effects(t, vs);
                c.hit("checked");
            });
            let mut init = indebted();
            init.push(sup(2, Via::New, 2, e(5)));
            init.push(bo(2, 3, 1, us(50)));
            s.push((scn("full", std_cfg(3), init.clone(), d(th, 4, 5), a_full), or.clone()));
            s.push((scn("lend", std_cfg(3), init, d(th, 4, 5), a_lend), or.clone()));
            s.push((scn("liquidation", std_cfg(3), indebted(), d(th, 4, 5), a_liq), or));
        }
        "C28" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Rewards"], &["Rewards"], ALL);
                if let (Op::Rewards { m, amt, .. }, true) = (t.op, t.res.ok) {
                    let Ok(n) = normalise(t.pre) else { return };
                    let dec = t.cfg.mkts[*m].dec;
                    let tot = n.pools[*m].supplied.clone();
                    if tot.is_zero() {
                        return;
                    }
                    c.hit("rewards-checked");
                    let mut credited = B::zero();
                    for (k, a) in n.accts.iter() {
                        let Some(x) = a.dep.get(m) else { continue };
                        let y = &t.post.accts[k].dep[m];
                        let gain = rmul(&y.scaled, &t.post.pools[*m].sidx) - rmul(&x.scaled, &n.pools[*m].sidx);
                        let fair = up(amt, dec) * &x.scaled / &tot;
                        let tol = &x.scaled / ray() + b(4);
                        let dd = if gain > fair { &gain - &fair } else { &fair - &gain };
                        if dd > tol {
                            vs.push(viol("unfair-share", format!("account {k}: gained {gain}, fair share {fair}")));
                        }
                        credited += gain;
                    }
                    if credited > up(amt, dec) + &tot / ray() + b(4) {
                        vs.push(viol("over-credited", format!("{credited}")));
                    }
                }
            });
            s.push((scn("rewards", std_cfg(3), indebted(), d(th, 4, 6), a_rewards), or));
        }
        "C34" => {
            let or = orc(|t, vs, c| {
                conf_on(t, vs, &["Supply", "Withdraw", "Borrow", "Repay", "Threshold", "Sync", "Claim"], &["Supply", "Withdraw", "Borrow", "Repay", "Threshold", "Sync", "Claim"], ALL);
                crate::batch::one_by_one(t, vs, c)
            });
            let depth = d(th, 2, 3);
            s.push((
                scn("lists", mixed_cfg(), mixed_init(), depth, move |o, cfg, k| {
                    if k + 1 < depth { mixed_shifts(o) } else { crate::batch::a_batch(o, cfg, th) }
                }),
                or,
            ));
        }
        "C35" => {
            let or = orc(|t, vs, c| crate::order::booked_or_not(t, vs, c));
            s.push((scn("full", std_cfg(3), indebted(), d(th, 3, 4), a_full), or.clone()));
            s.push((scn("liquidation", std_cfg(3), indebted(), d(th, 3, 4), a_liq), or.clone()));
            s.push((scn("bad-debt", std_cfg(3), indebted(), d(th, 4, 5), a_bad), or.clone()));
            s.push((scn("governance", std_cfg(3), indebted(), d(th, 3, 4), a_gov), or));
        }
        "C36" => {
            let or = orc(move |t, vs, c| crate::order::either_order(t, th, vs, c));
            s.push((
                scn("pairs", mixed_cfg(), mixed_init(), 2, move |o, cfg, k| {
                    if k == 1 {
                        return mixed_all(o, cfg);
                    }
                    let mut v = mixed_shifts(o);
                    if !th {
                        v.retain(|x| matches!(x, Op::Advance { .. } | Op::Price { .. } | Op::EgldPrice { .. }));
                        v.truncate(4);
                    }
                    v
                }),
                or,
            ));
            return Some(Check { scenarios: s, grids: g });
        }
        _ => return None,
    }
    if let Some((_, or)) = s.first().cloned() {
        // the oracles that ask many questions of every state
        let slow = matches!(id, "C23" | "C30" | "C35");
        let depth = d(th && !slow, 2, 3);
        s.push((mixed(depth, depth > 2 || slow && !th), or));
    }
    let _ = &mut g;
    Some(Check { scenarios: s, grids: g })
}
#[allow(unused)]
fn unused() -> bool {
    let _ = EGLD;
    B::default().is_zero()
}
