//! What the read-only views answer must agree with what execution would do.

use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use crate::world::*;
use num_traits::Zero;

fn tokarg(t: &T, m: usize) -> Vec<u8> {
    a_tok(t.cfg.mkts[m].tok)
}
fn view(t: &mut T, f: &str, args: Vec<Vec<u8>>) -> Result<Vec<u8>, String> {
    let r = t.l.q(f, args);
    if r.ok { Ok(r.vals.first().cloned().unwrap_or_default()) } else { Err(r.msg) }
}
fn expect(vs: &mut Vec<Viol>, what: String, got: Result<B, String>, want: &B) {
    match got {
        Ok(g) if g == *want => {}
        Ok(g) => vs.push(viol(format!("view:{what}"), format!("answers {g}, execution uses {want}"))),
        Err(e) => vs.push(viol(format!("view:{what}"), format!("refused: {e}"))),
    }
}
fn dec1(r: Result<Vec<u8>, String>) -> Result<B, String> {
    r.map(|v| top_dec(&v).0)
}

/// Reads every view in the state after a liquidation preview, when the
/// operation was a liquidation, and in every newly reached state.
pub fn agree(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters, new: bool) {
    preview(t, vs, c);
    if !new || !t.res.ok || t.hash_pre == t.hash_post {
        return;
    }
    let cfg = t.cfg;
    let post = t.post.clone();
    let Ok(o) = normalise(&post) else { return };
    let nm = cfg.mkts.len();
    // pool views report stored amounts
    for m in 0..nm {
        let (p, dec) = (&post.pools[m], cfg.mkts[m].dec);
        let q = |t: &mut T, f: &str| -> Result<B, String> { Ok(t.l.qp(m, f)) };
        expect(vs, format!("supplied:{m}"), q(t, "suppliedAmount"), &resc(&rmul(&p.supplied, &p.sidx), 27, dec));
        expect(vs, format!("borrowed:{m}"), q(t, "borrowedAmount"), &resc(&rmul(&p.borrowed, &p.bidx), 27, dec));
        expect(vs, format!("revenue:{m}"), q(t, "protocolRevenue"), &resc(&rmul(&p.revenue, &p.sidx), 27, dec));
        expect(vs, format!("reserves:{m}"), q(t, "reserves"), &p.cash);
        if let Ok(u) = pool_util(p) {
            expect(vs, format!("utilization:{m}"), q(t, "capitalUtilisation"), &u);
        }
        let pa = t.l.pools[m].clone();
        let r = t.l.w.query(&pa, "deltaTime", vec![]);
        let d = top_u64(&r.vals.first().cloned().unwrap_or_default());
        if d != post.now * 1000 - p.ts {
            vs.push(viol(format!("view:delta:{m}"), format!("{d}, last refresh {} now {}", p.ts, post.now)));
        }
    }
    // market indexes and prices, brought up to the current block
    let args: Vec<Vec<u8>> = (0..nm).map(|m| tokarg(t, m)).collect();
    match view(t, "getAllMarketIndexes", args.clone()) {
        Err(e) => vs.push(viol("view:indexes", format!("refused: {e}"))),
        Ok(v) => {
            let mut d = Dec::new(&v);
            for m in 0..nm {
                let tok = canon_tok(d.string());
                let (si, bi, pe, pu) = (d.dec().0, d.dec().0, d.dec().0, d.dec().0);
                let rest: Vec<B> = (0..4).map(|_| d.dec().0).collect();
                let _flags = (d.u8(), d.u8());
                let want = price_egld(&o, cfg, m).unwrap_or_default();
                let usd = usd_of(&(&want * p10(9)), &o);
                if tok != cfg.mkts[m].tok
                    || si != o.pools[m].sidx
                    || bi != o.pools[m].bidx
                    || pe != want
                    || pu != usd
                    || rest[0] != want
                    || rest[2] != want
                {
                    vs.push(viol(
                        format!("view:index:{m}"),
                        format!("{tok} {si} {bi} {pe} {pu} {rest:?}; execution uses {:?} price {want} usd {usd}", o.pools[m]),
                    ));
                }
            }
        }
    }
    if let Ok(v) = view(t, "getAllMarkets", args) {
        let mut d = Dec::new(&v);
        for m in 0..nm {
            let tok = canon_tok(d.string());
            let a = Addr::new(d.take(32).try_into().unwrap());
            let (pe, pu) = (d.dec().0, d.dec().0);
            let want = price_egld(&o, cfg, m).unwrap_or_default();
            if tok != cfg.mkts[m].tok || a != t.l.pools[m] || pe != want || pu != usd_of(&(&want * p10(9)), &o) {
                vs.push(viol(format!("view:market:{m}"), format!("{tok} {a:?} {pe} {pu}")));
            }
        }
    } else {
        vs.push(viol("view:markets", "refused"));
    }
    for m in 0..nm {
        let want = price_egld(&o, cfg, m).unwrap_or_default();
        let a = tokarg(t, m);
        let g = dec1(view(t, "getTokenPriceEGLD", vec![a.clone()]));
        expect(vs, format!("price-egld:{m}"), g, &want);
        let g = dec1(view(t, "getTokenPriceUSD", vec![a]));
        expect(vs, format!("price-usd:{m}"), g, &usd_of(&(&want * p10(9)), &o));
    }
    for (n, a) in &o.accts {
        if !a.active {
            continue;
        }
        c.hit("accounts-viewed");
        let id = a_u64(*n);
        let Ok(v) = values(&o, cfg, a) else { continue };
        let Ok(h) = hf(&v) else { continue };
        let g = dec1(view(t, "getHealthFactor", vec![id.clone()]));
        expect(vs, format!("health:{n}"), g, &h);
        let g = view(t, "canBeLiquidated", vec![id.clone()]).map(|x| B::from(x.first().copied().unwrap_or(0)));
        expect(vs, format!("liquidatable:{n}"), g, &B::from((h < ray()) as u8));
        let g = dec1(view(t, "getTotalBorrowInEgld", vec![id.clone()]));
        expect(vs, format!("debt:{n}"), g, &resc(&v.debt, 27, 18));
        let g = dec1(view(t, "getLiquidationCollateralAvailable", vec![id.clone()]));
        expect(vs, format!("weighted:{n}"), g, &resc(&v.weighted, 27, 18));
        let g = dec1(view(t, "getLtvCollateralInEgld", vec![id.clone()]));
        expect(vs, format!("capacity:{n}"), g, &resc(&v.ltv, 27, 18));
        let coll: B = a
            .dep
            .iter()
            .map(|(m, p)| {
                resc(&val_ray(&amt_ray(p, &o.pools[*m], false), &price_egld(&o, cfg, *m).unwrap_or_default()), 27, 18)
            })
            .sum();
        let g = dec1(view(t, "getTotalCollateralInEgld", vec![id.clone()]));
        expect(vs, format!("collateral:{n}"), g, &coll);
        for m in 0..nm {
            for (f, x, bor) in [("getCollateralAmountForToken", &a.dep, false), ("getBorrowAmountForToken", &a.bor, true)] {
                let r = view(t, f, vec![id.clone(), tokarg(t, m)]);
                match x.get(&m) {
                    Some(p) => expect(
                        vs,
                        format!("amount:{n}:{m}:{bor}"),
                        dec1(r),
                        &resc(&amt_ray(p, &o.pools[m], bor), 27, cfg.mkts[m].dec),
                    ),
                    None => {
                        if r.is_ok() {
                            vs.push(viol(format!("view:absent:{n}:{m}:{bor}"), "answered for a position that does not exist"));
                        }
                    }
                }
            }
        }
    }
}

fn payments(d: &mut Dec, cfg: &Cfg) -> Vec<(usize, B)> {
    // a struct field that is a list: u32 length, then the items
    let n = d.u32();
    (0..n)
        .map(|_| {
            let t = canon_tok(d.string());
            let _ = d.u64();
            (cfg.mkts.iter().position(|m| m.tok == t).unwrap_or(99), d.big())
        })
        .collect()
}

/// The liquidation preview, asked before the liquidation, tells its outcome.
fn preview(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    let Op::Liquidate { u, acct, pays } = t.op else { return };
    if t.pre.paused || t.pre.flash || pays.is_empty() {
        return;
    }
    // ask in the state before the operation: the post state is restored after
    let Ok(o) = normalise(t.pre) else { return };
    let Some(a) = o.accts.get(acct).filter(|a| a.active) else { return };
    let plan = plan_liquidation(&o, t.cfg, a, pays);
    let Some(snap) = t.before.clone() else { return };
    let now = t.l.w.snapshot();
    t.l.w.restore(&snap);
    let mut list = vec![];
    for (m, x) in pays {
        list.extend(a_payment(t.cfg.mkts[*m].tok, x));
    }
    let r = view(t, "liquidationEstimations", vec![a_u64(*acct), list]);
    t.l.w.restore(&now);
    match (&r, t.res.ok) {
        (Err(e), true) => vs.push(viol("preview-refused", format!("the liquidation succeeded, its preview refused: {e}"))),
        (Ok(v), _) => {
            let mut d = Dec::new(v);
            let seized = payments(&mut d, t.cfg);
            let fees = payments(&mut d, t.cfg);
            let refunds = payments(&mut d, t.cfg);
            let maxp = d.dec().0;
            let bonus = d.dec().0;
            let Ok(p) = plan else {
                if t.res.ok {
                    vs.push(viol("preview-plan", "preview and execution accept what the rules refuse"));
                }
                return;
            };
            let merge = |x: &[(usize, B)]| {
                let mut m: std::collections::BTreeMap<usize, B> = Default::default();
                for (k, a) in x {
                    if !a.is_zero() {
                        *m.entry(*k).or_default() += a;
                    }
                }
                m
            };
            c.hit("previews-compared");
            let ps: Vec<(usize, B)> = p.seized.iter().map(|x| (x.0, x.1.clone())).collect();
            let pf: Vec<(usize, B)> = p.seized.iter().map(|x| (x.0, x.2.clone())).collect();
            let same = merge(&seized) == merge(&ps) && merge(&fees) == merge(&pf) && merge(&refunds) == merge(&p.refunds);
            if !same || maxp != resc(&p.max_debt, 27, 18) || bonus != resc(&p.bonus, 27, 4) {
                vs.push(viol(
                    "preview",
                    format!("seized {seized:?} fees {fees:?} refunds {refunds:?} max {maxp} bonus {bonus}; rules {p:?}"),
                ));
            }
            // and against what actually happened
            if t.res.ok {
                for m in 0..t.cfg.mkts.len() {
                    let get = |v: &[(usize, B)]| v.iter().filter(|x| x.0 == m).map(|x| x.1.clone()).sum::<B>();
                    let paid = get(pays);
                    let (s, f, r) = (get(&seized), get(&fees), get(&refunds));
                    // overpayments of a debt beyond the preview's refunds are rounding only
                    let want = &t.pre.bal[*u][m] + &s + &r;
                    let got = &t.post.bal[*u][m] + &paid + &f;
                    let dd = if want > got { &want - &got } else { &got - &want };
                    if dd > b(2) {
                        vs.push(viol("preview-vs-outcome", format!("market {m}: previewed {want}, received {got}")));
                    }
                }
            }
        }
        _ => {}
    }
    let _ = kind(t.op);
}
