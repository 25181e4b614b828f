//! What operations announce must be what they did: an outside observer that
//! only reads the events of accepted operations ends with the true state.

use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use crate::world::*;
use num_traits::Zero;
use std::collections::BTreeMap;

fn dec(v: &[u8]) -> (B, u32) {
    top_dec(v)
}
fn tok_of(cfg: &Cfg, v: &[u8]) -> Option<usize> {
    let s = canon_tok(String::from_utf8_lossy(v).to_string());
    cfg.mkts.iter().position(|m| m.tok == s)
}
struct Acc {
    isolated: bool,
    emode: u8,
    mode: u8,
    iso: Option<String>,
}
fn attrs(v: &[u8]) -> Acc {
    let mut d = Dec::new(v);
    let (isolated, emode, mode) = (d.u8() != 0, d.u8(), d.u8());
    let iso = if d.u8() != 0 { Some(canon_tok(d.string())) } else { None };
    Acc { isolated, emode, mode, iso }
}

pub fn tell(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    if !t.res.ok {
        return;
    }
    let (cfg, pre, post) = (t.cfg, t.pre, t.post);
    let nm = cfg.mkts.len();
    let norm = normalise(pre);
    let mut market: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    let mut shadow: BTreeMap<(u64, u8, usize), Pos> = BTreeMap::new();
    for (n, a) in &pre.accts {
        for (m, p) in &a.dep {
            shadow.insert((*n, 1, *m), p.clone());
        }
        for (m, p) in &a.bor {
            shadow.insert((*n, 2, *m), p.clone());
        }
    }
    let mut config: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut ceiling: BTreeMap<usize, B> = BTreeMap::new();
    let mut curves: BTreeMap<usize, Vec<B>> = BTreeMap::new();
    let mut cleanable: Option<Vec<Vec<u8>>> = None;
    let mut start: Option<Vec<Vec<u8>>> = None;
    let who = match t.op {
        Op::Threshold { .. } => Some(t.l.ctrl.clone()),
        op => sender(op).map(|u| if u == OWNER { t.l.owner.clone() } else { t.l.users[u].clone() }),
    };
    let key = |p: &str, rest: &[u8]| {
        let mut k = p.as_bytes().to_vec();
        k.extend(rest);
        k
    };
    let mut drawn = false;
    let logs = t.res.logs.clone();
    for (from, _, topics, _) in &logs {
        let Some(name) = topics.first() else { continue };
        let a = &topics[1..];
        match String::from_utf8_lossy(name).as_ref() {
            "update_market_state" => {
                let Some(m) = t.l.pools.iter().position(|p| p == from) else {
                    vs.push(viol("event:emitter", "a market state announced by something that is no market"));
                    continue;
                };
                c.hit("market-events");
                market.insert(m, a.to_vec());
            }
            "update_position" => {
                let (tok, p) = L::dec_pos(&a[2]);
                let Some(m) = cfg.mkts.iter().position(|x| x.tok == tok) else {
                    vs.push(viol("event:position-token", tok));
                    continue;
                };
                c.hit("position-events");
                let k = (p.nonce, p.kind, m);
                let tag = format!("account {} market {m} kind {}", p.nonce, p.kind);
                let was = shadow.get(&k).map(|x| x.scaled.clone()).unwrap_or_default();
                if let Ok(o) = &norm {
                    let idx = if p.kind == 1 { &o.pools[m].sidx } else { &o.pools[m].bidx };
                    let got = dec(&a[0]).0;
                    if got != *idx {
                        vs.push(viol("event:index", format!("{tag}: announces index {got}, in force {idx}")));
                    }
                    // the amount is what the position changed by
                    let (raw, sc) = dec(&a[1]);
                    let amt = raw * p10(27 - sc.min(27));
                    let moved = if p.scaled > was { &p.scaled - &was } else { &was - &p.scaled };
                    let worth = rmul(&moved, idx);
                    let unit = p10(27 - cfg.mkts[m].dec.min(27)) + idx / ray() + 1u32;
                    let off = if amt > worth { &amt - &worth } else { &worth - &amt };
                    if matches!(t.op, Op::CleanBad { .. }) {
                        if !amt.is_zero() || !p.scaled.is_zero() {
                            vs.push(viol("event:write-off", format!("{tag}: announces amount {amt}, left {}", p.scaled)));
                        }
                    } else if off > unit {
                        vs.push(viol("event:amount", format!("{tag}: announces {amt}, the position moved by {worth}")));
                    }
                }
                if let Ok(w) = price_egld(pre, cfg, m) {
                    let got = a.get(3).map(|x| dec(x).0);
                    if got.as_ref() != Some(&w) {
                        vs.push(viol("event:price", format!("{tag}: announces {got:?}, used {w}")));
                    }
                }
                // collateral taken out for a conversion goes through the controller
                let from = match t.op {
                    Op::SwapColl { old, .. } => Some(*old),
                    Op::RepayColl { coll, .. } => Some(*coll),
                    _ => None,
                };
                // (what closing an account returns afterwards does not)
                let through = !drawn && from == Some(m) && p.kind == 1 && p.scaled < was;
                drawn |= through;
                let who = if through { Some(t.l.ctrl.clone()) } else { who.clone() };
                if let Some(w) = &who {
                    if a.get(4).map(|x| x.as_slice()) != Some(w.as_bytes()) {
                        vs.push(viol("event:caller", tag.clone()));
                    }
                }
                let acc = post.accts.get(&p.nonce).filter(|x| x.active).or(pre.accts.get(&p.nonce).filter(|x| x.active));
                match (a.get(5), acc) {
                    (Some(x), Some(y)) => {
                        let g = attrs(x);
                        if (g.isolated, g.emode, g.mode, &g.iso) != (y.isolated, y.emode, y.mode, &y.iso_tok) {
                            vs.push(viol("event:attributes", tag.clone()));
                        }
                    }
                    (x, y) => vs.push(viol("event:attributes", format!("{tag}: {} {}", x.is_some(), y.is_some()))),
                }
                shadow.insert(k, p);
            }
            "update_debt_ceiling" => {
                if let Some(m) = tok_of(cfg, &a[0]) {
                    c.hit("debt-counter-events");
                    ceiling.insert(m, dec(&a[1]).0);
                }
            }
            "update_asset_config" => {
                if let Some(m) = tok_of(cfg, &a[0]) {
                    config.insert(key("asset_config", &n_bytes(key_tok(cfg.mkts[m].tok).as_bytes())), a[1].clone());
                }
            }
            "update_asset_oracle" => {
                if let Some(m) = tok_of(cfg, &a[0]) {
                    config.insert(key("token_oracle", &n_bytes(key_tok(cfg.mkts[m].tok).as_bytes())), a[1].clone());
                }
            }
            "update_e_mode_category" => {
                config.insert(key("e_mode_category.mapped", &a[0][..1]), a[0].clone());
            }
            "update_e_mode_asset" => {
                let id = top_u64(&a[2]) as u8;
                let mut k = key("e_mode_assets", &[id]);
                k.extend(b".mapped");
                if let Some(m) = tok_of(cfg, &a[0]) {
                    k.extend(n_bytes(key_tok(cfg.mkts[m].tok).as_bytes()));
                    config.insert(k, a[1].clone());
                }
            }
            "update_market_params" => {
                if let Some(m) = tok_of(cfg, &a[0]) {
                    curves.insert(m, a[1..].iter().map(|x| top_big(x)).collect());
                }
            }
            "emit_trigger_clean_bad_debt" => cleanable = Some(a.to_vec()),
            "initial_multiply_payment" => start = Some(a.to_vec()),
            _ => {}
        }
    }
    // markets
    for m in 0..nm {
        let (p, q) = (&pre.pools[m], &post.pools[m]);
        let Some(a) = market.get(&m) else {
            if p != q {
                vs.push(viol("event:silent-market", format!("market {m} changed without an event")));
            }
            continue;
        };
        let price = price_egld(pre, cfg, m).ok();
        let got = [dec(&a[1]).0, dec(&a[2]).0, dec(&a[3]).0, dec(&a[4]).0, dec(&a[5]).0, dec(&a[6]).0, dec(&a[8]).0];
        let want = [&q.sidx, &q.bidx, &q.cash, &q.supplied, &q.borrowed, &q.revenue];
        let names = ["supply index", "borrow index", "idle balance", "supply", "debt", "reserve"];
        for i in 0..6 {
            if got[i] != *want[i] {
                vs.push(viol(format!("event:{}", names[i]), format!("market {m}: announces {}, is {}", got[i], want[i])));
            }
        }
        if top_u64(&a[0]) != post.now * 1000 {
            vs.push(viol("event:time", format!("market {m}: {}", top_u64(&a[0]))));
        }
        if tok_of(cfg, &a[7]) != Some(m) {
            vs.push(viol("event:token", format!("market {m}")));
        }
        if let Some(w) = price {
            if got[6] != w {
                vs.push(viol("event:market-price", format!("market {m}: announces {}, used {w}", got[6])));
            }
        }
    }
    // positions
    for (n, a) in &post.accts {
        for (m, p) in &a.dep {
            if shadow.remove(&(*n, 1, *m)).as_ref() != Some(p) {
                vs.push(viol("event:position", format!("account {n} deposit {m} differs from what was announced")));
            }
        }
        for (m, p) in &a.bor {
            if shadow.remove(&(*n, 2, *m)).as_ref() != Some(p) {
                vs.push(viol("event:position", format!("account {n} debt {m} differs from what was announced")));
            }
        }
    }
    for (k, p) in shadow {
        if !p.scaled.is_zero() {
            vs.push(viol("event:position", format!("{k:?} is gone, announced with {}", p.scaled)));
        }
    }
    // counters and configuration
    for m in 0..nm {
        if let Some(g) = ceiling.get(&m) {
            if *g != post.iso_debt[m] {
                vs.push(viol("event:debt-counter", format!("market {m}: announces {g}, is {}", post.iso_debt[m])));
            }
        } else if pre.iso_debt[m] != post.iso_debt[m] {
            vs.push(viol("event:debt-counter", format!("market {m} silent")));
        }
        let (p, q) = (&pre.pp[m], &post.pp[m]);
        if p != q {
            let w = vec![q.max.clone(), q.base.clone(), q.s1.clone(), q.s2.clone(), q.s3.clone(), q.mid.clone(), q.opt.clone(), q.rf.clone()];
            c.hit("curve-events");
            if curves.get(&m) != Some(&w) {
                vs.push(viol("event:curve", format!("market {m}: announced {:?}", curves.get(&m))));
            }
        }
    }
    let ctrl = t.l.ctrl.clone();
    let empty = Default::default();
    let old = t.before.as_ref().and_then(|s| s.accounts.get(&ctrl)).map(|a| &a.storage).unwrap_or(&empty);
    let now = &t.l.w.acct(&ctrl).storage;
    for (k, v) in &config {
        c.hit("configuration-events");
        match now.get(k) {
            Some(x) if x == v => {}
            x if k.starts_with(b"e_mode_assets") && x.is_none_or(|x| x.is_empty()) => {}
            x => vs.push(viol("event:configuration", format!("{}: announces {v:02x?}, stored {x:02x?}", String::from_utf8_lossy(k)))),
        }
    }
    for (k, v) in now {
        let watched = ["asset_config", "token_oracle", "e_mode_category.mapped", "e_mode_assets"].iter().any(|p| k.starts_with(p.as_bytes()))
            && (k.starts_with(b"asset_config") || k.starts_with(b"token_oracle") || k.windows(7).any(|w| w == b".mapped"));
        if watched && !v.is_empty() && old.get(k) != Some(v) && !config.contains_key(k) {
            vs.push(viol("event:configuration", format!("{} changed silently", String::from_utf8_lossy(k))));
        }
    }
    // a liquidation that leaves a debt which can be written off says so
    if let Op::Liquidate { acct, .. } = t.op {
        let end = normalise(post).ok();
        if let Some(Ok(v)) = end.as_ref().and_then(|o| o.accts.get(acct).map(|a| values(o, cfg, a))) {
            let (debt, coll) = (usd_of(&v.debt, post), usd_of(&v.coll, post));
            let slack = p10(15);
            let surely = debt > &coll + &slack && &coll + &slack < wad() * 5u32;
            let maybe = &debt + &slack > coll && coll < wad() * 5u32 + &slack;
            if surely && cleanable.is_none() {
                vs.push(viol("event:bad-debt", format!("account {acct}: debt {debt} collateral {coll} not announced")));
            }
            if let Some(a) = &cleanable {
                c.hit("bad-debt-announcements");
                let (x, y) = (usd_of(&dec(&a[1]).0, post), usd_of(&dec(&a[2]).0, post));
                let far = |p: &B, q: &B| if p > q { p - q > slack } else { q - p > slack };
                if !maybe || top_u64(&a[0]) != *acct || far(&x, &debt) || far(&y, &coll) {
                    vs.push(viol("event:bad-debt", format!("account {acct}: announces {x}/{y}, is {debt}/{coll}")));
                }
            }
        }
    } else if cleanable.is_some() {
        vs.push(viol("event:bad-debt", "announced without a liquidation"));
    }
    // the payment a leveraged account started with
    if let Op::Multiply { pays, coll, debt, outs2, .. } = t.op {
        // a payment in a third token is announced as the collateral it was turned into
        let given: Vec<(usize, B)> = match pays.as_slice() {
            [(m, _)] if m != coll && m != debt => {
                let got = outs2.iter().flatten().filter(|x| x.0 == *coll).map(|x| x.1.clone()).sum();
                vec![(*coll, got)]
            }
            x => x.to_vec(),
        };
        match (start, given.as_slice()) {
            (None, []) => {}
            (Some(a), [(m, x)]) if tok_of(cfg, &a[0]) == Some(*m) => {
                c.hit("initial-payment-events");
                let usd = price_egld(pre, cfg, *m).ok().map(|w| usd_of(&val_ray(&up(x, cfg.mkts[*m].dec), &w), pre));
                let (g, sc) = dec(&a[2]);
                let near = usd.as_ref().is_none_or(|u| {
                    let g = resc(&g, sc, 18);
                    let d = if g > *u { &g - u } else { u - &g };
                    d <= u / p10(15) + 2u32
                });
                let n = top_u64(&a[3]);
                if dec(&a[1]).0 != *x || !near || !targets(t).contains(&n) {
                    vs.push(viol("event:initial-payment", format!("announces {} {g} account {n}; paid {x}, {usd:?}", dec(&a[1]).0)));
                }
            }
            (a, _) => vs.push(viol("event:initial-payment", format!("{:?} announced {}", t.op, a.is_some()))),
        }
    }
}
