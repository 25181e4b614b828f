//! What must make no difference: when interest was last booked, and in which order
//! different people's operations enter a block. The real contracts are their own
//! oracle: the same operations are played from the same state another way.

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use crate::props::cells;
use crate::world::*;
use std::cell::RefCell;

fn book(l: &mut L, nm: usize) {
    for m in 0..nm {
        let _ = l.exec(&Op::Sync { u: 1, ms: vec![m] });
    }
}

/// Booking the interest of every market first changes neither the verdict nor the outcome.
pub fn booked_or_not(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    let k = kind(t.op);
    if t.pre.paused || t.pre.flash || matches!(k, "Advance" | "Price" | "EgldPrice" | "Pause" | "UpgradeCtrl" | "Upgrade" | "Xfer") {
        return;
    }
    let nm = t.cfg.mkts.len();
    let Some(snap) = t.before.clone() else { return };
    let here = t.l.w.snapshot();
    // the operation, then booking
    if t.res.ok {
        book(t.l, nm);
    }
    let lazy = t.l.w.snapshot();
    // booking, the operation, booking
    t.l.w.restore(&snap);
    book(t.l, nm);
    let fresh = t.l.state_hash() != t.hash_pre;
    let r = t.l.exec(t.op);
    if r.ok {
        book(t.l, nm);
    }
    let eager = t.l.w.snapshot();
    t.l.w.restore(&here);
    if !fresh {
        return;
    }
    c.hit(&format!("{}:{k}", if t.res.ok { "accepted" } else { "refused" }));
    if r.ok != t.res.ok {
        // (the reserve's share of interest not booked yet does not count against a supply cap)
        if !r.ok && r.msg.contains("Supply cap") {
            c.hit("supply-cap-after-booking");
            return;
        }
        vs.push(viol("booking-verdict", format!("as found: {} {}; interest booked first: {} {}", t.res.ok, t.res.msg, r.ok, r.msg)));
        return;
    }
    if r.ok {
        let d = cells(&lazy, &eager);
        if !d.is_empty() {
            vs.push(viol("booking-effect", format!("booking first makes a difference in {}", d.join(", "))));
        }
    }
}

/// limits that are shared between accounts
fn shared_limit(r: &Res) -> bool {
    ["Supply cap", "Borrow cap", "Insufficient liquidity", "ceiling", "Ceiling", "eserve", "insufficient funds"].iter().any(|x| r.msg.contains(x))
}
/// one operation of each kind for every account, and newcomers
fn others(o: &Obs, deep: bool) -> Vec<Op> {
    let ten = |m: usize| [me(250), us(10), me(200), b(1), e(10)][m].clone();
    let mut v = vec![];
    for (n, h) in live(o) {
        let a = &o.accts[&n];
        let d: Vec<usize> = a.dep.keys().cloned().collect();
        let w: Vec<usize> = a.bor.keys().cloned().collect();
        for m in d.iter().take(if deep { 3 } else { 1 }) {
            v.push(sup(h, Via::Nft(n), *m, ten(*m)));
            v.push(wd(h, n, *m, ten(*m)));
            v.push(wd(h, n, *m, huge()));
        }
        if n < 3 {
            v.push(wd(h, n, 1, o.pools[1].cash.clone()));
            continue;
        }
        v.push(bo(h, n, 1, ten(1)));
        for m in w.iter().take(if deep { 3 } else { 1 }) {
            v.push(rp(h, n, *m, ten(*m)));
            v.push(rp(1, n, *m, huge()));
            v.push(lq(1, n, *m, ten(*m)));
            let new = if *m == 0 { 2 } else { 0 };
            v.push(Op::SwapDebt { u: h, acct: n, old: *m, amt: ten(new), new, outs: vec![(*m, ten(*m))], pays: vec![] });
            if let Some(k) = d.iter().find(|k| *k != m) {
                v.push(Op::RepayColl { u: h, acct: n, coll: *k, amt: ten(*k), debt: *m, close: false, outs: Some(vec![(*m, ten(*m))]), pays: vec![] });
            }
        }
        if let Some(k) = d.first() {
            let new = if *k == 0 { 2 } else { 0 };
            v.push(Op::SwapColl { u: h, acct: n, old: *k, amt: ten(*k), new, outs: vec![(new, ten(new))], pays: vec![] });
            v.push(Op::Threshold { u: 1, m: *k, risks: deep, accts: vec![n] });
        }
    }
    v.push(sup_e(3, 1, 0, e(1)));
    v.push(Op::Multiply { u: 3, acct: 0, emode: 0, coll: 0, amt: us(16), debt: 1, mode: 3, outs: vec![(0, me(390))], pays: vec![(0, e(1))], outs2: None });
    v.push(Op::Flash { u: 3, m: 1, amt: us(2_000), outs: vec![(1, us(2_011))], nested: None });
    v
}
fn creates(op: &Op) -> bool {
    matches!(op, Op::Supply { via: Via::New | Via::Nonce(0), .. } | Op::Multiply { acct: 0, .. })
}
fn plain(op: &Op) -> bool {
    matches!(
        kind(op),
        "Supply" | "Withdraw" | "Borrow" | "Repay" | "Liquidate" | "Threshold" | "Sync" | "Flash" | "Multiply" | "SwapDebt" | "SwapColl" | "RepayColl"
    )
}
thread_local! {
    /// the operations accepted on their own in the state at hand
    static ALONE: RefCell<(u128, Vec<Op>)> = const { RefCell::new((0, vec![])) };
}
/// accounts an operation is directed at, from the operation alone
fn aims(op: &Op) -> Vec<u64> {
    match op {
        Op::Supply { via: Via::Nft(n) | Via::Nonce(n), .. } => vec![*n],
        Op::Multiply { acct, .. }
        | Op::Withdraw { acct, .. }
        | Op::Borrow { acct, .. }
        | Op::Repay { acct, .. }
        | Op::Liquidate { acct, .. }
        | Op::SwapDebt { acct, .. }
        | Op::SwapColl { acct, .. }
        | Op::RepayColl { acct, .. } => vec![*acct],
        Op::Threshold { accts, .. } => accts.clone(),
        _ => vec![],
    }
}

/// Two operations on different accounts do the same in either order.
pub fn either_order(t: &mut T, deep: bool, vs: &mut Vec<Viol>, c: &mut Counters) {
    if !t.res.ok || !plain(t.op) || t.depth == 0 {
        return;
    }
    let Some(snap) = t.before.clone() else { return };
    let here = t.l.w.snapshot();
    let known = ALONE.with(|x| x.borrow().0 == t.hash_pre);
    if !known {
        let mut v = vec![];
        for op in others(t.pre, deep) {
            t.l.w.restore(&snap);
            if t.l.exec(&op).ok {
                v.push(op);
            }
        }
        ALONE.with(|x| *x.borrow_mut() = (t.hash_pre, v));
    }
    let list = ALONE.with(|x| x.borrow().1.clone());
    let mine = aims(t.op);
    for op in list {
        let at = aims(&op);
        if at.iter().any(|n| *n != 0 && mine.contains(n)) || creates(t.op) && creates(&op) {
            continue;
        }
        t.l.w.restore(&here);
        let second = t.l.exec(&op);
        let after = t.l.obs();
        t.l.w.restore(&snap);
        let first = t.l.exec(&op);
        if !first.ok {
            vs.push(viol("order-unstable", format!("{op:?} refused the second time: {}", first.msg)));
            break;
        }
        let last = t.l.exec(t.op);
        c.hit("pairs");
        let mut limited = false;
        for (r, what) in [(&second, &op), (&last, t.op)] {
            if !r.ok {
                limited = true;
                if shared_limit(r) {
                    c.hit("pairs-competing-for-a-limit");
                } else {
                    vs.push(viol("order-verdict", format!("{what:?} becomes impossible after the other ({:?} / {op:?}): {}", t.op, r.msg)));
                }
            }
        }
        if limited {
            continue;
        }
        let z = t.l.obs();
        let d = diff(&after, &z);
        if !d.is_empty() {
            let d: Vec<String> = d.iter().take(3).map(|x| format!("{:?}: {}", x.0, x.1)).collect();
            vs.push(viol("order-effect", format!("{:?} and {op:?}: {}", t.op, d.join("; "))));
        }
        if vs.len() > 3 {
            break;
        }
    }
    t.l.w.restore(&here);
}
