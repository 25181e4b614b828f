//! An operation given several payments, accounts or markets does what it would do
//! given one at a time, in the order of the list.

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::props::cells;
use crate::world::*;

/// the parts of an operation, or nothing when it has only one
fn parts(pre: &Obs, op: &Op) -> Vec<Op> {
    let v: Vec<Op> = match op {
        Op::Supply { u, via, emode, pays } => {
            let n = pre.accts.len() as u64 + 1;
            let newly = matches!(via, Via::New | Via::Nonce(0));
            let each = |(i, p): (usize, &(usize, B))| {
                let (via, emode) = if i > 0 && newly { (Via::Nft(n), 0) } else { (via.clone(), *emode) };
                Op::Supply { u: *u, via, emode, pays: vec![p.clone()] }
            };
            pays.iter().enumerate().map(each).collect()
        }
        Op::Withdraw { u, acct, pays } => pays.iter().map(|p| Op::Withdraw { u: *u, acct: *acct, pays: vec![p.clone()] }).collect(),
        Op::Borrow { u, acct, pays } => pays.iter().map(|p| Op::Borrow { u: *u, acct: *acct, pays: vec![p.clone()] }).collect(),
        Op::Repay { u, acct, pays } => pays.iter().map(|p| Op::Repay { u: *u, acct: *acct, pays: vec![p.clone()] }).collect(),
        Op::Threshold { u, m, risks, accts } => {
            accts.iter().map(|n| Op::Threshold { u: *u, m: *m, risks: *risks, accts: vec![*n] }).collect()
        }
        Op::Sync { u, ms } => ms.iter().map(|m| Op::Sync { u: *u, ms: vec![*m] }).collect(),
        Op::Claim { u, ms } => ms.iter().map(|m| Op::Claim { u: *u, ms: vec![*m] }).collect(),
        _ => vec![],
    };
    if v.len() < 2 { vec![] } else { v }
}

/// what the protocol announced (token movements aside: several may travel together)
fn said(r: &Res) -> Vec<String> {
    let own = |t: &[u8]| t.len() > 6 && t.iter().all(|c| c.is_ascii_lowercase() || *c == b'_');
    r.logs
        .iter()
        .filter(|l| l.2.first().is_some_and(|t| own(t)))
        .map(|l| {
            let hex = |x: &Vec<u8>| x.iter().map(|b| format!("{b:02x}")).collect::<String>();
            let name = String::from_utf8_lossy(&l.2[0]).to_string();
            let rest: Vec<String> = l.2[1..].iter().chain(l.3.iter()).map(hex).collect();
            format!("{name}: {}", rest.join(" "))
        })
        .collect()
}

pub fn one_by_one(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    let list = parts(t.pre, t.op);
    if list.is_empty() {
        return;
    }
    match t.op {
        // documented: isolated collateral is never part of a bulk supply
        Op::Supply { pays, .. } if pays.iter().any(|p| t.pre.mk[p.0].iso) => {
            c.hit("bulk-with-isolated");
            if t.res.ok {
                vs.push(viol("bulk-isolated", "accepted"));
            }
            return;
        }
        _ => {}
    }
    if let Op::Repay { pays, .. } = t.op {
        // (a lone payment of nothing is no payment at all)
        if pays.iter().any(|p| p.1 == b(0)) {
            return;
        }
    }
    // payments arrive together: whoever cannot pay them all cannot pay in part
    if let Op::Supply { u, pays, .. } | Op::Repay { u, pays, .. } = t.op {
        for m in 0..t.cfg.mkts.len() {
            let sum: B = pays.iter().filter(|p| p.0 == m).map(|p| p.1.clone()).sum();
            if sum > t.pre.bal[*u][m] {
                return;
            }
        }
    }
    let Some(snap) = t.before.clone() else { return };
    let now = t.l.w.snapshot();
    t.l.w.restore(&snap);
    let mut ok = true;
    let mut why = String::new();
    let mut heard = vec![];
    let mut vals = vec![];
    for p in &list {
        let r = t.l.exec(p);
        if !r.ok {
            ok = false;
            why = format!("{p:?}: {}", r.msg);
            break;
        }
        heard.extend(said(&r));
        vals.extend(r.vals.clone());
    }
    let seq = t.l.w.snapshot();
    t.l.w.restore(&now);
    c.hit(&format!("batches:{}:{}", kind_name(t.op), if ok { "accepted" } else { "refused" }));
    if ok != t.res.ok {
        let s = if ok { "parts accepted one by one, together refused: " } else { "accepted together, a part refused: " };
        vs.push(viol("batch-verdict", format!("{s}{}{why}", t.res.msg)));
        return;
    }
    if !ok {
        return;
    }
    let d = cells(&seq, &now);
    if !d.is_empty() {
        vs.push(viol("batch-effect", format!("together and one by one differ in {}", d.join(", "))));
    }
    let here = said(t.res);
    if here != heard {
        let x: Vec<_> = here.iter().filter(|x| !heard.contains(x)).collect();
        let y: Vec<_> = heard.iter().filter(|x| !here.contains(x)).collect();
        vs.push(viol("batch-events", format!("together {} events {x:?}, one by one {} events {y:?}", here.len(), heard.len())));
    }
    if matches!(t.op, Op::Sync { .. } | Op::Claim { .. }) && vals != t.res.vals {
        vs.push(viol("batch-answers", format!("together {:?}, one by one {vals:?}", t.res.vals)));
    }
}
fn kind_name(op: &Op) -> String {
    format!("{op:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}

/// lists of two and three parts for every operation that takes a list
pub fn a_batch(o: &Obs, cfg: &Cfg, deep: bool) -> Vec<Op> {
    let mut v = vec![];
    let nm = cfg.mkts.len();
    let amt = |m: usize| [me(250), us(10), me(200), b(1), e(10)][m].clone();
    let tiny = |m: usize| [b(1), b(1), me(1), b(1), b(3)][m].clone();
    let mut pairs: Vec<Vec<(usize, B)>> = vec![];
    for x in 0..nm {
        for y in 0..nm {
            pairs.push(vec![(x, amt(x)), (y, amt(y))]);
            pairs.push(vec![(x, tiny(x)), (y, huge())]);
            if deep {
                pairs.push(vec![(x, amt(x)), (y, tiny(y)), (x, amt(x) * 3u32)]);
            }
        }
    }
    pairs.push(vec![(0, me(250)), (1, us(10)), (2, me(200))]);
    pairs.push(vec![(2, me(200)), (2, me(200)), (2, me(200)), (1, us(10))]);
    pairs.push(vec![(1, us(10)), (0, b(0))]);
    for (n, h) in live(o) {
        if n < 3 {
            continue;
        }
        let a = &o.accts[&n];
        for p in &pairs {
            let rich = p.iter().all(|x| x.1 < p10(30));
            let meets = |k: &std::collections::BTreeMap<usize, Pos>| p.iter().any(|x| k.contains_key(&x.0));
            if rich {
                v.push(Op::Supply { u: h, via: Via::Nft(n), emode: 0, pays: p.clone() });
                v.push(Op::Borrow { u: h, acct: n, pays: p.clone() });
            }
            if meets(&a.dep) {
                v.push(Op::Withdraw { u: h, acct: n, pays: p.clone() });
            }
            if meets(&a.bor) {
                let q: Vec<(usize, B)> = p.iter().map(|x| (x.0, if x.1 < p10(30) { x.1.clone() } else { amt(x.0) * 1_000u32 })).collect();
                v.push(Op::Repay { u: h, acct: n, pays: q });
            }
        }
        for (x, y) in [(0usize, 1usize), (1, 2), (2, 1)] {
            for k in edge_borrow(o, cfg, n, y) {
                // the second part straddles what the first leaves
                v.push(Op::Borrow { u: h, acct: n, pays: vec![(y, k.clone()), (x, tiny(x))] });
                v.push(Op::Borrow { u: h, acct: n, pays: vec![(x, tiny(x)), (y, k)] });
            }
            for k in edge_withdraw(o, cfg, n, y) {
                v.push(Op::Withdraw { u: h, acct: n, pays: vec![(y, k.clone()), (x, tiny(x))] });
                v.push(Op::Withdraw { u: h, acct: n, pays: vec![(x, tiny(x)), (y, k)] });
            }
        }
    }
    for p in pairs.iter().filter(|p| p.iter().all(|x| x.1 < p10(30))) {
        v.push(Op::Supply { u: 3, via: Via::New, emode: 0, pays: p.clone() });
        v.push(Op::Supply { u: 3, via: Via::New, emode: 1, pays: p.clone() });
    }
    let ns: Vec<u64> = live(o).iter().map(|x| x.0).collect();
    for m in 0..nm {
        for risks in [true, false] {
            v.push(Op::Threshold { u: 1, m, risks, accts: ns.clone() });
            v.push(Op::Threshold { u: 1, m, risks, accts: ns.iter().rev().cloned().collect() });
            for x in ns.windows(2) {
                v.push(Op::Threshold { u: 1, m, risks, accts: x.to_vec() });
            }
            v.push(Op::Threshold { u: 1, m, risks, accts: vec![3, 3] });
            v.push(Op::Threshold { u: 1, m, risks, accts: vec![3, 99] });
        }
    }
    for l in [vec![0, 1], vec![1, 0, 2, 3, 4], vec![2, 2], vec![4, 3], vec![0, 1, 2, 3, 4]] {
        v.push(Op::Sync { u: 3, ms: l.clone() });
        v.push(Op::Claim { u: 3, ms: l });
    }
    v
}
