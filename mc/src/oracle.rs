//! Comparison of observed and specified states, and declarative invariants.

use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use num_traits::Zero;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum F {
    /// (market, field)
    Pool(usize, &'static str),
    /// account, market, is_borrow
    Scaled(u64, usize, bool),
    /// stored risk parameters of a position
    Risk(u64, usize, bool),
    Attr(u64),
    Active(u64),
    Holder(u64),
    Iso(usize),
    UserBal(usize, usize),
    CtrlBal(usize),
    AccuBal(usize),
    EnvBal(usize),
    Config,
    Wiring,
    Flag,
    Env,
}

pub fn diff(a: &Obs, b: &Obs) -> Vec<(F, String)> {
    let mut v = vec![];
    macro_rules! c {
        ($f:expr, $x:expr, $y:expr) => {
            if $x != $y {
                v.push(($f, format!("specified {:?}, observed {:?}", $x, $y)));
            }
        };
    }
    c!(F::Env, (a.now, &a.prices, &a.egld_usd), (b.now, &b.prices, &b.egld_usd));
    for i in 0..a.pools.len() {
        let (p, q) = (&a.pools[i], &b.pools[i]);
        c!(F::Pool(i, "supplied"), p.supplied, q.supplied);
        c!(F::Pool(i, "borrowed"), p.borrowed, q.borrowed);
        c!(F::Pool(i, "revenue"), p.revenue, q.revenue);
        c!(F::Pool(i, "bidx"), p.bidx, q.bidx);
        c!(F::Pool(i, "sidx"), p.sidx, q.sidx);
        c!(F::Pool(i, "ts"), p.ts, q.ts);
        c!(F::Pool(i, "cash"), p.cash, q.cash);
        c!(F::Iso(i), a.iso_debt[i], b.iso_debt[i]);
        c!(F::CtrlBal(i), a.ctrl_bal[i], b.ctrl_bal[i]);
        c!(F::AccuBal(i), a.accu_bal[i], b.accu_bal[i]);
        c!(F::EnvBal(i), a.env_bal[i], b.env_bal[i]);
        for u in 0..a.bal.len() {
            c!(F::UserBal(u, i), a.bal[u][i], b.bal[u][i]);
        }
    }
    let mut keys: Vec<u64> = a.accts.keys().chain(b.accts.keys()).cloned().collect();
    keys.sort();
    keys.dedup();
    let e = AcctObs::default();
    for n in keys {
        let (x, y) = (a.accts.get(&n).unwrap_or(&e), b.accts.get(&n).unwrap_or(&e));
        c!(F::Active(n), x.active, y.active);
        c!(
            F::Attr(n),
            (x.isolated, x.emode, x.mode, &x.iso_tok),
            (y.isolated, y.emode, y.mode, &y.iso_tok)
        );
        c!(F::Holder(n), x.holder, y.holder);
        for (bor, dx, dy) in [(false, &x.dep, &y.dep), (true, &x.bor, &y.bor)] {
            let z = Pos::default();
            for m in 0..a.pools.len() {
                if !dx.contains_key(&m) && !dy.contains_key(&m) {
                    continue;
                }
                if dx.contains_key(&m) != dy.contains_key(&m) {
                    v.push((
                        F::Scaled(n, m, bor),
                        format!("position specified present={}, observed present={}", dx.contains_key(&m), dy.contains_key(&m)),
                    ));
                    continue;
                }
                let (p, q) = (dx.get(&m).unwrap_or(&z), dy.get(&m).unwrap_or(&z));
                c!(F::Scaled(n, m, bor), p.scaled, q.scaled);
                if !bor {
                    c!(
                        F::Risk(n, m, bor),
                        (&p.thr, &p.bonus, &p.fees, &p.ltv, p.kind, p.nonce),
                        (&q.thr, &q.bonus, &q.fees, &q.ltv, q.kind, q.nonce)
                    );
                } else {
                    c!(F::Risk(n, m, bor), (p.kind, p.nonce), (q.kind, q.nonce));
                }
            }
        }
    }
    c!(F::Config, &a.mk, &b.mk);
    c!(F::Config, &a.pp, &b.pp);
    c!(F::Config, &a.emodes, &b.emodes);
    c!(F::Config, a.limits, b.limits);
    c!(F::Wiring, (&a.wired, &a.spare, &a.code), (&b.wired, &b.spare, &b.code));
    c!(F::Flag, (a.paused, a.flash), (b.paused, b.flash));
    v
}

/// Full conformance of one transition with the reference model.
pub fn conform(t: &T) -> Vec<Viol> {
    let mut out = vec![];
    match (t.model, t.res.ok) {
        (Ok(_), false) => out.push(viol("refused", format!("specification accepts, implementation refused: {}", t.res.msg))),
        (Err(e), true) => out.push(viol("accepted", format!("specification refuses ({e}), implementation accepted"))),
        (Err(_), false) => {
            if t.hash_pre != t.hash_post {
                out.push(viol("refusal-left-traces", "a refused operation changed the state"));
            }
        }
        (Ok(m), true) => match (normalise(m), normalise(t.post)) {
            (Ok(a), Ok(b)) => {
                for (f, s) in diff(&a, &b) {
                    out.push(viol(format!("state:{f:?}"), s));
                }
            }
            (x, y) => {
                if x.is_ok() != y.is_ok() {
                    out.push(viol("state:accrual", format!("{:?} / {:?}", x.err(), y.err())));
                }
            }
        },
    }
    out
}

// ------------------------------------------------------------ helpers
pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::Supply { .. } => "Supply",
        Op::Withdraw { .. } => "Withdraw",
        Op::Borrow { .. } => "Borrow",
        Op::Repay { .. } => "Repay",
        Op::Liquidate { .. } => "Liquidate",
        Op::CleanBad { .. } => "CleanBad",
        Op::Threshold { .. } => "Threshold",
        Op::Sync { .. } => "Sync",
        Op::Claim { .. } => "Claim",
        Op::Rewards { .. } => "Rewards",
        Op::Flash { .. } => "Flash",
        Op::Multiply { .. } => "Multiply",
        Op::SwapDebt { .. } => "SwapDebt",
        Op::SwapColl { .. } => "SwapColl",
        Op::RepayColl { .. } => "RepayColl",
        Op::Price { .. } | Op::EgldPrice { .. } => "Price",
        Op::Advance { .. } => "Advance",
        Op::Xfer { .. } => "Xfer",
        Op::EditAsset { .. } => "EditAsset",
        Op::PoolParams { .. } => "PoolParams",
        Op::Limits { .. } => "Limits",
        Op::AddEMode { .. }
        | Op::RemoveEMode { .. }
        | Op::EditEMode { .. }
        | Op::AddToEMode { .. }
        | Op::EditInEMode { .. }
        | Op::RemFromEMode { .. } => "EMode",
        Op::Pause(_) => "Pause",
        Op::Wire { .. } => "Wire",
        Op::UpgradePool { .. } | Op::UpgradeCtrl => "Upgrade",
        Op::Raw { .. } => "Raw",
    }
}
/// accounts an operation is directed at (existing ones)
pub fn targets(t: &T) -> Vec<u64> {
    let newest = |o: &Obs| o.accts.len() as u64;
    match t.op {
        Op::Supply { via, .. } => match via {
            Via::New => vec![newest(t.post)],
            Via::Nft(n) | Via::Nonce(n) => vec![if *n == 0 { newest(t.post) } else { *n }],
        },
        Op::Multiply { acct, .. } => vec![if *acct == 0 { newest(t.post) } else { *acct }],
        Op::Withdraw { acct, .. }
        | Op::Borrow { acct, .. }
        | Op::Repay { acct, .. }
        | Op::Liquidate { acct, .. }
        | Op::CleanBad { acct, .. }
        | Op::SwapDebt { acct, .. }
        | Op::SwapColl { acct, .. }
        | Op::RepayColl { acct, .. }
        | Op::Xfer { acct, .. } => vec![*acct],
        Op::Threshold { accts, .. } => accts.clone(),
        _ => vec![],
    }
}
pub fn sender(op: &Op) -> Option<usize> {
    match op {
        Op::Supply { u, .. }
        | Op::Withdraw { u, .. }
        | Op::Borrow { u, .. }
        | Op::Repay { u, .. }
        | Op::Liquidate { u, .. }
        | Op::CleanBad { u, .. }
        | Op::Threshold { u, .. }
        | Op::Sync { u, .. }
        | Op::Claim { u, .. }
        | Op::Flash { u, .. }
        | Op::Multiply { u, .. }
        | Op::SwapDebt { u, .. }
        | Op::SwapColl { u, .. }
        | Op::Raw { u, .. }
        | Op::RepayColl { u, .. } => Some(*u),
        Op::Xfer { from, .. } => Some(*from),
        _ => None,
    }
}

/// Compare with the model: acceptance for the operation kinds in `acc`, and
/// fields selected by `f` for the kinds in `st` ("*" = every kind).
pub fn conf_on(t: &T, vs: &mut Vec<Viol>, acc: &[&str], st: &[&str], f: impl Fn(&F) -> bool) {
    let k = kind(t.op);
    let has = |l: &[&str]| l.contains(&k) || l.contains(&"*");
    for v in conform_kinds(t) {
        match v.0 {
            None => {
                if has(acc) {
                    vs.push(v.1)
                }
            }
            Some(x) => {
                if has(st) && f(&x) {
                    vs.push(v.1)
                }
            }
        }
    }
}
pub fn conform_kinds(t: &T) -> Vec<(Option<F>, Viol)> {
    let mut out = vec![];
    match (t.model, t.res.ok) {
        (Ok(_), false) => out.push((
            None,
            viol(
                format!("refused:{}", kind(t.op)),
                format!("the specification accepts, the contracts refused: {}", t.res.msg),
            ),
        )),
        (Err(e), true) => out.push((
            None,
            viol(
                format!("accepted:{}", kind(t.op)),
                format!("the specification refuses ({e}), the contracts accepted"),
            ),
        )),
        (Err(_), false) => {
            if t.hash_pre != t.hash_post {
                out.push((None, viol("refusal-left-traces", "a refused operation changed the state")));
            }
        }
        (Ok(m), true) => match (normalise(m), normalise(t.post)) {
            (Ok(a), Ok(b)) => {
                for (f, s) in diff(&a, &b) {
                    let v = viol(format!("{}:{f:?}", kind(t.op)), s);
                    out.push((Some(f), v));
                }
            }
            (x, y) => {
                if x.is_ok() != y.is_ok() {
                    let v = viol("accrual", format!("{:?} / {:?}", x.err(), y.err()));
                    out.push((Some(F::Pool(0, "sidx")), v));
                }
            }
        },
    }
    out
}

// ------------------------------------------------------------ invariants
/// what a pool holds and is owed covers what it owes, up to `units` base units
pub fn inv_solvency(o: &Obs, cfg: &Cfg, units: u32, vs: &mut Vec<Viol>) {
    for (i, p) in o.pools.iter().enumerate() {
        let have = up(&p.cash, cfg.mkts[i].dec) + rmul(&p.borrowed, &p.bidx);
        let owe = rmul(&p.supplied, &p.sidx);
        let slack = p10(27 - cfg.mkts[i].dec) * units + p10(9);
        if have.clone() + slack < owe {
            vs.push(viol(
                format!("insolvent:{i}"),
                format!("holdings+claims {have} < liabilities {owe} (pool {p:?})"),
            ));
        }
    }
}
pub fn inv_sums(o: &Obs, vs: &mut Vec<Viol>) {
    for (i, p) in o.pools.iter().enumerate() {
        let mut s = p.revenue.clone();
        let mut d = B::default();
        for a in o.accts.values() {
            if let Some(x) = a.dep.get(&i) {
                s += &x.scaled;
            }
            if let Some(x) = a.bor.get(&i) {
                d += &x.scaled;
            }
        }
        if s != p.supplied {
            vs.push(viol(format!("supply-sum:{i}"), format!("deposits+revenue {s} != pool total {}", p.supplied)));
        }
        if d != p.borrowed {
            vs.push(viol(format!("debt-sum:{i}"), format!("debts {d} != pool total {}", p.borrowed)));
        }
    }
}
pub fn inv_ctrl_empty(o: &Obs, vs: &mut Vec<Viol>) {
    for (i, x) in o.ctrl_bal.iter().enumerate() {
        if *x != B::default() {
            vs.push(viol(format!("stranded:{i}"), format!("the controller retains {x}")));
        }
    }
}
/// indexes never move the wrong way
pub fn inv_monotone(t: &T, vs: &mut Vec<Viol>) {
    for (i, (p, q)) in t.pre.pools.iter().zip(&t.post.pools).enumerate() {
        if q.bidx < p.bidx {
            vs.push(viol(format!("borrow-index-fell:{i}"), format!("{} -> {}", p.bidx, q.bidx)));
        }
        if q.sidx < p.sidx && kind(t.op) != "CleanBad" {
            vs.push(viol(format!("supply-index-fell:{i}"), format!("{} -> {}", p.sidx, q.sidx)));
        }
        if q.ts < p.ts || q.ts > t.post.now * 1000 {
            vs.push(viol(format!("accrual-clock:{i}"), format!("{} -> {} at {}", p.ts, q.ts, t.post.now)));
        }
        if p.ts == q.ts && kind(t.op) != "CleanBad" && kind(t.op) != "Rewards" && (p.bidx != q.bidx || p.sidx != q.sidx) {
            vs.push(viol(format!("index-moved-without-time:{i}"), format!("{p:?} -> {q:?}")));
        }
        if p.ts == q.ts && p.bidx != q.bidx {
            vs.push(viol(format!("debt-grew-without-time:{i}"), format!("{p:?} -> {q:?}")));
        }
    }
}
/// an operation changes only the accounts it is directed at
pub fn inv_isolated_effects(t: &T, vs: &mut Vec<Viol>) {
    if !t.res.ok {
        return;
    }
    let tg = targets(t);
    for (n, a) in &t.pre.accts {
        if tg.contains(n) {
            continue;
        }
        let z = AcctObs::default();
        let y = t.post.accts.get(n).unwrap_or(&z);
        if a != y {
            vs.push(viol(format!("bystander-account:{n}"), format!("{a:?} -> {y:?}")));
        }
    }
    let me = sender(t.op);
    for u in 0..t.pre.bal.len() {
        if Some(u) == me {
            continue;
        }
        for m in 0..t.pre.pools.len() {
            if t.pre.bal[u][m] != t.post.bal[u][m] {
                vs.push(viol(
                    format!("bystander-wallet:{u}"),
                    format!("market {m}: {} -> {}", t.pre.bal[u][m], t.post.bal[u][m]),
                ));
            }
        }
    }
}

/// Economic fairness of an accepted liquidation, judged from amounts alone.
pub fn inv_liquidation(t: &T, vs: &mut Vec<Viol>, c: &mut Counters) {
    let (Op::Liquidate { u, acct, pays }, true) = (t.op, t.res.ok) else { return };
    let (Ok(n), Ok(q)) = (normalise(t.pre), normalise(t.post)) else { return };
    let z = AcctObs::default();
    let (a, x) = (&n.accts[acct], q.accts.get(acct).unwrap_or(&z));
    let (mut lost, mut repaid, mut got, mut spent, mut dust) = (b(0), b(0), b(0), b(0), b(1000));
    for m in 0..t.cfg.mkts.len() {
        let dec = t.cfg.mkts[m].dec;
        let Ok(p) = price_egld(&n, t.cfg, m) else { return };
        let amt = |s: Option<&Pos>, idx: &B| s.map(|s| rmul(&s.scaled, idx)).unwrap_or_default();
        let (d0, d1) = (amt(a.dep.get(&m), &n.pools[m].sidx), amt(x.dep.get(&m), &n.pools[m].sidx));
        let (b0, b1) = (amt(a.bor.get(&m), &n.pools[m].bidx), amt(x.bor.get(&m), &n.pools[m].bidx));
        if d1 > &d0 + 2u32 || b1 > &b0 + 2u32 {
            vs.push(viol("liquidation-grew-position", format!("market {m}: {d0} -> {d1}, debt {b0} -> {b1}")));
            return;
        }
        let unit = val_ray(&(p10(27 - dec) + b(2)), &p) + 2u32;
        dust += unit * (pays.len() as u32 + 3);
        lost += val_ray(&sub(&d0, &d1).unwrap_or_default(), &p);
        repaid += val_ray(&sub(&b0, &b1).unwrap_or_default(), &p);
        let (w0, w1) = (&t.pre.bal[*u][m], &t.post.bal[*u][m]);
        // seized tokens and payments of the same token net out in the wallet
        if w1 >= w0 {
            got += val_ray(&up(&(w1 - w0), dec), &p);
        } else {
            spent += val_ray(&up(&(w0 - w1), dec), &p);
        }
        let paid: B = pays.iter().filter(|y| y.0 == m).map(|y| y.1.clone()).sum();
        let owed = resc(&b0, 27, dec);
        if w0 > w1 && w0 - w1 > minb(&paid, &owed) {
            vs.push(viol("overpayment-kept", format!("market {m}: paid {paid}, owed {owed}, charged {}", w0 - w1)));
        }
    }
    if repaid.clone() + &dust < spent.clone().min(repaid.clone()) {
        vs.push(viol("paid-without-relief", format!("spent {spent}, debt relief {repaid}")));
    }
    // the liquidator keeps what he repaid plus a bonus; the fee is taken out of the bonus only
    if &got + &dust < spent {
        vs.push(viol("liquidator-loses", format!("spent {spent}, received {got}")));
    }
    // at most 15 per cent over the relieved debt
    if lost > &repaid * 115u32 / 100u32 + &dust {
        vs.push(viol("bonus-over-maximum", format!("collateral lost {lost}, debt relief {repaid}")));
    }
    if &lost + &dust < repaid {
        vs.push(viol("less-than-repaid-seized", format!("collateral lost {lost}, debt relief {repaid}")));
    }
    let (Ok(v0), Ok(v1)) = (values(&n, t.cfg, a), values(&q, t.cfg, x)) else { return };
    c.hit("liquidations-judged");
    // an account that can be made healthier is never made less healthy
    if let (Ok(h0), Ok(h1)) = (hf(&v0), hf(&v1)) {
        let prop = rdivr(&v0.weighted, &v0.coll).unwrap_or_default();
        if h0 > rmul(&prop, &(ray() * 115u32 / 100u32)) {
            c.hit("health-improvement-checked");
            let slack = if v0.debt > dust.clone() { rdivr(&dust, &v0.debt).unwrap_or_default() * 4u32 } else { ray() };
            if &h1 + &slack < h0 {
                vs.push(viol("health-worsened", format!("{h0} -> {h1}")));
            }
        }
        // nobody is liquidated far beyond what restores health
        let restored = ray() * 103u32 / 100u32;
        if h1 > restored && !v1.debt.is_zero() && v1.debt > &dust * 1000u32 {
            vs.push(viol("over-liquidated", format!("health {h0} -> {h1} with debt {}", v1.debt)));
        }
    }
}

/// With constant prices and no accrual the recorded debt of an isolated asset
/// is the debt of its accounts, up to a dollar of cleared dust per operation.
pub fn inv_iso_exact(t: &T, vs: &mut Vec<Viol>, c: &mut Counters) {
    let o = t.post;
    let mut owed: Vec<B> = vec![b(0); o.pools.len()];
    for a in o.accts.values() {
        if !a.isolated {
            continue;
        }
        let Some(m) = t.cfg.mkts.iter().position(|m| Some(m.tok) == a.iso_tok.as_deref()) else { continue };
        if let Ok(v) = values(o, t.cfg, a) {
            owed[m] += usd_of(&v.debt, o);
        }
    }
    for (m, w) in owed.iter().enumerate() {
        let have = &o.iso_debt[m];
        if !w.is_zero() {
            c.hit("tracker-compared");
        }
        let eps = p10(13);
        if *have > w + &eps || *w > have + wad() * (t.depth as u32) + &eps {
            vs.push(viol(format!("tracker:{m}"), format!("recorded {have}, owed {w}")));
        }
    }
}
