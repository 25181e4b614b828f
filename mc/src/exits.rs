//! From every state that operations lead to, everybody can still get out: debts
//! can be repaid in full, deposits withdrawn in full, revenue claimed.

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use num_traits::Zero;

fn worth(o: &Obs, cfg: &Cfg, p: &Pos, m: usize) -> B {
    resc(&amt_ray(p, &o.pools[m], p.kind == 2), 27, cfg.mkts[m].dec)
}

/// Plays the exit on the deployment at hand and puts the state back.
pub fn everyone(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    if !t.res.ok || t.hash_pre == t.hash_post {
        return;
    }
    let here = t.l.w.snapshot();
    for last_first in [false, true] {
        leave(t, last_first, vs, c);
        t.l.w.restore(&here);
    }
}

fn leave(t: &mut T, last_first: bool, vs: &mut Vec<Viol>, c: &mut Counters) {
    let (cfg, nm) = (t.cfg, t.cfg.mkts.len());
    if t.post.paused {
        t.l.owner_ok("unpause", vec![]);
    }
    let Ok(o) = normalise(t.post) else { return };
    let mut who = live(&o);
    if last_first {
        who.reverse();
    }
    // debts
    for (n, h) in &who {
        let ms: Vec<usize> = o.accts[n].bor.keys().cloned().collect();
        for m in ms {
            let owed = worth(&o, cfg, &o.accts[n].bor[&m], m);
            let pay = &owed + 1u32;
            let u = t.l.users[*h].clone();
            t.l.w.mint(&u, cfg.mkts[m].tok, pay.clone());
            let had = t.l.w.balance(&u, cfg.mkts[m].tok);
            let r = t.l.exec(&rp(*h, *n, m, pay));
            c.hit("debts-repaid-in-full");
            if !r.ok {
                vs.push(viol("exit:repay", format!("account {n} market {m} owed {owed}: {}", r.msg)));
                return;
            }
            let spent = had - t.l.w.balance(&u, cfg.mkts[m].tok);
            if spent > &owed + 1u32 {
                vs.push(viol("exit:overcharged", format!("account {n} market {m} owed {owed}, charged {spent}")));
            }
        }
    }
    let mid = t.l.obs();
    for (n, a) in &mid.accts {
        if a.active && !a.bor.is_empty() {
            vs.push(viol("exit:debt-left", format!("account {n}: {:?}", a.bor)));
            return;
        }
    }
    // every amount is rounded to a unit of its token, half up: allow a missing unit
    // per operation and position, since nobody's rounding has to be somebody's loss
    let slack = b((t.depth + 8 + o.accts.values().map(|a| a.dep.len() + a.bor.len()).sum::<usize>()) as u128);
    // deposits
    for (n, h) in &who {
        let ms: Vec<usize> = o.accts[n].dep.keys().cloned().collect();
        for m in ms {
            let due = worth(&o, cfg, &o.accts[n].dep[&m], m);
            let u = t.l.users[*h].clone();
            let had = t.l.w.balance(&u, cfg.mkts[m].tok);
            let (pool, tok) = (t.l.pools[m].clone(), cfg.mkts[m].tok);
            let idle = t.l.w.balance(&pool, tok);
            if idle < due && &idle + &slack >= due {
                t.l.w.mint(&pool, tok, &due - &idle);
                c.hit("rounding-units-lent");
            }
            let r = t.l.exec(&wd(*h, *n, m, huge()));
            c.hit("deposits-withdrawn-in-full");
            if !r.ok {
                vs.push(viol("exit:withdraw", format!("account {n} market {m} due {due}: {}", r.msg)));
                return;
            }
            let got = t.l.w.balance(&u, cfg.mkts[m].tok) - had;
            if got != due {
                vs.push(viol("exit:short", format!("account {n} market {m}: due {due}, got {got}")));
            }
        }
    }
    let r = t.l.exec(&Op::Claim { u: OWNER, ms: (0..nm).collect() });
    if !r.ok {
        vs.push(viol("exit:claim", r.msg));
        return;
    }
    let end = t.l.obs();
    for (n, a) in &end.accts {
        // (an account emptied by a liquidation stays open until it is used again)
        let had = o.accts.get(n).is_some_and(|x| !x.dep.is_empty());
        if a.active && (had || !a.dep.is_empty() || !a.bor.is_empty()) {
            vs.push(viol("exit:account-left", format!("account {n}: {a:?}")));
        }
    }
    c.hit("markets-emptied");
    for m in 0..nm {
        let q = &end.pools[m];
        let left = resc(&rmul(&q.borrowed, &q.bidx), 27, cfg.mkts[m].dec);
        let owing = resc(&rmul(&q.supplied, &q.sidx), 27, cfg.mkts[m].dec);
        if !left.is_zero() {
            vs.push(viol("exit:phantom-debt", format!("market {m}: {left} owed by nobody")));
        }
        if q.supplied > q.revenue && !owing.is_zero() && owing > b(1) {
            vs.push(viol("exit:phantom-deposit", format!("market {m}: {owing} owned by nobody, reserve {}", q.revenue)));
        }
    }
}
