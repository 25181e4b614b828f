//! At one moment operations move no value between people: what somebody owns in
//! a token is what is in the wallet plus deposits less debts.

use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use num_bigint::BigInt;
use num_traits::Zero;

fn i(x: &B) -> BigInt {
    BigInt::from(x.clone())
}
/// in RAY, of user `u`, per market
fn owns(o: &Obs, cfg: &Cfg, u: usize, m: usize) -> BigInt {
    let mut w = i(&up(&o.bal[u][m], cfg.mkts[m].dec));
    for a in o.accts.values().filter(|a| a.active && a.holder == Some(u)) {
        if let Some(p) = a.dep.get(&m) {
            w += i(&amt_ray(p, &o.pools[m], false));
        }
        if let Some(p) = a.bor.get(&m) {
            w -= i(&amt_ray(p, &o.pools[m], true));
        }
    }
    w
}

pub fn unmoved(t: &mut T, vs: &mut Vec<Viol>, c: &mut Counters) {
    if !t.res.ok || t.hash_pre == t.hash_post {
        return;
    }
    // the environment's own
    if matches!(t.op, Op::Advance { .. } | Op::Price { .. } | Op::EgldPrice { .. } | Op::Xfer { .. }) {
        return;
    }
    // a change of terms does not change what is owned either; its sender is the owner
    let (Ok(a), Ok(z)) = (normalise(t.pre), normalise(t.post)) else { return };
    let cfg = t.cfg;
    let tg = targets(t);
    let mut party: Vec<usize> = sender(t.op).into_iter().collect();
    for n in &tg {
        for o in [&a, &z] {
            party.extend(o.accts.get(n).and_then(|x| x.holder));
        }
    }
    party.sort();
    party.dedup();
    party.retain(|u| *u < cfg.users);
    let none = B::zero();
    let gift = matches!(t.op, Op::Rewards { .. });
    let write_off = matches!(t.op, Op::CleanBad { .. });
    for m in 0..cfg.mkts.len() {
        let unit = i(&p10(27 - cfg.mkts[m].dec));
        if a.pools[m].bidx.is_zero() || z.pools[m].bidx.is_zero() {
            continue;
        }
        // a share is worth a little more than a ray once indexes have grown
        let ulp: BigInt = i(&((&z.pools[m].bidx + &z.pools[m].sidx) / ray())) + 2;
        let mut group = BigInt::zero();
        for u in 0..cfg.users {
            let d = owns(&z, cfg, u, m) - owns(&a, cfg, u, m);
            if party.contains(&u) {
                group += d;
            } else if gift {
                c.hit("bystanders-of-rewards");
                if d < -ulp.clone() {
                    vs.push(viol("lost-by-rewards", format!("user {u} market {m}: {d}")));
                }
            } else if write_off {
                c.hit("bystanders-of-write-offs");
                if d > ulp {
                    vs.push(viol("gained-from-write-off", format!("user {u} market {m}: {d}")));
                }
            } else {
                c.hit("bystanders-checked");
                if d > ulp || d < -ulp.clone() {
                    vs.push(viol("bystander", format!("user {u} market {m} by {}: {d}", kind(t.op))));
                }
            }
        }
        if write_off || gift {
            continue;
        }
        // what the stand-in (swap router, flash receiver) gave or took is not the protocol's
        let env = i(&up(&z.env_bal[m], cfg.mkts[m].dec)) - i(&up(&a.env_bal[m], cfg.mkts[m].dec));
        group += env;
        c.hit("parties-checked");
        let reserve = |o: &Obs| i(&rmul(&o.pools[m].revenue, &o.pools[m].sidx)) + i(&up(&o.accu_bal[m], cfg.mkts[m].dec));
        let kept = reserve(&z) - reserve(&a);
        // only closing a position or paying out the reserve rounds, by at most half a base unit
        let has = |o: &Obs, n: u64, kind: u8| {
            o.accts.get(&n).is_some_and(|x| if kind == 1 { x.dep.contains_key(&m) } else { x.bor.contains_key(&m) })
        };
        let closed = tg.iter().flat_map(|n| [(*n, 1u8), (*n, 2)]).filter(|(n, k)| has(&a, *n, *k) && !has(&z, *n, *k)).count() + matches!(t.op, Op::Claim { .. }) as usize;
        let slack: BigInt = &unit / 2 * closed + &ulp * 4 + 1;
        if group > slack {
            vs.push(viol("free-money", format!("{:?} market {m}: {group}", t.op)));
        }
        if -&group > &kept + &slack {
            vs.push(viol("lost-money", format!("{:?} market {m}: party {group}, reserve {kept}", t.op)));
        }
        if &kept + &group > slack || kept.clone() < -slack.clone() {
            vs.push(viol("reserve", format!("{:?} market {m}: reserve {kept}, party {group}", t.op)));
        }
        let fee = match t.op {
            Op::Multiply { amt, debt, .. } if *debt == m => Some(amt),
            Op::SwapDebt { amt, new, .. } if *new == m => Some(amt),
            Op::Multiply { .. } | Op::SwapDebt { .. } => Some(&none),
            _ => None,
        };
        if let Some(x) = fee {
            let f = i(&up(&(x * &a.mk[m].ffee / 10_000u32), cfg.mkts[m].dec));
            c.hit("fees-checked");
            if kept > &f + &unit || kept.clone() + &unit < f {
                vs.push(viol("fee", format!("{:?} market {m}: reserve {kept}, fee {f}", t.op)));
            }
        }
        if !matches!(kind(t.op), "Flash" | "Multiply" | "SwapDebt" | "Liquidate") && kept > slack {
            vs.push(viol("unannounced-fee", format!("{:?} market {m}: {kept}", t.op)));
        }
    }
}
