//! Finite spaces of independent cases, enumerated completely on the contracts.

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::props::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use std::sync::Arc;

fn grid(name: &str, f: impl Fn(&mut GridOut) + Send + Sync + 'static) -> Grid {
    Grid { name: name.into(), run: Arc::new(f) }
}
impl GridOut {
    pub fn fail(&mut self, grid: &str, kind: impl Into<String>, detail: impl Into<String>) {
        let kind = kind.into();
        if self.only.as_ref().is_some_and(|k| *k != kind) || self.bad.len() >= 20 {
            return;
        }
        self.bad.push(Found { scenario: grid.into(), ops: vec![], v: viol(kind, detail) });
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s());
        }
    }
}

/// ManagedDecimal with `scale` decimals, nested or top encoded
pub fn e_dec(v: &B, scale: u32) -> Vec<u8> {
    let mut x = n_big(v);
    x.extend(scale.to_be_bytes());
    x
}
fn put_dec(l: &mut L, m: usize, key: &str, v: &B, scale: u32) {
    let p = l.pools[m].clone();
    l.w.set_storage(&p, key.as_bytes().to_vec(), e_dec(v, scale));
}
pub fn put_pool(l: &mut L, m: usize, o: &PoolObs) {
    put_dec(l, m, "supplied", &o.supplied, 27);
    put_dec(l, m, "borrowed", &o.borrowed, 27);
    put_dec(l, m, "revenue", &o.revenue, 27);
    put_dec(l, m, "borrow_index", &o.bidx, 27);
    put_dec(l, m, "supply_index", &o.sidx, 27);
    let p = l.pools[m].clone();
    l.w.set_storage(&p, b"last_timestamp".to_vec(), a_u64(o.ts));
}
pub fn put_params(l: &mut L, m: usize, p: &PoolParams) {
    let mut v = vec![];
    for x in [&p.max, &p.base, &p.s1, &p.s2, &p.s3, &p.mid, &p.opt] {
        v.extend(e_dec(x, 27));
    }
    v.extend(e_dec(&p.rf, 4));
    v.extend(n_bytes(key_tok(l.tok(m)).as_bytes()));
    v.extend(p.dec.to_be_bytes());
    let a = l.pools[m].clone();
    l.w.set_storage(&a, b"params".to_vec(), v);
}
/// max, base, s1, s2, s3, mid, opt, rf in bps
fn pp(x: [u64; 8], dec: u32) -> PoolParams {
    let r = |v: u64| bps_r(&B::from(v));
    PoolParams {
        max: r(x[0]),
        base: r(x[1]),
        s1: r(x[2]),
        s2: r(x[3]),
        s3: r(x[4]),
        mid: r(x[5]),
        opt: r(x[6]),
        rf: x[7].into(),
        dec,
    }
}
fn param_sets(dec: u32, th: bool) -> Vec<(&'static str, PoolParams)> {
    let mut v = vec![
        ("default", pp([30_000, 100, 500, 2_000, 10_000, 6_500, 8_000, 2_000], dec)),
        ("zero-base", pp([10_000, 0, 400, 900, 7_500, 4_000, 9_000, 1_000], dec)),
        ("flat", pp([20_000, 300, 0, 0, 0, 5_000, 8_000, 500], dec)),
        ("capped-early", pp([800, 100, 5_000, 10_000, 50_000, 3_000, 6_000, 2_500], dec)),
        ("no-reserve", pp([40_000, 50, 900, 1_800, 25_000, 2_000, 5_000, 0], dec)),
        ("max-reserve", pp([12_500, 1, 250, 475, 15_000, 1, 9_999, 9_999], dec)),
    ];
    if th {
        v.push(("narrow-kinks", pp([90_000, 10, 3, 70_000, 7, 5_000, 5_001, 3_333], dec)));
        v.push(("steep", pp([1_000_000, 700, 20_000, 90_000, 900_000, 100, 200, 777], dec)));
        v.push(("high-base", pp([50_001, 50_000, 1, 1, 1, 2_500, 7_500, 1_234], dec)));
        for (i, base) in [0u64, 7, 450].iter().enumerate() {
            for (j, (mid, opt)) in [(1_000u64, 2_000u64), (4_500, 9_500), (8_000, 8_500)].iter().enumerate() {
                for rf in [0u64, 1, 5_000] {
                    v.push((
                        "mesh",
                        pp([base + 15_000, *base, 333 * (i as u64 + 1), 777 * (j as u64 + 1), 22_222, *mid, *opt, rf], dec),
                    ));
                }
            }
        }
    }
    v
}
fn utils(p: &PoolParams, th: bool) -> Vec<B> {
    let r = ray();
    let mut v = vec![b(0), b(1), p10(9), p10(18), r.clone(), &r - 1u32, &r + 1u32, &r * 3u32 / 2u32, &r * 2u32, &r * 11u32 / 10u32];
    for k in [&p.mid, &p.opt] {
        for d in [b(0), b(1), p10(10), p10(20)] {
            v.push(k + &d);
            if *k > d {
                v.push(k - &d);
            }
        }
    }
    let n = if th { 1000u32 } else { 100 };
    for i in 1..n {
        v.push(&r * i / n);
    }
    v.sort();
    v.dedup();
    v
}
fn base_l() -> L {
    L::new(Cfg::new(three(), 3))
}

/// C04: the interest-rate curve, seen through the pool's own rate views
pub fn rates() -> Grid {
    const G: &str = "rate-curve";
    grid(G, |out| {
        let mut l = base_l();
        let m = 1;
        let th = out.thorough;
        for (name, prm) in param_sets(6, th) {
            put_params(&mut l, m, &prm);
            for (ib, is) in [(ray(), ray()), (ray() * 17u32 / 10u32, ray() * 6u32 / 5u32)] {
                let unit = ib == ray();
                let mut prev: Option<(B, B)> = None;
                for u in utils(&prm, th) {
                    let st = PoolObs {
                        supplied: ray() * 1_000_000u32,
                        borrowed: &u * 1_000_000u32,
                        revenue: b(0),
                        bidx: ib.clone(),
                        sidx: is.clone(),
                        ts: T0 * 1000,
                        cash: b(0),
                    };
                    put_pool(&mut l, m, &st);
                    out.cases += 1;
                    let (gu, gb, gd) = (l.qp(m, "capitalUtilisation"), l.qp(m, "borrowRate"), l.qp(m, "depositRate"));
                    let at = format!("{name} u={u} indices {ib}/{is}");
                    let wu = pool_util(&st).unwrap();
                    if gu != wu {
                        out.fail(G, "utilization", format!("{at}: {gu}, specified {wu}"));
                    }
                    let wb = rate_per_ms(&wu, &prm).unwrap();
                    if gb != wb {
                        out.fail(G, "borrow-rate", format!("{at}: {gb}, specified {wb}"));
                    }
                    let keep = ray() - bps_r(&prm.rf);
                    let wd = if wu.is_zero() { b(0) } else { rmul(&rmul(&wu, &gb), &keep) };
                    if gd != wd {
                        out.fail(G, "deposit-rate", format!("{at}: {gd}, specified {wd}"));
                    }
                    // independent of the formula
                    let cap = rdivr(&prm.max, &(B::from(YEAR_MS) * ray())).unwrap();
                    let floor = rdivr(&minb(&prm.base, &prm.max), &(B::from(YEAR_MS) * ray())).unwrap();
                    if gb > cap || gb < floor {
                        out.fail(G, "rate-bounds", format!("{at}: {gb} outside [{floor}, {cap}]"));
                    }
                    if wu <= ray() && gd > gb {
                        out.fail(G, "suppliers-earn-more-than-paid", format!("{at}: {gd} > {gb}"));
                    }
                    if let (Some((pu, pb)), true) = (&prev, unit) {
                        if gb < *pb {
                            out.fail(G, "not-monotone", format!("{at}: {gb} after {pb} at {pu}"));
                        }
                        // Lipschitz: no jump larger than the steepest slope allows
                        let gap = &u - pu;
                        let w = [&prm.mid - b(0), &prm.opt - &prm.mid, ray() - &prm.opt];
                        let s = [&prm.s1, &prm.s2, &prm.s3];
                        let steep = (0..3).filter(|i| !w[*i].is_zero()).map(|i| &gap * s[i] / &w[i] + 1u32).max().unwrap();
                        if &gb - pb > steep / B::from(YEAR_MS) + 2u32 {
                            out.fail(G, "jump", format!("{at}: {pb} -> {gb}"));
                        }
                    }
                    prev = Some((u.clone(), gb.clone()));
                    out.accepted += 1;
                    out.counters.hit(if wu < prm.mid { "below-mid" } else if wu < prm.opt { "mid-to-optimal" } else { "above-optimal" });
                    out.sample(|| format!("{at}: util {gu} borrow {gb} deposit {gd}"));
                }
            }
        }
    })
}

/// Taylor sum of e^x (x in RAY) with many terms, as an upper estimate
fn exp_hi(x: &B) -> B {
    let k = p10(20);
    let one = ray() * &k;
    let mut t = one.clone();
    let mut s = one;
    for n in 1u32..400 {
        t = t * x / (ray() * n);
        if t.is_zero() {
            break;
        }
        s += &t;
    }
    s / k + 2u32
}

/// C03: accrual from every (parameters, utilization, indices, elapsed time)
pub fn accrual() -> Grid {
    const G: &str = "accrual-grid";
    grid(G, |out| {
        let m = 1;
        let th = out.thorough;
        let us_: Vec<B> = if th { (0..=20u32).map(|i| ray() * i / 20u32).chain([ray() * 5u32 / 4u32, b(1)]).collect() } else {
            [0u32, 10, 50, 65, 80, 95, 100, 125].iter().map(|i| ray() * *i / 100u32).collect()
        };
        let mut dts: Vec<u64> = vec![0, 1, 6, 3_600, DAY, 30 * DAY, YEAR, 3 * YEAR, 20 * YEAR];
        if th {
            dts.extend([2, 3, 59, 61, 7 * DAY, 100 * DAY, 2 * YEAR, 5 * YEAR, 10 * YEAR]);
        }
        let jobs: Vec<(&'static str, PoolParams)> = param_sets(6, th);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let outs: Vec<GridOut> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads().min(jobs.len()))
                .map(|_| {
                    s.spawn(|| {
                        let mut out = GridOut { thorough: th, ..Default::default() };
                        let mut l = base_l();
                        let root = l.w.snapshot();
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= jobs.len() {
                                break;
                            }
                            let (name, prm) = &jobs[i];
                            for u in &us_ {
                                for (ib, is) in [(ray(), ray()), (ray() * 17u32 / 10u32 + b(3), ray() * 6u32 / 5u32 + b(1)), (ray() * 2u32, p10(24))] {
                                    for sup in [ray() * 1_234_567u32, p10(22), p10(36) + b(7)] {
                                        for dt in &dts {
                                            one_accrual(&mut l, &root, &mut out, m, name, prm, u, &ib, &is, &sup, *dt, G);
                                        }
                                    }
                                }
                            }
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            out.cases += o.cases;
            out.accepted += o.accepted;
            out.counters.add(&o.counters);
            for f in o.bad {
                out.fail(G, f.v.kind, f.v.detail);
            }
            if out.samples.len() < 3 {
                out.samples.extend(o.samples);
            }
        }
    })
}
#[allow(clippy::too_many_arguments)]
fn one_accrual(
    l: &mut L,
    root: &Snap,
    out: &mut GridOut,
    m: usize,
    name: &str,
    prm: &PoolParams,
    u: &B,
    ib: &B,
    is: &B,
    sup: &B,
    dt: u64,
    g: &str,
) {
    l.w.restore(root);
    // borrowed scaled amount giving utilization u
    let owed = rmul(u, &rmul(sup, is));
    let bor = rdivr(&owed, ib).unwrap();
    let p0 = PoolObs {
        supplied: sup.clone(),
        borrowed: bor,
        revenue: sup / 100u32,
        bidx: ib.clone(),
        sidx: is.clone(),
        ts: T0 * 1000,
        cash: b(0),
    };
    put_params(l, m, prm);
    put_pool(l, m, &p0);
    let start = l.w.snapshot();
    l.w.set_now(T0 + dt);
    out.cases += 1;
    let at = format!("{name} u={u} indices {ib}/{is} supplied {sup} after {dt}s");
    let mut want = p0.clone();
    let spec = accrue(&mut want, prm, T0 + dt);
    let r = l.exec(&Op::Sync { u: 0, ms: vec![m] });
    if r.ok != spec.is_ok() {
        out.fail(g, "accrual-outcome", format!("{at}: contracts {} {}, specification {spec:?}", r.ok, r.msg));
        return;
    }
    if !r.ok {
        out.counters.hit("refused");
        return;
    }
    out.accepted += 1;
    let q = l.pool_obs(m);
    if q != want {
        out.fail(g, "accrual-state", format!("{at}: {q:?}, specified {want:?}"));
        return;
    }
    // independent bounds on the growth factor
    let util = pool_util(&p0).unwrap();
    let x = rate_per_ms(&util, prm).unwrap() * B::from(dt) * 1000u32;
    let lo = rmul(&p0.bidx, &(ray() + &x));
    if &q.bidx + 3u32 < lo {
        out.fail(g, "below-simple-interest", format!("{at}: {} < {lo}", q.bidx));
    }
    let ex = exp_hi(&x);
    let hi = rmul(&p0.bidx, &ex) + &p0.bidx / p10(26) + b(8);
    if q.bidx > hi {
        out.fail(g, "above-continuous-interest", format!("{at}: {} > {hi}", q.bidx));
    }
    if x <= ray() && &q.bidx * 1000u32 < &hi * 999u32 {
        out.fail(g, "compounding-lost", format!("{at}: {} vs {hi}", q.bidx));
    }
    // what borrowers pay is what suppliers and the reserve receive
    let paid = rmul(&q.borrowed, &q.bidx) - rmul(&p0.borrowed, &p0.bidx);
    let got = rmul(&q.supplied, &q.sidx) - rmul(&p0.supplied, &p0.sidx);
    let dd = if paid > got { &paid - &got } else { &got - &paid };
    if dd > &q.supplied / ray() + &q.sidx / ray() + b(10) {
        out.fail(g, "interest-split", format!("{at}: paid {paid}, distributed {got}"));
    }
    let fee = rmul(&(&q.revenue - &p0.revenue), &q.sidx);
    let wantfee = rmul(&paid, &bps_r(&prm.rf));
    let dd = if fee > wantfee { &fee - &wantfee } else { &wantfee - &fee };
    if dd > &q.sidx / ray() + b(4) {
        out.fail(g, "reserve-share", format!("{at}: {fee}, specified {wantfee}"));
    }
    // a second refresh in the same block does nothing
    let h = l.state_hash();
    let r2 = l.exec(&Op::Sync { u: 1, ms: vec![m, m] });
    if !r2.ok || l.state_hash() != h {
        out.fail(g, "not-idempotent", format!("{at}: {}", r2.msg));
    }
    // accruing in two steps never charges borrowers less
    if dt >= 2 && util <= ray() {
        l.w.restore(&start);
        l.w.set_now(T0 + dt / 2);
        let a = l.exec(&Op::Sync { u: 0, ms: vec![m] });
        l.w.set_now(T0 + dt);
        let c = l.exec(&Op::Sync { u: 0, ms: vec![m] });
        if a.ok && c.ok {
            out.counters.hit("split-compared");
            let s = l.pool_obs(m);
            if &s.bidx + &s.bidx / p10(20) + b(10) < q.bidx {
                out.fail(g, "refreshing-more-often-charges-less", format!("{at}: {} < {}", s.bidx, q.bidx));
            }
        } else {
            out.fail(g, "split-refused", format!("{at}: {} {}", a.msg, c.msg));
        }
    }
    out.sample(|| format!("{at}: borrow index {} supply index {}", q.bidx, q.sidx));
}

// ------------------------------------------------------------ C05
fn round_half_up(n: &B, d: &B) -> B {
    (n * 2u32 + d) / (d * 2u32)
}
fn round_half_away(n: &BigInt, d: &BigInt) -> BigInt {
    let q: BigInt = (n.abs() * 2 + d.abs()) / (d.abs() * 2);
    if n.is_negative() != d.is_negative() { -q } else { q }
}
fn top_int(b: &[u8]) -> BigInt {
    BigInt::from_signed_bytes_be(b)
}
fn a_int(x: &BigInt) -> Vec<u8> {
    if x.is_zero() { vec![] } else { x.to_signed_bytes_be() }
}

fn probe_world() -> (World, Addr, Addr) {
    let mut w = World::new();
    let u = user("u");
    w.add_account(&u);
    let p = sc("probe");
    w.add_contract(&p, "probe", &u);
    (w, u, p)
}
/// run batches of the probe endpoint `f` and hand (case, answer) to `ok`
fn batches<C: Clone>(
    out: &mut GridOut,
    g: &str,
    f: &str,
    cases: &[C],
    head: &[Vec<u8>],
    enc: impl Fn(&C) -> Vec<Vec<u8>>,
    mut check: impl FnMut(&mut GridOut, &C, &[u8]),
) {
    let (mut w, _u, p) = probe_world();
    for ch in cases.chunks(500) {
        let mut args = head.to_vec();
        for c in ch {
            args.extend(enc(c));
        }
        let r = w.query(&p, f, args);
        if !r.ok || r.vals.len() != ch.len() {
            // find the offending case
            for c in ch {
                let mut args = head.to_vec();
                args.extend(enc(c));
                let r = w.query(&p, f, args.clone());
                if !r.ok {
                    out.fail(g, format!("{f}-refused"), format!("{args:?}: {}", r.msg));
                    return;
                }
            }
            out.fail(g, format!("{f}-answers"), format!("{} answers for {} cases: {}", r.vals.len(), ch.len(), r.msg));
            return;
        }
        for (c, v) in ch.iter().zip(&r.vals) {
            out.cases += 1;
            out.accepted += 1;
            check(out, c, v);
        }
    }
}

fn mag(th: bool) -> Vec<B> {
    let mut v: Vec<B> = (0..=12u32).map(B::from).collect();
    for k in [4u32, 18, 27] {
        let x = p10(k);
        v.extend([&x / 2u32 - 1u32, &x / 2u32, &x / 2u32 + 1u32, &x - 1u32, x.clone(), &x + 1u32, &x * 3u32 / 2u32]);
    }
    v.extend([b(u64::MAX as u128), b(u128::MAX), p10(45) + b(1)]);
    if th {
        for k in [1u32, 2, 6, 9, 13, 26, 36] {
            let x = p10(k);
            v.extend([&x / 2u32, &x / 2u32 + 1u32, x.clone(), &x * 7u32 / 3u32, &x * 10u32 - 1u32]);
        }
        v.extend((13..=40u32).map(B::from));
    }
    v.sort();
    v.dedup();
    v
}

/// C05: fixed-point arithmetic on a complete small domain and at all edges
pub fn math() -> Vec<Grid> {
    type C4 = (B, u32, B, u32);
    fn domain(th: bool, prec: u32) -> Vec<C4> {
        let mut v = vec![];
        if prec <= 3 {
            let n = if th { 60u32 } else { 25 };
            for sa in 0..=prec {
                for sb in 0..=prec {
                    for a in 0..=n {
                        for c in 0..=n {
                            v.push((b(a as u128), sa, b(c as u128), sb));
                        }
                    }
                }
            }
        } else {
            let m = mag(th);
            let sc: Vec<u32> = [0u32, 4, 6, 18, 27].into_iter().filter(|s| *s <= prec).collect();
            for sa in &sc {
                for sb in &sc {
                    for a in &m {
                        for c in &m {
                            v.push((a.clone(), *sa, c.clone(), *sb));
                        }
                    }
                }
            }
        }
        v
    }
    let enc = |c: &C4| vec![a_big(&c.0), a_u64(c.1 as u64), a_big(&c.2), a_u64(c.3 as u64)];
    let mut gs = vec![];
    gs.push(grid("multiply-divide", move |out| {
        const G: &str = "multiply-divide";
        for prec in [0u32, 1, 2, 3, 18, 27] {
            let d = domain(out.thorough, prec);
            let k = |s: u32| p10(prec - s);
            batches(out, G, "mul", &d, &[a_u64(prec as u64)], enc, |out, c, v| {
                let n = &c.0 * k(c.1) * &c.2 * k(c.3);
                let w = round_half_up(&n, &p10(prec));
                if top_big(v) != w {
                    out.fail(G, "multiply", format!("{c:?} at precision {prec}: {}, exact half-up {w}", top_big(v)));
                }
                out.sample(|| format!("{c:?} * at {prec} = {w}"));
            });
            let dd: Vec<C4> = d.iter().filter(|c| !c.2.is_zero()).cloned().collect();
            batches(out, G, "div", &dd, &[a_u64(prec as u64)], enc, |out, c, v| {
                let n = &c.0 * k(c.1) * p10(prec);
                let w = round_half_up(&n, &(&c.2 * k(c.3)));
                if top_big(v) != w {
                    out.fail(G, "divide", format!("{c:?} at precision {prec}: {}, exact half-up {w}", top_big(v)));
                }
            });
        }
    }));
    gs.push(grid("signed", move |out| {
        const G: &str = "signed";
        type S4 = (BigInt, u32, BigInt, u32);
        let enc = |c: &S4| vec![a_int(&c.0), a_u64(c.1 as u64), a_int(&c.2), a_u64(c.3 as u64)];
        for prec in [0u32, 2, 3, 18, 27] {
            let mut d: Vec<S4> = vec![];
            for c in domain(out.thorough, prec) {
                for (x, y) in [(1, 1), (-1, 1), (1, -1), (-1, -1)] {
                    d.push((BigInt::from(c.0.clone()) * x, c.1, BigInt::from(c.2.clone()) * y, c.3));
                }
            }
            let k = |s: u32| BigInt::from(p10(prec - s));
            batches(out, G, "smul", &d, &[a_u64(prec as u64)], enc, |out, c, v| {
                let n = &c.0 * k(c.1) * &c.2 * k(c.3);
                let w = round_half_away(&n, &BigInt::from(p10(prec)));
                if top_int(v) != w {
                    out.fail(G, "signed-multiply", format!("{c:?} at precision {prec}: {}, exact {w}", top_int(v)));
                }
            });
            let dd: Vec<S4> = d.iter().filter(|c| !c.2.is_zero()).cloned().collect();
            batches(out, G, "sdiv", &dd, &[a_u64(prec as u64)], enc, |out, c, v| {
                let n = &c.0 * k(c.1) * BigInt::from(p10(prec));
                let w = round_half_away(&n, &(&c.2 * k(c.3)));
                if top_int(v) != w {
                    out.fail(G, "signed-divide", format!("{c:?} at precision {prec}: {}, exact {w}", top_int(v)));
                }
            });
        }
    }));
    gs.push(grid("rescale", move |out| {
        const G: &str = "rescale";
        let mut vals: Vec<B> = mag(out.thorough);
        vals.extend((0..=if out.thorough { 2_000u32 } else { 300 }).map(B::from));
        vals.sort();
        vals.dedup();
        let mut d: Vec<(B, u32, u32)> = vec![];
        for v in &vals {
            for f in [0u32, 1, 2, 3, 4, 6, 8, 18, 27] {
                for t in [0u32, 1, 2, 3, 4, 6, 8, 18, 27] {
                    d.push((v.clone(), f, t));
                }
            }
        }
        batches(
            out,
            G,
            "resc",
            &d,
            &[],
            |c| vec![a_big(&c.0), a_u64(c.1 as u64), a_u64(c.2 as u64)],
            |out, c, v| {
                let (got, sc) = top_dec(v);
                let w = if c.2 >= c.1 { &c.0 * p10(c.2 - c.1) } else { round_half_up(&c.0, &p10(c.1 - c.2)) };
                if got != w || sc != c.2 {
                    out.fail(G, "rescale", format!("{c:?}: {got} at scale {sc}, exact half-up {w}"));
                }
            },
        );
        let mut d: Vec<(B, B)> = vec![];
        for a in &vals {
            for c in vals.iter().take(60) {
                d.push((a.clone(), c.clone()));
            }
        }
        batches(
            out,
            G,
            "minmax",
            &d,
            &[],
            |c| vec![a_big(&c.0), a_big(&c.1)],
            |out, c, v| {
                let mut x = Dec::new(v);
                let (lo, hi) = (x.big(), x.big());
                if lo != *(&c.0).min(&c.1) || hi != *(&c.0).max(&c.1) {
                    out.fail(G, "min-max", format!("{c:?}: {lo} {hi}"));
                }
            },
        );
    }));
    gs
}

// ------------------------------------------------------------ C12
fn refused(out: &mut GridOut, l: &mut L, g: &str, who: &str, from: &Addr, to: &Addr, f: &str, args: &[Vec<u8>], p: &[Pay]) {
    let h = l.state_hash();
    let snap = l.w.snapshot();
    let r = l.w.call(from, to, f, args.to_vec(), p);
    out.cases += 1;
    if r.ok || l.state_hash() != h {
        out.fail(g, format!("open-to:{who}:{f}"), format!("{f} accepted from {who}"));
    }
    l.w.restore(&snap);
}
fn allowed(out: &mut GridOut, l: &mut L, g: &str, who: &str, from: &Addr, to: &Addr, f: &str, args: &[Vec<u8>], p: &[Pay]) {
    let snap = l.w.snapshot();
    let r = l.w.call(from, to, f, args.to_vec(), p);
    out.cases += 1;
    out.accepted += r.ok as u64;
    if !r.ok {
        out.fail(g, format!("closed-to:{who}:{f}"), format!("{f} refused to {who}: {}", r.msg));
    }
    out.sample(|| format!("{f} by {who}: accepted"));
    l.w.restore(&snap);
}

/// A position as the controller hands it to a pool
fn e_pos(kind: u8, tok: &str, scaled: &B, nonce: u64) -> Vec<u8> {
    let mut v = vec![kind];
    v.extend(n_bytes(key_tok(tok).as_bytes()));
    v.extend(e_dec(scaled, 27));
    v.extend(nonce.to_be_bytes());
    for x in [8_000u64, 500, 1_000, 7_500] {
        v.extend(e_dec(&B::from(x), 4));
    }
    v
}

pub fn access() -> Grid {
    const G: &str = "access";
    grid(G, |out| {
        let mut l = L::new(Cfg {
            emodes: vec![EMode { ltv: 9_000, thr: 9_300, bonus: 100, assets: vec![(0, true, true)] }],
            ..Cfg::new(three(), 3)
        });
        for op in [
            Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000))] },
            sup(0, Via::New, 0, e(10)),
            bo(0, 2, 1, us(100)),
        ] {
            let r = l.exec(&op);
            assert!(r.ok, "{op:?} {}", r.msg);
        }
        let new = mkt("NEW-123456", 18, 3_000);
        // list the oracle of a token without a pool, so that listing it can succeed
        l.set_feed("NEW", &wad());
        l.owner_ok("setTokenOracle", l.oracle_args("NEW-123456", 18, 3, 1, 1, u64::MAX));
        let other = sc("fresh");
        l.w.add_contract(&other, "env", &user("owner"));
        let paddr = sc("poolnew");
        let n = l.w.acct(&l.ctrl.clone()).nonce;
        let c = l.ctrl.clone();
        for k in 0..8 {
            l.w.state_mut().new_addresses.insert((c.clone(), n + k), paddr.clone());
        }
        let ad = |a: &Addr| vec![a_addr(a)];
        let emode_cat = {
            let mut v = vec![1u8];
            for x in [8_000u64, 8_500, 200] {
                v.extend(e_dec(&B::from(x), 4));
            }
            v.push(0);
            v
        };
        let edit_args: Vec<Vec<u8>> = vec![
            a_tok(USDC), a_u64(5_000), a_u64(6_000), a_u64(300), a_u64(100), vec![], vec![], vec![], vec![1],
            a_u64(10), vec![1], vec![1], vec![], vec![], vec![],
        ];
        let prm: Vec<Vec<u8>> = {
            let mut v = vec![a_tok(USDC)];
            for r in [30_000u64, 200, 400, 900, 9_000, 4_000, 7_000] {
                v.push(a_big(&bps_ray(r)));
            }
            v.push(a_u64(1_000));
            v
        };
        let admin: Vec<(&str, Vec<Vec<u8>>, Vec<Pay>)> = vec![
            ("setTokenOracle", l.oracle_args("ANY-123456", 18, 3, 1, 1, u64::MAX), vec![]),
            ("editTokenOracleTolerance", vec![a_tok(USDC), a_u64(300), a_u64(700)], vec![]),
            ("setAggregator", ad(&other), vec![]),
            ("setSwapRouter", ad(&other), vec![]),
            ("setAccumulator", ad(&other), vec![]),
            ("setSafePriceView", ad(&other), vec![]),
            ("setLiquidityPoolTemplate", ad(&other), vec![]),
            ("addEModeCategory", vec![a_u64(5_000), a_u64(6_000), a_u64(100)], vec![]),
            ("editEModeCategory", vec![emode_cat], vec![]),
            ("removeEModeCategory", vec![a_u64(1)], vec![]),
            ("addAssetToEModeCategory", vec![a_tok(USDC), a_u64(1), vec![1], vec![1]], vec![]),
            ("editAssetInEModeCategory", vec![a_tok(EGLD), a_u64(1), vec![1, 0]], vec![]),
            ("removeAssetFromEModeCategory", vec![a_tok(EGLD), a_u64(1)], vec![]),
            ("editAssetConfig", edit_args, vec![]),
            ("setPositionLimits", vec![a_u64(3), a_u64(4)], vec![]),
            ("createLiquidityPool", L::pool_args(&new), vec![]),
            ("upgradeLiquidityPoolParams", prm, vec![]),
            ("addRewards", vec![], vec![pay(USDC, us(5))]),
            ("pause", vec![], vec![]),
            ("unpause", vec![], vec![]),
        ];
        let (ctrl, owner, env, agg) = (l.ctrl.clone(), l.owner.clone(), l.env.clone(), l.agg.clone());
        l.w.mint(&owner, USDC, us(1_000));
        let pool0 = l.pools[0].clone();
        l.w.mint(&pool0, USDC, us(1_000));
        let strangers: Vec<(&str, Addr)> = vec![
            ("account holder", l.users[0].clone()),
            ("lender", l.users[1].clone()),
            ("stranger", l.users[2].clone()),
            ("a contract", env.clone()),
            ("a pool", pool0.clone()),
            ("the aggregator", agg.clone()),
            ("the controller", ctrl.clone()),
        ];
        for paused in [false, true] {
            if paused {
                l.owner_ok("pause", vec![]);
            }
            for (f, args, p) in &admin {
                for (w, a) in &strangers {
                    refused(out, &mut l, G, w, a, &ctrl, f, args, p);
                }
                allowed(out, &mut l, G, "the owner", &owner, &ctrl, f, args, p);
            }
            if paused {
                l.owner_ok("unpause", vec![]);
            }
        }
        for f in ["registerAccountToken", "upgradeLiquidityPool"] {
            for (w, a) in &strangers {
                let args = if f == "registerAccountToken" { vec![a_str("Acc"), a_str("ACC")] } else { vec![a_tok(USDC)] };
                let p = if f == "registerAccountToken" { vec![pay(EGLD, b(1))] } else { vec![] };
                refused(out, &mut l, G, w, a, &ctrl, f, &args, &p);
            }
        }
        // a pool obeys only its controller
        let pool = l.pools[1].clone();
        let price = e_dec(&wad(), 18);
        let u0 = l.users[0].clone();
        let dep = e_pos(1, USDC, &(ray() * 100_000u32), 1);
        let deb = e_pos(2, USDC, &(ray() * 100u32), 2);
        let amt = |x: u128| e_dec(&us(x), 6);
        let mut argbuf = vec![];
        for a in [a_u64(1), a_tok(USDC), a_big(&us(11)), a_addr(&u0)] {
            argbuf.extend(n_bytes(&a));
        }
        let mut prm2 = vec![];
        for r in [30_000u64, 200, 400, 900, 9_000, 4_000, 7_000] {
            prm2.push(a_big(&bps_ray(r)));
        }
        prm2.push(a_u64(1_000));
        prm2.push(price.clone());
        l.w.mint(&ctrl, USDC, us(1_000));
        let muts: Vec<(&str, Vec<Vec<u8>>, Vec<Pay>)> = vec![
            ("updateIndexes", vec![price.clone()], vec![]),
            ("supply", vec![dep.clone(), price.clone()], vec![pay(USDC, us(3))]),
            ("borrow", vec![a_addr(&u0), amt(3), deb.clone(), price.clone()], vec![]),
            ("withdraw", vec![a_addr(&u0), amt(3), dep.clone(), vec![], vec![], price.clone()], vec![]),
            ("repay", vec![a_addr(&u0), deb.clone(), price.clone()], vec![pay(USDC, us(3))]),
            ("addRewards", vec![price.clone()], vec![pay(USDC, us(3))]),
            (
                "flashLoan",
                vec![a_tok(USDC), amt(10), a_addr(&env), a_str("cb"), argbuf, e_dec(&B::from(50u32), 4), price.clone()],
                vec![],
            ),
            ("createStrategy", vec![deb.clone(), amt(3), amt(0), price.clone()], vec![]),
            ("seizePosition", vec![dep.clone(), price.clone()], vec![]),
            ("claimRevenue", vec![price.clone()], vec![]),
        ];
        let mut outsiders = strangers.clone();
        outsiders.pop();
        outsiders.push(("the protocol owner", owner.clone()));
        for (f, args, p) in &muts {
            for (w, a) in &outsiders {
                refused(out, &mut l, G, w, a, &pool, f, args, p);
            }
            allowed(out, &mut l, G, "the controller", &ctrl, &pool, f, args, p);
        }
        for f in ["updateParams"] {
            let mut a2 = prm2.clone();
            for _ in 0..2 {
                for (w, a) in &outsiders {
                    refused(out, &mut l, G, w, a, &pool, f, &a2, &[]);
                }
                a2.pop();
            }
        }
        // the price aggregator
        let oracle = user("oracle9");
        let aggs: Vec<(&str, Vec<Vec<u8>>)> = vec![
            ("addOracles", ad(&oracle)),
            ("removeOracles", vec![a_u64(1), a_addr(&oracle)]),
            ("setSubmissionCount", vec![a_u64(1)]),
            ("pause", vec![]),
            ("unpause", vec![]),
        ];
        let add = |l: &mut L, x: &Addr| {
            l.w.add_account(x);
            let (o, g) = (l.owner.clone(), l.agg.clone());
            let r = l.w.call(&o, &g, "addOracles", vec![a_addr(x)], &[]);
            assert!(r.ok, "{}", r.msg);
        };
        let o2 = user("oracle1");
        add(&mut l, &o2);
        let mut outs2 = strangers.clone();
        outs2.push(("an oracle", o2.clone()));
        for (f, args) in &aggs {
            for (w, a) in &outs2 {
                refused(out, &mut l, G, w, a, &agg, f, args, &[]);
            }
            allowed(out, &mut l, G, "the owner", &owner, &agg, f, args, &[]);
        }
        let now = l.w.now();
        let sub = vec![a_str("ABC"), a_str("USD"), a_u64(now), a_big(&wad())];
        let mut others = strangers.clone();
        others.push(("a removed oracle", {
            let x = user("oracle2");
            add(&mut l, &x);
            let r = l.w.call(&owner, &agg, "removeOracles", vec![a_u64(1), a_addr(&x)], &[]);
            assert!(r.ok, "{}", r.msg);
            x
        }));
        for f in ["submit", "submitBatch"] {
            for (w, a) in &others {
                refused(out, &mut l, G, w, a, &agg, f, &sub, &[]);
            }
            allowed(out, &mut l, G, "an oracle", &o2, &agg, f, &sub, &[]);
        }
    })
}

// ------------------------------------------------------------ C24
pub fn listing() -> Grid {
    const G: &str = "listing";
    grid(G, |out| {
        let mut l = base_l();
        let (ctrl, owner) = (l.ctrl.clone(), l.owner.clone());
        let tok = "NEW-123456";
        l.set_feed("NEW", &wad());
        let paddr = sc("poolnew");
        let n = l.w.acct(&ctrl).nonce;
        for k in 0..8 {
            l.w.state_mut().new_addresses.insert((ctrl.clone(), n + k), paddr.clone());
        }
        let good = mkt(tok, 18, 3_000);
        // no oracle yet
        refused(out, &mut l, G, "no oracle", &owner, &ctrl, "createLiquidityPool", &L::pool_args(&good), &[]);
        l.owner_ok("setTokenOracle", l.oracle_args(tok, 18, 3, 1, 1, u64::MAX));
        allowed(out, &mut l, G, "valid listing", &owner, &ctrl, "createLiquidityPool", &L::pool_args(&good), &[]);
        for m in [EGLD, USDC, XE] {
            let g = mkt(m, 18, 1_000);
            refused(out, &mut l, G, "already listed", &owner, &ctrl, "createLiquidityPool", &L::pool_args(&g), &[]);
        }
        let edge = [0u64, 1, 4_999, 5_000, 5_001, 9_999, 10_000, 10_001];
        let try_it = |out: &mut GridOut, l: &mut L, m: &Mkt, valid: bool, why: &str| {
            let a = L::pool_args(m);
            if valid {
                allowed(out, l, G, why, &owner, &ctrl, "createLiquidityPool", &a, &[]);
            } else {
                refused(out, l, G, why, &owner, &ctrl, "createLiquidityPool", &a, &[]);
            }
        };
        for x in edge {
            for y in edge {
                let mut m = good.clone();
                (m.ltv, m.thr) = (x, y);
                try_it(out, &mut l, &m, y > x, &format!("ltv {x} threshold {y}"));
                let mut m = good.clone();
                (m.rate[5], m.rate[6]) = (x, y);
                try_it(out, &mut l, &m, y > x && y < 10_000, &format!("mid {x} optimal {y}"));
                let mut m = good.clone();
                (m.rate[0], m.rate[1]) = (x, y);
                try_it(out, &mut l, &m, x > y, &format!("max rate {x} base rate {y}"));
            }
            let mut m = good.clone();
            m.rf = x;
            try_it(out, &mut l, &m, x < 10_000, &format!("reserve factor {x}"));
        }
        // oracle tolerances
        for x in [0u64, 49, 50, 51, 149, 150, 151, 4_999, 5_000, 5_001, 9_999, 10_000, 10_001] {
            for y in [0u64, 49, 50, 51, 149, 150, 151, 4_999, 5_000, 5_001, 9_999, 10_000, 10_001] {
                let valid = (50..=5_000).contains(&x) && (150..=10_000).contains(&y) && y >= x;
                let a = vec![a_tok(USDC), a_u64(x), a_u64(y)];
                let why = format!("tolerances {x}/{y}");
                if valid {
                    allowed(out, &mut l, G, &why, &owner, &ctrl, "editTokenOracleTolerance", &a, &[]);
                } else {
                    refused(out, &mut l, G, &why, &owner, &ctrl, "editTokenOracleTolerance", &a, &[]);
                }
            }
        }
        // configured addresses must be live contracts
        let z = Addr::zero();
        let u = l.users[0].clone();
        let c = sc("fresh");
        l.w.add_contract(&c, "env", &owner);
        for f in ["setAggregator", "setSwapRouter", "setAccumulator", "setSafePriceView", "setLiquidityPoolTemplate"] {
            refused(out, &mut l, G, "zero address", &owner, &ctrl, f, &[a_addr(&z)], &[]);
            refused(out, &mut l, G, "a wallet address", &owner, &ctrl, f, &[a_addr(&u)], &[]);
            allowed(out, &mut l, G, "a contract", &owner, &ctrl, f, &[a_addr(&c)], &[]);
        }
        // duplicates and unknown ids
        let a = l.oracle_args(USDC, 6, 3, 1, 1, u64::MAX);
        refused(out, &mut l, G, "oracle already set", &owner, &ctrl, "setTokenOracle", &a, &[]);
        refused(out, &mut l, G, "unknown token", &owner, &ctrl, "editTokenOracleTolerance", &[a_tok("NOPE-123456"), a_u64(200), a_u64(500)], &[]);
        for id in [1u64, 2] {
            refused(out, &mut l, G, "unknown category", &owner, &ctrl, "removeEModeCategory", &[a_u64(id)], &[]);
            refused(out, &mut l, G, "unknown category", &owner, &ctrl, "addAssetToEModeCategory", &[a_tok(USDC), a_u64(id), vec![1], vec![1]], &[]);
        }
        let mut ed: Vec<Vec<u8>> = vec![
            a_tok("NOPE-123456"), a_u64(5_000), a_u64(6_000), a_u64(300), a_u64(100), vec![], vec![], vec![], vec![1],
            a_u64(10), vec![1], vec![1], vec![], vec![], vec![],
        ];
        refused(out, &mut l, G, "unlisted asset", &owner, &ctrl, "editAssetConfig", &ed, &[]);
        ed[0] = a_tok(USDC);
        allowed(out, &mut l, G, "listed asset", &owner, &ctrl, "editAssetConfig", &ed, &[]);
    })
}

/// C29: listing a market and setting its price sources announce what is stored
pub fn announced() -> Grid {
    const G: &str = "announced";
    grid(G, |out| {
        let toks = ["NEW-123456", "OTHER-123456", "THIRD-123456", "FOURTH-123456"];
        for (i, tok) in toks.iter().enumerate() {
            let mut l = base_l();
            let ctrl = l.ctrl.clone();
            l.set_feed(&ticker(tok), &wad());
            let paddr = sc("poolnew");
            let n = l.w.acct(&ctrl).nonce;
            for k in 0..8 {
                l.w.state_mut().new_addresses.insert((ctrl.clone(), n + k), paddr.clone());
            }
            let stored = |l: &L, name: &str| {
                let mut k = name.as_bytes().to_vec();
                k.extend(n_bytes(key_tok(tok).as_bytes()));
                l.w.get_storage(&l.ctrl, &k)
            };
            let said = |r: &Res, name: &[u8]| r.logs.iter().filter(|x| x.2.first().is_some_and(|t| t == name)).last().map(|x| x.2[1..].to_vec());
            let mut same = |out: &mut GridOut, what: &str, good: bool| {
                out.cases += 1;
                out.accepted += good as u64;
                if !good {
                    out.fail(G, format!("event:{what}"), format!("{tok}: {what} does not announce what is stored"));
                }
                out.sample(|| format!("{tok}: {what}"));
            };
            let r = l.owner_ok("setTokenOracle", l.oracle_args(tok, 18, [1, 2, 3, 4][i], 1, 1, 100 + i as u64));
            let e = said(&r, b"update_asset_oracle");
            same(out, "price source", e.is_some_and(|e| canon_tok(String::from_utf8_lossy(&e[0]).to_string()) == *tok && e[1] == stored(&l, "token_oracle")));
            for (x, y) in [(50u64, 150u64), (300, 300), (5_000, 10_000)] {
                let r = l.owner_ok("editTokenOracleTolerance", vec![a_tok(tok), a_u64(x), a_u64(y)]);
                let e = said(&r, b"update_asset_oracle");
                same(out, "tolerance", e.is_some_and(|e| e[0] == a_tok(tok) && e[1] == stored(&l, "token_oracle")));
            }
            let mut m = mkt(tok, 18, 3_000);
            let k = i as u64;
            m.ltv = 5_000 + k;
            m.thr = 6_000 + k;
            m.bonus = 300 + k;
            m.rf = 1_000 + k;
            (m.iso, m.siloed, m.flash, m.isob) = (i & 1 == 1, i & 2 == 2, i & 1 == 0, i < 2);
            m.ceiling_usd = if m.iso { 1_000 + k } else { 0 };
            let args = L::pool_args(&m);
            let r = l.owner_ok("createLiquidityPool", args.clone());
            let e = said(&r, b"create_market_params");
            let good = e.is_some_and(|e| {
                e[0] == a_tok(tok)
                    && e[1..9] == args[1..9]
                    && Some(&e[9]) == r.vals.first()
                    && e[10] == stored(&l, "asset_config")
                    && !e[10].is_empty()
                    && stored(&l, "pools_map") == e[9]
            });
            same(out, "new market", good);
        }
    })
}
