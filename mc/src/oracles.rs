//! Price resolution: which price the protocol uses, and when it refuses to use one (C18, C25).

use crate::alpha::*;
use crate::engine::*;
use crate::lending::*;
use crate::model::*;
use crate::oracle::*;
use crate::props::*;
use crate::world::*;
use num_traits::{ToPrimitive, Zero};
use std::sync::Arc;

const WEGLD: &str = "WEGLD-ffffff";

/// evaluate independent cases on all cores, each worker with its own deployment
pub fn par<C: Sync, X>(out: &mut GridOut, cases: &[C], mk: impl Fn() -> X + Sync, f: impl Fn(&mut X, &C, &mut GridOut) + Sync) {
    let nt = threads().min(cases.len().max(1));
    let (th, only) = (out.thorough, out.only.clone());
    let rs: Vec<std::thread::Result<GridOut>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|k| {
                let (mk, f, only) = (&mk, &f, only.clone());
                s.spawn(move || {
                    let mut o = GridOut { thorough: th, only, ..Default::default() };
                    let mut x = mk();
                    for c in cases.iter().skip(k).step_by(nt) {
                        f(&mut x, c, &mut o);
                        if o.bad.len() >= 20 {
                            break;
                        }
                    }
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for r in rs {
        match r {
            Err(p) => std::panic::resume_unwind(p),
            Ok(o) => {
                out.cases += o.cases;
                out.accepted += o.accepted;
                out.bad.extend(o.bad);
                out.counters.add(&o.counters);
                if out.samples.len() < 4 {
                    out.samples.extend(o.samples.into_iter().take(1));
                }
            }
        }
    }
}

/// One executed operation compared with the specification, at resolved prices
/// `over` (EGLD per token, 18 decimals); the chain is put back afterwards.
pub struct J {
    pub ok: bool,
    pub msg: String,
    pub same: bool,
    pub vs: Vec<Viol>,
}
pub fn judge(l: &mut L, op: &Op, over: &[(usize, B)]) -> J {
    let cfg = l.cfg.clone();
    let fix = |o: &mut Obs| {
        for (m, p) in over {
            o.prices[*m] = p * &o.egld_usd / wad();
        }
    };
    let snap = l.w.snapshot();
    let h0 = l.state_hash();
    let mut pre = l.obs();
    fix(&mut pre);
    let model = Ctx::new(&cfg).step(&pre, op);
    let res = l.exec(op);
    let h1 = l.state_hash();
    let mut post = l.obs();
    fix(&mut post);
    let t = T {
        cfg: &cfg,
        pre: &pre,
        op,
        res: &res,
        post: &post,
        model: &model,
        hash_pre: h0,
        hash_post: h1,
        depth: 0,
        l,
        before: None,
    };
    let vs = conform(&t);
    l.w.restore(&snap);
    J { ok: res.ok, msg: res.msg.clone(), same: h0 == h1, vs }
}

// ------------------------------------------------------------ setting the scene
#[derive(Clone, Debug)]
pub struct Ora {
    pub tok: &'static str,
    pub dec: u32,
    pub method: u64,
    pub typ: u64,
    pub source: u64,
    pub tol: (u64, u64),
    pub stale: u64,
    pub pair: Addr,
    pub onedex: Option<u64>,
}
pub fn set_oracle(l: &mut L, o: &Ora) -> Res {
    let c = l.ctrl.clone();
    let mut k = b"token_oracle".to_vec();
    k.extend(n_bytes(key_tok(o.tok).as_bytes()));
    l.w.set_storage(&c, k, vec![]);
    let mut a = vec![
        a_tok(o.tok),
        a_u64(o.dec as u64),
        a_addr(&o.pair),
        a_u64(o.method),
        a_u64(o.typ),
        a_u64(o.source),
        a_u64(o.tol.0),
        a_u64(o.tol.1),
        a_u64(o.stale),
    ];
    if let Some(x) = o.onedex {
        a.push(a_u64(x));
    }
    let (ow, c) = (l.owner.clone(), l.ctrl.clone());
    let r = l.w.call(&ow, &c, "setTokenOracle", a, &[]);
    assert!(r.ok, "setTokenOracle {o:?}: {}", r.msg);
    r
}
/// an exchange pair contract
fn pair(l: &mut L, name: &str, first: &str, second: &str) -> Addr {
    let p = sc(name);
    let ow = l.owner.clone();
    l.w.add_contract(&p, "env", &ow);
    l.w.set_storage(&p, b"m_first".to_vec(), first.as_bytes().to_vec());
    l.w.set_storage(&p, b"m_second".to_vec(), second.as_bytes().to_vec());
    set_state(l, &p, None, 1);
    p
}
fn set_state(l: &mut L, p: &Addr, onedex: Option<u64>, s: u8) {
    let k = match onedex {
        None => b"state".to_vec(),
        Some(id) => {
            let mut k = b"pair_state".to_vec();
            k.extend((id as u32).to_be_bytes());
            k
        }
    };
    l.w.set_storage(p, k, if s == 0 { vec![] } else { vec![s] });
}
/// time-weighted price: one whole `tok` is worth `amount` of `out_tok`
fn set_safe(l: &mut L, at: &Addr, tok: &str, dec: u32, out_tok: &str, amount: &B, pair: Option<&Addr>) {
    let key = |k: &str| {
        let mut v = k.as_bytes().to_vec();
        v.extend(n_bytes(tok.as_bytes()));
        v
    };
    l.w.set_storage(at, key("m_sp_out"), out_tok.as_bytes().to_vec());
    l.w.set_storage(at, key("m_sp_rate"), amount.to_bytes_be());
    l.w.set_storage(at, key("m_sp_unit"), p10(dec).to_bytes_be());
    if let Some(p) = pair {
        l.w.set_storage(at, key("m_sp_pair"), p.as_bytes().to_vec());
    }
}
fn set_feed_aged(l: &mut L, ticker: &str, usd: &B, age: u64) {
    let n = l.w.now();
    l.w.set_now(n - age);
    l.set_feed(ticker, usd);
    l.w.set_now(n);
}
fn half(n: &B, d: &B) -> B {
    (n + d / 2u32) / d
}
fn grid(name: &str, f: impl Fn(&mut GridOut) + Send + Sync + 'static) -> Grid {
    Grid { name: name.into(), run: Arc::new(f) }
}

// ------------------------------------------------------------ the rule
/// (within first, within second) of safe/aggregator
fn bands(agg: &B, safe: &B, tol: (u64, u64)) -> Option<(bool, bool)> {
    let one = half(&(safe * 10_000u32), agg);
    let two = half(&half(&(safe * ray()), agg), &p10(23));
    let inside = |r: &B, t: u64| {
        let up = b(10_000 + t as u128);
        *r <= up && *r >= half(&b(100_000_000), &up)
    };
    let a = (inside(&one, tol.0), inside(&one, tol.1));
    // a ratio so close to a tie that rounding in two steps decides is left out
    if a != (inside(&two, tol.0), inside(&two, tol.1)) { None } else { Some(a) }
}
fn agg_price(usd: &B, egld: &B) -> Option<B> {
    let a = half(&(usd * wad()), egld);
    let c = half(&half(&(usd * ray()), egld), &p10(9));
    if a == c { Some(a) } else { None }
}

// ------------------------------------------------------------ grid 1
#[derive(Clone, Debug)]
enum RC {
    /// both sources: tolerances, USD feed, EGLD price of the exchange, exchange
    Mix { tol: (u64, u64), usd: B, safe: B, ex: u8 },
    /// aggregator alone
    Agg { usd: B, egld: B },
    /// exchange alone, quoted in WEGLD (None) or in XEGLD at that price
    Safe { amount: B, quote: Option<B>, ex: u8 },
    /// liquid staking: source and rate, and the price of the staked token
    Derived { source: u64, rate: B, base_usd: B },
}
fn res_base() -> L {
    let mut l = L::new(Cfg::new(three(), 3));
    for op in [
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000))] },
        sup(0, Via::New, 0, e(10)),
        bo(0, 2, 1, us(10)),
    ] {
        let r = l.exec(&op);
        assert!(r.ok, "{op:?}: {}", r.msg);
    }
    l
}
/// answers of getAllMarketIndexes for one market
struct Comp {
    fin: B,
    usd: B,
    safe: B,
    agg: B,
    flags: (bool, bool),
}
fn components(l: &mut L, m: usize) -> Result<Comp, String> {
    let a = a_tok(l.tok(m));
    let r = l.q("getAllMarketIndexes", vec![a]);
    if !r.ok {
        return Err(r.msg);
    }
    let mut d = Dec::new(&r.vals[0]);
    let _ = d.string();
    let _ = (d.dec(), d.dec());
    let (fin, usd) = (d.dec().0, d.dec().0);
    let (safe, _su) = (d.dec().0, d.dec().0);
    let (agg, _au) = (d.dec().0, d.dec().0);
    Ok(Comp { fin, usd, safe, agg, flags: (d.u8() != 0, d.u8() != 0) })
}
fn dec_view(l: &mut L, f: &str, m: usize) -> Result<B, String> {
    let a = a_tok(l.tok(m));
    let r = l.q(f, vec![a]);
    if r.ok { Ok(top_dec(&r.vals[0]).0) } else { Err(r.msg) }
}

/// every history of switching the price source and the safe-price view
pub fn wiring() -> Grid {
    grid("price-wiring", |out| {
        const G: &str = "price-wiring";
        let depth = if out.thorough { 6 } else { 5 };
        let mut l = {
            let mut cfg = Cfg::new(three(), 3);
            cfg.alt = true;
            L::new(cfg)
        };
        let p = pair(&mut l, "venue", XE, "WEGLD-123456");
        for (a, r) in [(l.env.clone(), 1_250u128), (sc("view2"), 1_750)] {
            set_safe(&mut l, &a, XE, 18, "WEGLD-123456", &me(r), None);
        }
        let o = Ora { tok: XE, dec: 18, method: 1, typ: 1, source: 1, tol: (200, 500), stale: 9_000, pair: p, onedex: None };
        set_oracle(&mut l, &o);
        let root = l.w.snapshot();
        let n = 6usize.pow(depth as u32);
        for mut code in 0..n {
            l.w.restore(&root);
            let (mut agg, mut view) = (0u8, 0u8);
            let mut hist = vec![];
            for _ in 0..depth {
                let (what, to) = [(0usize, 0u8), (0, 1), (4, 0), (4, 1), (2, 1), (1, 1)][code % 6];
                code /= 6;
                hist.push((what, to));
                let r = l.exec(&Op::Wire { u: crate::model::OWNER, what, to });
                if !r.ok {
                    out.fail(G, "refused", format!("{hist:?}: {}", r.msg));
                }
                match what {
                    0 => agg = to,
                    4 => view = to,
                    _ => {}
                }
            }
            out.cases += 1;
            out.accepted += 1;
            let egld = wad() * [40u32, 30][agg as usize];
            let usdc = [wad(), wad() * 9u32 / 10u32][agg as usize].clone();
            let want_e = me([1_250u128, 1_750][view as usize]);
            for (m, e, u) in [(2usize, want_e.clone(), half(&(&want_e * &egld), &wad())), (1, half(&(&usdc * wad()), &egld), usdc.clone())] {
                let got = (dec_view(&mut l, "getTokenPriceEGLD", m), dec_view(&mut l, "getTokenPriceUSD", m));
                let near = |x: &Result<B, String>, y: &B| matches!(x, Ok(v) if v <= &(y + 50u32) && y <= &(v + 50u32));
                if !near(&got.0, &e) || !near(&got.1, &u) {
                    out.fail(G, "price", format!("after {hist:?}: {got:?}, expected {e} EGLD and {u} USD"));
                }
            }
            for (what, f) in ["getPriceAggregatorAddress", "getAccumulatorAddress", "getSwapRouterAddress", "getLiqPoolTemplateAddress", "getSafePriceAddress"].iter().enumerate() {
                let r = l.q(f, vec![]);
                let w = l.using(what);
                if !r.ok || r.vals != vec![a_addr(&w)] {
                    out.fail(G, "view", format!("{f} after {hist:?}: {:?}", r.vals));
                }
            }
            out.sample(|| format!("{hist:?}"));
        }
    })
}

pub fn resolution() -> Grid {
    const G: &str = "resolution";
    grid(G, |out| {
        let mut cases = vec![];
        let mut tols = vec![(50u64, 150u64), (200, 500), (5_000, 10_000), (50, 10_000), (150, 150)];
        if out.thorough {
            tols.extend([(51, 151), (333, 777), (1_234, 5_678), (4_999, 9_999)]);
        }
        for tol in tols {
            for usd in [wad(), wad() * 3u32 + 20u32] {
                let agg = agg_price(&usd, &(wad() * 40u32)).unwrap();
                let mut bounds: Vec<B> = vec![b(10_000)];
                for t in [tol.0, tol.1] {
                    let up = b(10_000 + t as u128);
                    bounds.push(half(&b(100_000_000), &up));
                    bounds.push(up);
                }
                bounds.sort();
                bounds.dedup();
                let mut safes: Vec<B> = vec![];
                for bd in bounds {
                    for k in [-2i64, -1, 0, 1, 2] {
                        // around bound + k/2 bps
                        let x = &bd * 2u32 + B::from((k + 4) as u64) - 4u32;
                        let mid = &agg * &x / 20_000u32;
                        for w in [0u32, 1, 2] {
                            safes.push(&mid + w - 1u32);
                        }
                    }
                }
                for k in [1u32, 5_000, 9_000, 11_000, 30_000] {
                    safes.push(&agg * k / 10_000u32);
                }
                for safe in safes {
                    for ex in 0..3u8 {
                        if ex == 0 || out.thorough || (&safe % 3u32) == b(ex as u128) {
                            cases.push(RC::Mix { tol, usd: usd.clone(), safe: safe.clone(), ex });
                        }
                    }
                }
            }
        }
        for usd in [b(1), b(19), b(20), b(21), wad() - 1u32, wad(), wad() + 20u32, wad() * 7u32 / 3u32, wad() * 60_000u32] {
            for egld in [wad() * 40u32, wad() * 40u32 + 1u32, wad() * 100u32 / 3u32, wad() / 7u32, wad() * 9_999u32] {
                cases.push(RC::Agg { usd: usd.clone(), egld });
            }
        }
        for amount in [b(1), b(999_999), wad() / 40u32, wad() * 5u32 / 4u32 + 7u32, wad() * 1_500u32] {
            for ex in 0..3u8 {
                cases.push(RC::Safe { amount: amount.clone(), quote: None, ex });
                for q in [wad(), wad() * 5u32 / 4u32, wad() * 10u32 / 3u32] {
                    cases.push(RC::Safe { amount: amount.clone(), quote: Some(q), ex });
                }
            }
        }
        for source in [2u64, 3, 4] {
            for rate in [wad(), wad() * 5u32 / 4u32 + 1u32, wad() * 7u32 / 6u32] {
                for base_usd in [wad(), wad() * 10u32 / 3u32] {
                    cases.push(RC::Derived { source, rate: rate.clone(), base_usd });
                }
            }
        }
        par(out, &cases, || (res_base(), None::<Snap>), |x, c, out| {
            let (l, s) = x;
            match s {
                None => *s = Some(l.w.snapshot()),
                Some(s) => l.w.restore(s),
            }
            one_resolution(G, l, c, out)
        });
    })
}

fn one_resolution(g: &str, l: &mut L, c: &RC, out: &mut GridOut) {
    let env = l.env.clone();
    let e40 = wad() * 40u32;
    let mut egld = e40.clone();
    let mut m = 1usize; // the market under test
    // an exchange listing `tok` on the given venue (0 xExchange, 1 OneDex as first token, 2 OneDex as second)
    let venue = |l: &mut L, tok: &'static str, dec: u32, quote: &str, amount: &B, ex: u8| -> (u64, Addr, Option<u64>) {
        let (a, z) = if ex == 2 { (quote, tok) } else { (tok, quote) };
        let p = pair(l, "pairx", a, z);
        if ex == 0 {
            set_safe(l, &env, tok, dec, quote, amount, Some(&p));
            (1, p, None)
        } else {
            set_safe(l, &p, tok, dec, quote, amount, None);
            set_state(l, &p, Some(7), 1);
            (5, p, Some(7))
        }
    };
    let far = u64::MAX;
    // expected (safe, aggregator, final, flags)
    let want: (B, B, B, (bool, bool)) = match c {
        RC::Mix { tol, usd, safe, ex } => {
            let (source, pair, onedex) = venue(l, USDC, 6, WEGLD, safe, *ex);
            set_oracle(l, &Ora { tok: USDC, dec: 6, method: 4, typ: 1, source, tol: *tol, stale: far, pair, onedex });
            l.set_feed("USDC", usd);
            let Some(agg) = agg_price(usd, &egld) else { return };
            let Some(bd) = bands(&agg, safe, *tol) else { return };
            let fin = if bd.0 || !bd.1 { safe.clone() } else { (&agg + safe) / 2u32 };
            (safe.clone(), agg, fin, bd)
        }
        RC::Agg { usd, egld: eg } => {
            l.set_feed("EGLD", eg);
            l.set_feed("USDC", usd);
            egld = eg.clone();
            let Some(agg) = agg_price(usd, eg) else { return };
            (agg.clone(), agg.clone(), agg, (true, true))
        }
        RC::Safe { amount, quote, ex } => {
            let (qt, p) = match quote {
                None => (WEGLD, amount.clone()),
                Some(q) => {
                    l.set_feed("XEGLD", &(q * 40u32));
                    (XE, half(&(amount * q), &wad()))
                }
            };
            let (source, pair, onedex) = venue(l, USDC, 6, qt, amount, *ex);
            set_oracle(l, &Ora { tok: USDC, dec: 6, method: 1, typ: 1, source, tol: (200, 500), stale: far, pair, onedex });
            (p.clone(), p.clone(), p, (true, true))
        }
        RC::Derived { source, rate, base_usd } => {
            m = 2;
            let p = pair(l, "stake", USDC, WEGLD);
            l.w.set_storage(&p, b"m_rate".to_vec(), rate.to_bytes_be());
            l.set_feed("USDC", base_usd);
            set_oracle(l, &Ora { tok: XE, dec: 18, method: 3, typ: 2, source: *source, tol: (200, 500), stale: far, pair: p, onedex: None });
            let v = if *source == 2 {
                let Some(bp) = agg_price(base_usd, &egld) else { return };
                half(&(rate * bp), &wad())
            } else {
                rate.clone()
            };
            (v.clone(), v.clone(), v, (true, true))
        }
    };
    let usd_want = half(&(&want.2 * &egld), &wad());
    out.cases += 1;
    let tag = match c {
        RC::Mix { ex, .. } => format!("both sources, venue {ex}"),
        RC::Agg { .. } => "aggregator".into(),
        RC::Safe { ex, .. } => format!("exchange, venue {ex}"),
        RC::Derived { source, .. } => format!("derived {source}"),
    };
    let mut check = |what: &str, got: Result<B, String>, want: &B, out: &mut GridOut| {
        let bad = match &got {
            Ok(x) => x != want,
            Err(_) => true,
        };
        if bad {
            out.fail(g, format!("{what}:{tag}"), format!("{c:?}: answers {got:?}, the rule gives {want}"));
        }
    };
    check("price-egld", dec_view(l, "getTokenPriceEGLD", m), &want.2, out);
    check("price-usd", dec_view(l, "getTokenPriceUSD", m), &usd_want, out);
    match components(l, m) {
        Err(e) => out.fail(g, format!("components-refused:{tag}"), format!("{c:?}: {e}")),
        Ok(k) => {
            if k.fin != want.2 || k.usd != usd_want || k.safe != want.0 || k.agg != want.1 || k.flags != want.3 {
                out.fail(
                    g,
                    format!("components:{tag}"),
                    format!("{c:?}: {} {} {} {} {:?}, the rule gives {want:?}", k.fin, k.usd, k.safe, k.agg, k.flags),
                );
            }
        }
    }
    out.counters.hit(match want.3 {
        (true, _) => "within-first",
        (_, true) => "within-second",
        _ => "beyond",
    });
    if egld != e40 || want.2.is_zero() {
        return;
    }
    // what operations do at that price
    let over = vec![(m, want.2.clone())];
    let mut over = over;
    if let RC::Derived { base_usd, .. } = c {
        over.push((1, agg_price(base_usd, &egld).unwrap()));
    }
    for (op, risky) in [(bo(0, 2, m, p10(l.cfg.mkts[m].dec) / 100u32), true), (sup(0, Via::Nft(2), m, p10(l.cfg.mkts[m].dec)), false)] {
        let j = judge(l, &op, &over);
        out.accepted += j.ok as u64;
        if risky && !want.3.1 {
            if j.ok || !j.same {
                out.fail(g, format!("unsafe-accepted:{tag}:{}", kind(&op)), format!("{c:?}: {op:?}"));
            }
        } else if let Some(v) = j.vs.first() {
            out.fail(g, format!("{}:{tag}:{}", v.kind, kind(&op)), format!("{c:?}: {op:?}: {}", v.detail));
        }
    }
    out.sample(|| format!("{c:?}: {} EGLD", want.2));
}

// ------------------------------------------------------------ grid 2
#[derive(Clone, Debug)]
struct MC {
    /// market whose oracle is varied
    s: usize,
    method: u64,
    onedex: bool,
    /// safe/aggregator in bps
    dev: u32,
    age: u64,
    state: u8,
    /// 0 ordinary, 1 aggregator paused, 2 base feed old
    global: u8,
    /// 1: the other market is quoted in the subject (exchange), 2: is a staked form of it
    chain: u8,
}
fn mat_base() -> L {
    let mut l = L::new(Cfg::new(three(), 3));
    for op in [
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000))] },
        // 2: mixed collateral and debt
        sup(0, Via::New, 0, e(10)),
        sup(0, Via::Nft(2), 1, us(40)),
        bo(0, 2, 1, us(100)),
        bo(0, 2, 2, e(1)),
        // 3: dollars, no debt
        sup(2, Via::New, 1, us(500)),
        // 4: only EGLD
        sup(2, Via::New, 0, e(10)),
        bo(2, 4, 0, e(1)),
        // 5: staked collateral, dollar debt: under water below
        sup(2, Via::New, 2, e(10)),
        bo(2, 5, 1, us(370)),
        // 6: tiny, owes more than it has
        px(2, 100_000),
        sup(0, Via::New, 2, me(100)),
        bo(0, 6, 1, b(6_000_000)),
        px(2, 50_000),
        // 7: staked, no debt
        sup(2, Via::New, 2, e(3)),
        adv(3 * DAY),
        px(2, 45_000),
    ] {
        let r = l.exec(&op);
        assert!(r.ok, "{op:?}: {}", r.msg);
    }
    l
}
fn mat_ops(o: &Obs, cfg: &Cfg) -> Vec<Op> {
    let mut v = vec![];
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for m in 0..3 {
            let small = p10(cfg.mkts[m].dec) / 50u32;
            v.push(sup(h, Via::Nft(n), m, small.clone()));
            v.push(bo(h, n, m, small.clone()));
            if o.accts[&n].dep.contains_key(&m) {
                v.push(wd(h, n, m, small.clone()));
                v.push(wd(h, n, m, huge()));
            }
            if o.accts[&n].bor.contains_key(&m) {
                v.push(rp(1, n, m, small.clone()));
                v.push(rp(1, n, m, p10(cfg.mkts[m].dec) * 1_000u32));
                v.push(lq(1, n, m, small.clone() * 10u32));
            }
            for risks in [true, false] {
                v.push(Op::Threshold { u: 1, m, risks, accts: vec![n] });
            }
        }
        v.push(Op::CleanBad { u: 1, acct: n });
        for x in o.accts[&n].bor.keys().filter(|x| o.accts[&n].dep.contains_key(x)) {
            // own collateral of the token owed
            v.push(Op::RepayColl { u: h, acct: n, coll: *x, amt: huge(), debt: *x, close: true, outs: None, pays: vec![] });
        }
        for (x, y, xa, ya) in [(0usize, 2usize, me(100), me(80)), (0, 1, me(100), us(4)), (1, 0, us(4), me(100)), (2, 1, me(10), b(450_000))] {
            if o.accts[&n].dep.contains_key(&x) {
                v.push(Op::SwapColl { u: h, acct: n, old: x, amt: xa.clone(), new: y, outs: vec![(y, ya.clone())], pays: vec![] });
            }
            if o.accts[&n].bor.contains_key(&x) {
                v.push(Op::SwapDebt { u: h, acct: n, old: x, amt: ya.clone(), new: y, outs: vec![(x, &xa * 9u32 / 10u32)], pays: vec![] });
            }
            if o.accts[&n].dep.contains_key(&x) && o.accts[&n].bor.contains_key(&y) {
                for close in [false, true] {
                    v.push(Op::RepayColl { u: h, acct: n, coll: x, amt: xa.clone(), debt: y, close, outs: Some(vec![(y, ya.clone())]), pays: vec![] });
                }
                // enough to end the debt
                let all = p10(cfg.mkts[y].dec) * 1_000u32;
                v.push(Op::RepayColl { u: h, acct: n, coll: x, amt: xa.clone(), debt: y, close: true, outs: Some(vec![(y, all)]), pays: vec![] });
            }
        }
    }
    for (c, d, amt, got) in [(2usize, 1usize, us(20), me(400)), (0, 1, us(20), me(490)), (1, 0, me(100), b(3_900_000)), (2, 0, me(100), me(80))] {
        v.push(Op::Multiply {
            u: 2,
            acct: 0,
            emode: 0,
            coll: c,
            amt,
            debt: d,
            mode: 2,
            outs: vec![(c, got)],
            pays: vec![(c, p10(cfg.mkts[c].dec) * 2u32)],
            outs2: None,
        });
    }
    for m in 0..3 {
        let one = p10(cfg.mkts[m].dec);
        v.push(sup(2, Via::New, m, one.clone()));
        v.push(Op::Flash { u: 2, m, amt: one.clone(), outs: vec![(m, &one * 2u32)], nested: None });
        v.push(Op::Claim { u: 1, ms: vec![m] });
        v.push(Op::Rewards { u: OWNER, m, amt: one.clone() });
        v.push(Op::Sync { u: 2, ms: vec![m] });
    }
    v.push(Op::Xfer { from: 0, to: 1, acct: 2 });
    v
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Cls {
    /// moves value out on the strength of prices of the listed markets
    Risky,
    Plain,
    /// not judged for acceptance while a price is unsafe
    Open,
}
/// class of an operation and the markets whose prices it rests on
fn classify(o: &Obs, op: &Op) -> (Cls, Vec<usize>) {
    let held = |n: u64| -> Vec<usize> { o.accts.get(&n).map(|a| a.dep.keys().chain(a.bor.keys()).cloned().collect()).unwrap_or_default() };
    let owes = |n: u64| o.accts.get(&n).is_some_and(|a| !a.bor.is_empty());
    let with = |n: u64, x: Vec<usize>| {
        let mut v = held(n);
        v.extend(x);
        v
    };
    match op {
        Op::Borrow { acct, pays, .. } => (Cls::Risky, with(*acct, pays.iter().map(|p| p.0).collect())),
        Op::Withdraw { acct, pays, .. } => {
            (if owes(*acct) { Cls::Risky } else { Cls::Plain }, with(*acct, pays.iter().map(|p| p.0).collect()))
        }
        Op::Liquidate { acct, pays, .. } => (Cls::Risky, with(*acct, pays.iter().map(|p| p.0).collect())),
        Op::CleanBad { acct, .. } => (Cls::Risky, held(*acct)),
        Op::Threshold { m, risks, accts, .. } => {
            let mut v = vec![*m];
            for n in accts {
                v.extend(held(*n));
            }
            // accounts without this collateral are left alone, nothing is priced
            let any = accts.iter().any(|n| o.accts.get(n).is_some_and(|a| a.dep.contains_key(m)));
            (if *risks && any { Cls::Risky } else { Cls::Open }, v)
        }
        Op::Multiply { acct, coll, debt, pays, .. } => {
            let mut v = vec![*coll, *debt];
            v.extend(pays.iter().map(|p| p.0));
            (Cls::Risky, with(*acct, v))
        }
        Op::SwapDebt { acct, old, new, .. } => (Cls::Risky, with(*acct, vec![*old, *new])),
        Op::SwapColl { acct, old, new, .. } => (if owes(*acct) { Cls::Risky } else { Cls::Plain }, with(*acct, vec![*old, *new])),
        Op::RepayColl { acct, coll, debt, .. } => (Cls::Risky, with(*acct, vec![*coll, *debt])),
        _ => (Cls::Plain, vec![]),
    }
}

pub fn safety() -> Grid {
    const G: &str = "safety";
    grid(G, |out| {
        let mut cases = vec![];
        let devs: Vec<u32> = if out.thorough {
            vec![10_000, 10_200, 9_804, 10_201, 9_803, 10_500, 9_524, 10_501, 9_523, 20_000, 5_000]
        } else {
            vec![10_000, 10_300, 9_700, 10_600, 9_000]
        };
        for s in [1usize, 2] {
            for chain in [0u8, 1, 2] {
                // the dependent market of a chain is the other one; a staked form must be 18-decimals
                if chain == 2 && s == 2 {
                    continue;
                }
                for onedex in [false, true] {
                    for method in [4u64, 3, 1] {
                        for &dev in &devs {
                            for age in [0u64, 599, 600, 10_000] {
                                for state in [0u8, 1, 2] {
                                    for global in [0u8, 1, 2] {
                                        let plain = dev == 10_000 && age == 0 && state == 1;
                                        if (method == 3 && (dev != 10_000 || state != 1 || onedex))
                                            || (method == 1 && (dev != 10_000 || age != 0))
                                            || (global != 0 && !(plain && method == 4))
                                            || (chain != 0 && !out.thorough && (onedex || age == 599 || state == 2))
                                        {
                                            continue;
                                        }
                                        cases.push(MC { s, method, onedex, dev, age, state, global, chain });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        par(out, &cases, || {
            let l = mat_base();
            let s = l.w.snapshot();
            (l, s)
        }, |x, c, out| {
            let (l, s) = x;
            l.w.restore(s);
            one_safety(G, l, c, out)
        });
    })
}
fn one_safety(g: &str, l: &mut L, c: &MC, out: &mut GridOut) {
    let (env, far) = (l.env.clone(), u64::MAX);
    let (tok, dec, tick) = (l.tok(c.s), l.cfg.mkts[c.s].dec, ticker(l.tok(c.s)));
    let usd = l.price_of(c.s);
    let e40 = wad() * 40u32;
    let agg = agg_price(&usd, &e40).unwrap();
    let safe = &agg * c.dev / 10_000u32;
    let p = pair(l, "pairx", tok, WEGLD);
    let id = if c.onedex { Some(3) } else { None };
    if c.onedex {
        set_safe(l, &p, tok, dec, WEGLD, &safe, None);
    } else {
        set_safe(l, &env, tok, dec, WEGLD, &safe, Some(&p));
    }
    set_state(l, &p, id, 1);
    set_oracle(l, &Ora {
        tok, dec, method: c.method, typ: 1, source: if c.onedex { 5 } else { 1 }, tol: (200, 500), stale: 600, pair: p.clone(), onedex: id,
    });
    set_state(l, &p, id, c.state);
    set_feed_aged(l, &tick, &usd, c.age);
    let bd = bands(&agg, &safe, (200, 500)).expect("clear case");
    let price = match c.method {
        3 => agg.clone(),
        1 => safe.clone(),
        _ if bd.0 || !bd.1 => safe.clone(),
        _ => (&agg + &safe) / 2u32,
    };
    let mut over = vec![(c.s, price.clone())];
    let mut tainted = vec![c.s];
    let o_m = 3 - c.s; // the other of markets 1 and 2
    if c.chain != 0 {
        let (ot, od) = (l.tok(o_m), l.cfg.mkts[o_m].dec);
        let want = l.price_of(o_m) / 40u32;
        if c.chain == 1 {
            // quoted in the subject on an exchange of its own
            let q = pair(l, "pairy", ot, tok);
            let amount = &want * p10(dec) / &agg;
            set_safe(l, &env, ot, od, tok, &amount, Some(&q));
            set_oracle(l, &Ora { tok: ot, dec: od, method: 1, typ: 1, source: 1, tol: (200, 500), stale: far, pair: q, onedex: None });
            over.push((o_m, half(&(&amount * &price), &p10(dec))));
        } else {
            let q = pair(l, "stake", tok, WEGLD);
            let rate = &want * wad() / &agg;
            l.w.set_storage(&q, b"m_rate".to_vec(), rate.to_bytes_be());
            set_oracle(l, &Ora { tok: ot, dec: od, method: 3, typ: 2, source: 2, tol: (200, 500), stale: far, pair: q, onedex: None });
            over.push((o_m, half(&(&rate * &price), &wad())));
        }
        tainted.push(o_m);
    }
    let uses_agg = c.method != 1;
    let uses_safe = c.method != 3;
    let unsafe_ = (uses_agg && c.age >= 600) || (uses_safe && c.state != 1) || (c.method == 4 && !bd.1);
    match c.global {
        1 => {
            let (ow, a) = (l.owner.clone(), l.agg.clone());
            let r = l.w.call(&ow, &a, "pause", vec![], &[]);
            assert!(r.ok, "pause: {}", r.msg);
        }
        2 => {
            let env = l.env.clone();
            set_oracle(l, &Ora { tok: EGLD, dec: 18, method: 3, typ: 1, source: 3, tol: (200, 500), stale: 600, pair: env, onedex: None });
            let n = l.w.now();
            // exactly at the limit
            set_feed_aged(l, "EGLD", &e40, 600);
            assert_eq!(n, l.w.now());
        }
        _ => {}
    }
    let obs = l.obs();
    let cfg = l.cfg.clone();
    for op in mat_ops(&obs, &cfg) {
        let (cls, on) = classify(&obs, &op);
        let hit = on.iter().any(|m| tainted.contains(m));
        let j = judge(l, &op, &over);
        out.cases += 1;
        out.accepted += j.ok as u64;
        let k = kind(&op);
        let must_refuse = cls == Cls::Risky && (c.global != 0 || (unsafe_ && hit));
        let open = (c.global != 0 && !must_refuse) || (unsafe_ && cls == Cls::Open);
        if must_refuse {
            out.counters.hit("refused-on-unsafe-price");
            if j.ok || !j.same {
                out.fail(g, format!("unsafe-accepted:{k}"), format!("{c:?}: {op:?}"));
            }
        } else if open {
            if j.ok {
                if let Some(v) = j.vs.iter().find(|v| v.kind != "accepted") {
                    out.fail(g, format!("{}:{k}", v.kind), format!("{c:?}: {op:?}: {}", v.detail));
                }
            }
        } else {
            out.counters.hit(if unsafe_ { "judged-while-unsafe" } else { "judged-while-safe" });
            if j.ok {
                out.counters.hit(&format!("accepted:{k}"));
            }
            if let Some(v) = j.vs.first() {
                out.fail(g, format!("{}:{k}", v.kind), format!("{c:?}: {op:?}: {}", v.detail));
            }
        }
    }
    out.sample(|| format!("{c:?}"));
}

// ------------------------------------------------------------ conversions that move a price
/// A strategy whose conversion moves an exchange price must end exactly as if
/// the price had already been there: what counts is the price afterwards.
pub fn moving() -> Grid {
    const G: &str = "moving-price";
    grid(G, |out| {
        let mut cases: Vec<(usize, u64, u32)> = vec![];
        let moves: &[u32] = if out.thorough { &[2_500, 5_000, 8_000, 9_000, 9_500, 9_900, 10_100, 10_500, 11_000, 12_500, 20_000, 40_000] } else { &[5_000, 9_000, 9_900, 10_100, 11_000, 20_000] };
        for s in [1usize, 2] {
            for method in [1u64, 4] {
                for &mv in moves {
                    cases.push((s, method, mv));
                }
            }
        }
        par(out, &cases, || {
            let l = mat_base();
            let s = l.w.snapshot();
            (l, s)
        }, |x, c, out| {
            let (l, base) = x;
            l.w.restore(base);
            let (s, method, mv) = *c;
            let env = l.env.clone();
            let (tok, dec) = (l.tok(s), l.cfg.mkts[s].dec);
            let agg = agg_price(&l.price_of(s), &(wad() * 40u32)).unwrap();
            let p = pair(l, "pairx", tok, WEGLD);
            let moved = &agg * mv / 10_000u32;
            set_safe(l, &env, tok, dec, WEGLD, &agg, Some(&p));
            set_oracle(l, &Ora { tok, dec, method, typ: 1, source: 1, tol: (200, 500), stale: u64::MAX, pair: p.clone(), onedex: None });
            l.w.set_storage(&env, b"m_swap_tok".to_vec(), tok.as_bytes().to_vec());
            l.w.set_storage(&env, b"m_swap_rate".to_vec(), moved.to_bytes_be());
            let before = l.w.snapshot();
            let obs = l.obs();
            let cfg = l.cfg.clone();
            let bd = bands(&agg, &moved, (200, 500)).expect("clear case");
            let price = if method == 1 || bd.0 || !bd.1 { moved.clone() } else { (&agg + &moved) / 2u32 };
            let refused = method == 4 && !bd.1;
            let over = vec![(s, price)];
            for op in mat_ops(&obs, &cfg).into_iter().chain(more_strategies(&obs, &cfg)) {
                // (paying a debt with collateral of the same token converts nothing)
                let swaps = matches!(op, Op::Multiply { .. } | Op::SwapDebt { .. } | Op::SwapColl { .. } | Op::RepayColl { outs: Some(_), .. });
                if !swaps {
                    continue;
                }
                let k = kind(&op);
                let (cls, on) = classify(&obs, &op);
                out.cases += 1;
                // the conversion moves the price
                l.w.restore(&before);
                let a = l.exec(&op);
                let ha = l.state_hash();
                let risky = cls == Cls::Risky && refused && on.contains(&s);
                // without debt, or without that token, its price does not matter afterwards
                let owes = risky && a.ok && {
                    let n = if let Op::SwapDebt { acct, .. } | Op::SwapColl { acct, .. } | Op::RepayColl { acct, .. } = &op { *acct } else { 8 };
                    l.obs().accts.get(&n).is_some_and(|x| !x.bor.is_empty() && (x.dep.contains_key(&s) || x.bor.contains_key(&s)))
                };
                // the price was there already
                l.w.restore(&before);
                set_safe(l, &env, tok, dec, WEGLD, &moved, Some(&p));
                let j = judge(l, &op, &over);
                let b_ = l.exec(&op);
                let hb = l.state_hash();
                if a.ok {
                    out.accepted += 1;
                    out.counters.hit(&format!("accepted:{k}"));
                } else {
                    out.counters.hit(&format!("refused:{k}"));
                }
                if risky {
                    if owes {
                        out.fail(G, format!("unsafe-accepted:{k}"), format!("{c:?}: {op:?}"));
                    }
                    continue;
                }
                if a.ok != b_.ok {
                    out.fail(G, format!("price-before-conversion-decides:{k}"), format!("{c:?}: {op:?}: moved by the conversion: accepted {} {}; already there: accepted {} {}", a.ok, a.msg, b_.ok, b_.msg));
                } else if a.ok && ha != hb {
                    out.fail(G, format!("price-before-conversion-shows:{k}"), format!("{c:?}: {op:?}"));
                }
                if let Some(v) = j.vs.first() {
                    out.fail(G, format!("{}:{k}", v.kind), format!("{c:?}: {op:?}: {}", v.detail));
                }
            }
            out.sample(|| format!("{c:?}"));
        });
    })
}
/// strategies of many sizes, so that some are close to the limit at any price
fn more_strategies(o: &Obs, cfg: &Cfg) -> Vec<Op> {
    let mut v = vec![];
    let unit = |m: usize, usd: u64| -> B { b(usd as u128) * p10(cfg.mkts[m].dec) / [40u32, 1, 45][m] };
    for (n, h) in live(o) {
        if n == 1 {
            continue;
        }
        for usd in [5u64, 40, 100, 200, 300, 390] {
            for (x, y) in [(0usize, 1usize), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)] {
                for ret in [10u64, 9, 5] {
                    let (xa, ya) = (unit(x, usd), unit(y, usd * ret / 10));
                    let (dx, bx, by) = (o.accts[&n].dep.contains_key(&x), o.accts[&n].bor.contains_key(&x), o.accts[&n].bor.contains_key(&y));
                    if dx {
                        v.push(Op::SwapColl { u: h, acct: n, old: x, amt: xa.clone(), new: y, outs: vec![(y, ya.clone())], pays: vec![] });
                    }
                    if by {
                        v.push(Op::SwapDebt { u: h, acct: n, old: y, amt: xa.clone(), new: x, outs: vec![(y, ya.clone())], pays: vec![] });
                    }
                    if dx && by {
                        v.push(Op::RepayColl { u: h, acct: n, coll: x, amt: xa.clone(), debt: y, close: ret == 9, outs: Some(vec![(y, ya.clone())]), pays: vec![] });
                    }
                    let _ = bx;
                }
            }
        }
    }
    for usd in [100u64, 200, 250, 300, 310] {
        for (c, d) in [(0usize, 1usize), (1, 0), (2, 1), (1, 2), (0, 2), (2, 0)] {
            v.push(Op::Multiply {
                u: 2,
                acct: 0,
                emode: 0,
                coll: c,
                amt: unit(d, usd),
                debt: d,
                mode: 2,
                outs: vec![(c, unit(c, usd * 95 / 100))],
                pays: vec![(c, unit(c, 100))],
                outs2: None,
            });
        }
    }
    v
}

// ------------------------------------------------------------ C25: LP shares
const LP: &str = "LPAB-123456";
const BTC8: &str = "BTC-123456";
#[derive(Clone, Debug)]
struct LC {
    /// whose age limit on the dollar feed counts: the dollar's own, or the staked token's
    theirs: bool,
    /// 0 WEGLD/USDC, 1 XEGLD(derived)/WEGLD, 2 BTC(8)/USDC(6), 3 staked dollars / WEGLD
    kind: u8,
    /// reserves of the first side in whole tokens, pool fair-valued then skewed by num/den
    whole: u64,
    skew: (u64, u64),
    /// odd units added to the reserves
    odd: u64,
    supply: B,
    /// exchange price of the dollar relative to its feed, bps
    dev: u32,
    age: u64,
    source: u64,
    egld: B,
}
fn lp_base() -> L {
    let mut m = three();
    let mut x = mkt(LP, 18, 80_000);
    x.ltv = 6_000;
    x.thr = 7_000;
    m.push(x);
    let mut l = L::new(Cfg::new(m, 3));
    for op in [
        Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000)), (3, e(1_000))] },
        sup(0, Via::New, 3, e(10)),
        bo(0, 2, 0, e(5)),
        sup(2, Via::New, 0, e(20)),
        bo(2, 3, 3, e(3)),
        sup(2, Via::New, 3, e(2)),
        sup(2, Via::New, 0, e(20)),
        bo(2, 5, 2, e(2)),
    ] {
        let r = l.exec(&op);
        assert!(r.ok, "{op:?}: {}", r.msg);
    }
    l.set_feed("BTC", &(wad() * 60_000u32));
    l
}
fn isqrt(n: &B) -> B {
    n.sqrt()
}
/// fair value of one share: 2*sqrt(Ra*Rb*Pa*Pb)/S, 18 decimals (all inputs 18 decimals), and the error allowed
fn fair(ra: &B, rb: &B, pa: &B, pb: &B, s: &B) -> (B, B) {
    let scale = p10(40);
    let n = ra * rb * pa * pb * &scale;
    let v = isqrt(&n) * 2u32 / (s * p10(20));
    let f = |x: &B| x.to_f64().unwrap() / 1e18;
    let (a, c, x, y, t) = (f(ra), f(rb), f(pa), f(pb), f(s));
    let k = a * c;
    let side = |r: f64| {
        let inner = k * r;
        0.5e-18 * (r + k + 1.0) / (2.0 * inner.sqrt()) + 1.1e-9
    };
    let err = (x * side(y / x) + y * side(x / y)) / t + 4e-18 + (v.to_f64().unwrap() / 1e18) * 1e-15;
    (v, B::from((err * 1e18).ceil() as u128) + 2u32)
}
pub fn lp_price() -> Grid {
    const G: &str = "lp";
    grid(G, |out| {
        let mut cases = vec![];
        let wholes: &[u64] = if out.thorough { &[1, 17, 1_000, 250_000, 90_000_000] } else { &[3, 1_000, 250_000] };
        let skews: &[(u64, u64)] = &[(1, 1), (1_001, 1_000), (2, 1), (1, 2), (10, 1), (1, 10), (1_000, 1), (1, 1_000)];
        let supplies = [wad() * 1_000u32, wad() * 31_415u32 + 9_265u32];
        for kind in 0..4u8 {
            for &whole in wholes {
                for &skew in skews {
                    for odd in [0u64, 7] {
                        for supply in &supplies {
                            for egld in [wad() * 40u32, wad() * 100u32 / 3u32] {
                                cases.push(LC { kind, whole, skew, odd, supply: supply.clone(), dev: 10_000, age: 0, source: 1, egld, theirs: false });
                            }
                        }
                    }
                }
            }
            for skew in [(1, 1), (10, 1), (1, 10)] {
                for dev in [10_000u32, 10_200, 9_800, 10_600, 9_400, 11_500, 8_500, 10_390, 10_430, 11_000, 11_100] {
                    for age in [0u64, 599, 600] {
                        for source in [1u64, 5] {
                            for theirs in [false, true] {
                                if theirs && kind != 3 {
                                    continue;
                                }
                                cases.push(LC {
                                    kind, whole: 1_000, skew, odd: 0, supply: supplies[0].clone(), dev, age, source, egld: wad() * 40u32, theirs,
                                });
                            }
                        }
                    }
                }
            }
        }
        par(out, &cases, || {
            let l = lp_base();
            let s = l.w.snapshot();
            (l, s)
        }, |x, c, out| {
            let (l, s) = x;
            l.w.restore(s);
            one_lp(G, l, c, out)
        });
    })
}
fn one_lp(g: &str, l: &mut L, c: &LC, out: &mut GridOut) {
    let (env, far) = (l.env.clone(), u64::MAX);
    l.set_feed("EGLD", &c.egld);
    let near = |x: B| x;
    // the dollar: feed and exchange, its own tolerance wide open
    let usd = l.price_of(1);
    let Some(agg) = agg_price(&usd, &c.egld) else { return };
    let safe = &agg * c.dev / 10_000u32;
    let du = pair(l, "pairu", USDC, WEGLD);
    set_safe(l, &env, USDC, 6, WEGLD, &safe, Some(&du));
    set_oracle(l, &Ora { tok: USDC, dec: 6, method: 4, typ: 1, source: 1, tol: (5_000, 10_000), stale: if c.theirs { far } else { 600 }, pair: du, onedex: None });
    set_feed_aged(l, "USDC", &usd, c.age);
    // staked token
    let st = pair(l, "stake", USDC, WEGLD);
    let rate = wad() * 5u32 / 4u32 + 3u32;
    l.w.set_storage(&st, b"m_rate".to_vec(), rate.to_bytes_be());
    let typ_src = if c.kind == 3 { 2 } else { 3 };
    set_oracle(l, &Ora { tok: XE, dec: 18, method: 3, typ: 2, source: typ_src, tol: (200, 500), stale: if c.theirs { 600 } else { far }, pair: st, onedex: None });
    let st_safe = if c.kind == 3 { half(&(&rate * &safe), &wad()) } else { rate.clone() };
    let st_off = if c.kind == 3 { half(&(&rate * &agg), &wad()) } else { rate.clone() };
    // bitcoin: feed only, never lent
    let bp = pair(l, "pairb", BTC8, WEGLD);
    set_oracle(l, &Ora { tok: BTC8, dec: 8, method: 3, typ: 1, source: 1, tol: (200, 500), stale: far, pair: bp, onedex: None });
    let Some(btc) = agg_price(&(wad() * 60_000u32), &c.egld) else { return };
    let w = wad();
    // (token, decimals, safe price, off-chain price)
    let (a, z) = match c.kind {
        0 => ((WEGLD, 18u32, w.clone(), w.clone()), (USDC, 6u32, safe.clone(), agg.clone())),
        1 | 3 => ((XE, 18, st_safe.clone(), st_off.clone()), (WEGLD, 18, w.clone(), w.clone())),
        _ => ((BTC8, 8, btc.clone(), btc.clone()), (USDC, 6, safe.clone(), agg.clone())),
    };
    // fair reserves, then moved along the constant product
    let base_a = b(c.whole as u128) * p10(a.1);
    let val = b(c.whole as u128) * &a.3; // EGLD, 18 decimals
    let base_b = &val * p10(z.1) / &z.3;
    let ra = near(&base_a * c.skew.0 / c.skew.1) + c.odd;
    let rb = near(&base_b * c.skew.1 / c.skew.0) + c.odd;
    if ra < p10(a.1) / 100u32 || rb < p10(z.1) / 100u32 {
        return;
    }
    let p = pair(l, "pairlp", a.0, z.0);
    l.w.set_storage(&p, b"m_res_a".to_vec(), ra.to_bytes_be());
    l.w.set_storage(&p, b"m_res_b".to_vec(), rb.to_bytes_be());
    l.w.set_storage(&p, b"m_supply".to_vec(), c.supply.to_bytes_be());
    let id = if c.source == 5 { Some(1) } else { None };
    set_oracle(l, &Ora { tok: LP, dec: 18, method: 4, typ: 3, source: c.source, tol: (200, 500), stale: far, pair: p, onedex: id });
    out.cases += 1;
    let tag = format!("pair {}", c.kind);
    if c.source != 1 {
        // only constant-product pairs have this formula
        if let Ok(x) = dec_view(l, "getTokenPriceEGLD", 3) {
            out.fail(g, "priced-foreign-venue", format!("{c:?}: {x}"));
        }
        let op = bo(0, 2, 0, b(1));
        let j = judge(l, &op, &[]);
        if j.ok || !j.same {
            out.fail(g, "unpriced-borrow", format!("{c:?}"));
        }
        return;
    }
    let (ra18, rb18) = (&ra * p10(18 - a.1), &rb * p10(18 - z.1));
    let (on, e1) = fair(&ra18, &rb18, &a.2, &z.2, &c.supply);
    let (off, e2) = fair(&ra18, &rb18, &a.3, &z.3, &c.supply);
    let tol = &e1 + &e2;
    let close = |x: &B, y: &B| if x > y { x - y <= tol } else { y - x <= tol };
    // deviation of the off-chain from the on-chain value; clear of the bounds by construction
    let ratio = (off.to_f64().unwrap() / on.to_f64().unwrap()) * 10_000.0;
    let inside = |t: f64| -> Option<bool> {
        let up = 10_000.0 + t;
        let lo = 1e8 / up;
        if (ratio - up).abs() < 1.5 || (ratio - lo).abs() < 1.5 { None } else { Some(ratio < up && ratio > lo) }
    };
    let (Some(f1), Some(f2)) = (inside(200.0), inside(500.0)) else {
        out.counters.hit("skipped-at-a-bound");
        return;
    };
    let avg = (&on + &off) / 2u32;
    let want = if f1 { &on } else { &avg };
    let got = match dec_view(l, "getTokenPriceEGLD", 3) {
        Err(e) => {
            out.fail(g, format!("lp-refused:{tag}"), format!("{c:?}: {e}"));
            return;
        }
        Ok(x) => x,
    };
    if !close(&got, want) {
        out.fail(g, format!("lp-price:{tag}"), format!("{c:?}: {got}, fair {want} (on {on}, off {off}, tolerance {tol})"));
    }
    match components(l, 3) {
        Ok(k) => {
            if !close(&k.safe, &on) || !close(&k.agg, &off) || k.fin != got || k.flags != (f1, f2) {
                out.fail(g, format!("lp-components:{tag}"), format!("{c:?}: {} {} {:?}; on {on} off {off}", k.safe, k.agg, k.flags));
            }
        }
        Err(e) => out.fail(g, format!("lp-components:{tag}"), e),
    }
    out.counters.hit(if f1 { "within-first" } else if f2 { "within-second" } else { "beyond" });
    out.sample(|| format!("{c:?}: {got}"));
    if c.egld != wad() * 40u32 || got.is_zero() {
        return;
    }
    // operations of accounts with shares as collateral or debt
    let over = vec![(3usize, got.clone()), (1, safe.clone()), (2, st_safe.clone())];
    let dollars = matches!(c.kind, 0 | 2 | 3);
    let stale = dollars && c.age >= 600;
    let ops: Vec<(Op, bool)> = vec![
        (bo(0, 2, 0, me(100)), true),
        (bo(2, 5, 3, me(100)), true),
        (wd(0, 2, 3, me(500)), true),
        (lq(1, 2, 0, me(500)), true),
        (lq(1, 3, 3, me(500)), true),
        (Op::CleanBad { u: 1, acct: 2 }, true),
        (sup(0, Via::Nft(2), 3, e(1)), false),
        (rp(1, 3, 3, me(500)), false),
        (wd(2, 4, 3, me(500)), false),
        (Op::Sync { u: 1, ms: vec![3] }, false),
    ];
    for (op, risky) in ops {
        let j = judge(l, &op, &over);
        out.cases += 1;
        out.accepted += j.ok as u64;
        let k = kind(&op);
        if risky && (!f2 || stale) {
            out.counters.hit("refused-on-unsafe-price");
            if j.ok || !j.same {
                out.fail(g, format!("unsafe-accepted:{k}"), format!("{c:?}: {op:?}"));
            }
        } else if let Some(v) = j.vs.first() {
            out.fail(g, format!("{}:{k}", v.kind), format!("{c:?}: {op:?}: {}", v.detail));
        }
    }
}
