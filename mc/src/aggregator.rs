//! The price aggregator: breadth-first exploration of submission and
//! administration histories against an independent model (C19).

use crate::engine::*;
use crate::lending::*;
use crate::props::*;
use crate::world::*;
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type B = BigUint;
const T0: u64 = 1_700_000_000;
const PAIRS: [(&str, &str); 3] = [("EGLD", "USD"), ("EGL", "DUSD"), ("", "EGLDUSD")];

// ------------------------------------------------------------ model
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Pair {
    pending: BTreeMap<usize, B>,
    first: u64,
    /// price, timestamp, round
    last: Option<(B, u64, u32)>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    now: u64,
    paused: bool,
    count: usize,
    oracles: Vec<usize>,
    pairs: [Pair; 3],
    /// accepted and total submissions of each listed oracle
    stats: BTreeMap<usize, (u64, u64)>,
    /// what the last operation is to announce
    said: Vec<Vec<Vec<u8>>>,
}
#[derive(Clone, Debug, PartialEq)]
enum O {
    /// oracle, pair, submission time relative to now, price
    Submit(usize, usize, i64, B),
    Batch(usize, Vec<(usize, i64, B)>),
    Advance(u64),
    Count(usize, usize),
    Add(usize, Vec<usize>),
    Remove(usize, usize, Vec<usize>),
    Pause(usize),
    Unpause(usize),
    Upgrade,
}
const OWNER: usize = 99;
const BLOCK: u64 = 4_321;
const EPOCH: u64 = 77;

impl M {
    fn new(count: usize, oracles: usize) -> M {
        M {
            now: T0,
            paused: true,
            count,
            oracles: (0..oracles).collect(),
            pairs: Default::default(),
            stats: (0..oracles).map(|o| (o, (0, 0))).collect(),
            said: vec![],
        }
    }
}

impl M {
    fn submit(&mut self, o: usize, p: usize, price: &B) {
        let now = self.now;
        let q = &mut self.pairs[p];
        let round = q.last.as_ref().map(|x| x.2 + 1).unwrap_or(0);
        let say = |name: &str, rest: Vec<u8>, all: &mut Vec<Vec<Vec<u8>>>| {
            let mut v = vec![name.into(), PAIRS[p].0.into(), PAIRS[p].1.into(), a_u64(round as u64)];
            if name != "discard_round" {
                v.push(rest);
            }
            all.push(v);
        };
        if !q.pending.is_empty() && now > q.first + 1_800 {
            q.pending.clear();
            say("discard_round", vec![], &mut self.said);
        }
        if q.pending.is_empty() {
            q.first = now;
        }
        let st = self.stats.get_mut(&o).unwrap();
        st.1 += 1;
        if q.pending.contains_key(&o) {
            let mut v = now.to_be_bytes().to_vec();
            v.extend(q.first.to_be_bytes());
            v.push(1);
            say("discard_submission", v, &mut self.said);
            return;
        }
        st.0 += 1;
        say("add_submission", a_big(price), &mut self.said);
        q.pending.insert(o, price.clone());
        if q.pending.len() >= self.count {
            let mut v: Vec<B> = q.pending.values().cloned().collect();
            v.sort();
            let n = v.len();
            let m = if n % 2 == 1 { v[n / 2].clone() } else { (&v[n / 2 - 1] + &v[n / 2]) / 2u32 };
            let mut v = n_big(&m);
            v.extend(now.to_be_bytes());
            v.extend(BLOCK.to_be_bytes());
            v.extend(EPOCH.to_be_bytes());
            say("new_round", v, &mut self.said);
            q.last = Some((m, now, round));
            q.pending.clear();
        }
    }
    fn count_ok(&self, n: usize) -> bool {
        n >= 1 && n <= 50 && n <= self.oracles.len()
    }
    /// the state afterwards, None when refused
    fn step(&self, op: &O) -> Option<M> {
        let mut m = self.clone();
        m.said.clear();
        let fresh = |d: i64| (-30..=0).contains(&d);
        match op {
            O::Submit(o, p, d, x) => {
                if m.paused || !m.oracles.contains(o) || !fresh(*d) {
                    return None;
                }
                m.submit(*o, *p, x);
            }
            O::Batch(o, v) => {
                if m.paused || !m.oracles.contains(o) || v.iter().any(|x| !fresh(x.1)) {
                    return None;
                }
                for (p, _, x) in v {
                    m.submit(*o, *p, x);
                }
            }
            O::Advance(t) => m.now += t,
            O::Count(by, n) => {
                if *by != OWNER || !m.count_ok(*n) {
                    return None;
                }
                m.count = *n;
            }
            O::Add(by, v) => {
                if *by != OWNER {
                    return None;
                }
                for o in v {
                    if !m.oracles.contains(o) {
                        m.oracles.push(*o);
                        m.stats.insert(*o, (0, 0));
                    }
                }
                m.oracles.sort();
            }
            O::Remove(by, n, v) => {
                if *by != OWNER {
                    return None;
                }
                m.oracles.retain(|o| !v.contains(o));
                m.stats.retain(|o, _| !v.contains(o));
                if !m.count_ok(*n) {
                    return None;
                }
                m.count = *n;
            }
            O::Pause(by) | O::Unpause(by) => {
                if *by != OWNER {
                    return None;
                }
                m.paused = matches!(op, O::Pause(_));
            }
            O::Upgrade => m.paused = true,
        }
        Some(m)
    }
}

// ------------------------------------------------------------ the contract
struct A {
    w: World,
    owner: Addr,
    agg: Addr,
}
fn who(a: &A, o: usize) -> Addr {
    if o == OWNER { a.owner.clone() } else { user(&format!("oracle{o}")) }
}
fn deploy(count: usize, oracles: usize) -> (A, bool) {
    let mut w = World::new();
    let owner = user("owner");
    let agg = sc("aggregator");
    w.add_account(&owner);
    for o in 0..60 {
        w.add_account(&user(&format!("oracle{o}")));
    }
    w.set_now(T0);
    w.state_mut().current_block_info.block_nonce = BLOCK;
    w.state_mut().current_block_info.block_epoch = EPOCH;
    let mut args = vec![a_u64(count as u64)];
    args.extend((0..oracles).map(|o| a_addr(&user(&format!("oracle{o}")))));
    let r = w.deploy(&owner, &agg, "aggregator", args);
    (A { w, owner, agg }, r.ok)
}
impl A {
    fn exec(&mut self, op: &O) -> Res {
        let one = |p: usize, t: u64, x: &B| vec![a_str(PAIRS[p].0), a_str(PAIRS[p].1), a_u64(t), a_big(x)];
        let at = |n: u64, d: i64| (n as i64 + d) as u64;
        let n = self.w.now();
        let (by, f, args) = match op {
            O::Advance(t) => {
                self.w.set_now(n + t);
                return Res { ok: true, msg: String::new(), vals: vec![], logs: vec![] };
            }
            O::Submit(o, p, d, x) => (*o, "submit", one(*p, at(n, *d), x)),
            O::Batch(o, v) => (*o, "submitBatch", v.iter().flat_map(|(p, d, x)| one(*p, at(n, *d), x)).collect()),
            O::Count(o, k) => (*o, "setSubmissionCount", vec![a_u64(*k as u64)]),
            O::Add(o, v) => (*o, "addOracles", v.iter().map(|x| a_addr(&who(self, *x))).collect()),
            O::Remove(o, k, v) => {
                let mut a = vec![a_u64(*k as u64)];
                a.extend(v.iter().map(|x| a_addr(&who(self, *x))));
                (*o, "removeOracles", a)
            }
            O::Pause(o) => (*o, "pause", vec![]),
            O::Unpause(o) => (*o, "unpause", vec![]),
            O::Upgrade => (OWNER, "upgradeContract", vec![b"aggregator".to_vec(), vec![5, 6]]),
        };
        let (by, c) = (who(self, by), self.agg.clone());
        self.w.call(&by, &c, f, args, &[])
    }
    fn q(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let c = self.agg.clone();
        self.w.query(&c, f, args)
    }
    fn feed(d: &mut Dec) -> (u32, String, String, u64, B) {
        (d.u32(), d.string(), d.string(), d.u64(), d.big())
    }
    /// everything the contract answers, compared with the model
    fn compare(&mut self, m: &M) -> Result<(), (String, String)> {
        let bad = |k: &str, d: String| Err((k.to_string(), d));
        let r = self.q("getOracles", vec![]);
        let mut want: Vec<Vec<u8>> = m.oracles.iter().map(|o| a_addr(&who(self, *o))).collect();
        let mut got = r.vals.clone();
        want.sort();
        got.sort();
        if !r.ok || want != got {
            return bad("oracles", format!("{} listed, expected {:?}", got.len(), m.oracles));
        }
        let r = self.q("submission_count", vec![]);
        if !r.ok || top_u64(&r.vals[0]) != m.count as u64 {
            return bad("count", format!("{:?}, expected {}", r.vals, m.count));
        }
        let r = self.q("isPaused", vec![]);
        if !r.ok || (top_u64(&r.vals[0]) != 0) != m.paused {
            return bad("paused", format!("{:?}, expected {}", r.vals, m.paused));
        }
        for (i, p) in PAIRS.iter().enumerate() {
            let r = self.q("latestPriceFeed", vec![a_str(p.0), a_str(p.1)]);
            match (&m.pairs[i].last, m.paused) {
                (Some((x, t, id)), false) => {
                    if !r.ok {
                        return bad("feed-refused", r.msg);
                    }
                    let got = Self::feed(&mut Dec::new(&r.vals[0]));
                    if got != (*id, p.0.to_string(), p.1.to_string(), *t, x.clone()) {
                        return bad("feed", format!("{got:?}, expected round {id} time {t} price {x}"));
                    }
                }
                _ => {
                    if r.ok {
                        return bad("feed-answered", format!("{p:?} paused {}", m.paused));
                    }
                }
            }
        }
        let args = [0usize, 2, 1].iter().map(|i| { let mut v = n_bytes(PAIRS[*i].0.as_bytes()); v.extend(n_bytes(PAIRS[*i].1.as_bytes())); v }).collect();
        let r = self.q("latestRoundData", args);
        if r.ok == m.paused {
            return bad("rounds-pause", r.msg);
        }
        if r.ok {
            let want: Vec<_> = [0usize, 2, 1]
                .iter()
                .filter_map(|i| m.pairs[*i].last.clone().map(|(x, t, id)| (id, PAIRS[*i].0.to_string(), PAIRS[*i].1.to_string(), t, x)))
                .collect();
            let got: Vec<_> = r.vals.iter().map(|v| Self::feed(&mut Dec::new(v))).collect();
            if want != got {
                return bad("rounds", format!("{got:?}, expected {want:?}"));
            }
        }
        Ok(())
    }
    /// the events of one transaction and the submission record, compared
    fn announced(&mut self, r: &Res, mut want: Vec<Vec<Vec<u8>>>, m: &M) -> Vec<(String, String)> {
        let mut bad = vec![];
        let ours: [&[u8]; 4] = [b"new_round", b"add_submission", b"discard_submission", b"discard_round"];
        let mut got: Vec<Vec<Vec<u8>>> = vec![];
        if r.ok {
            for l in r.logs.iter().filter(|l| l.2.first().is_some_and(|t| ours.contains(&&t[..]))) {
                if l.0 != self.agg {
                    bad.push(("announced-by-another".to_string(), format!("{:?}", l.0)));
                }
                got.push(l.2.clone());
            }
        }
        got.sort();
        want.sort();
        let name = |v: &Vec<Vec<u8>>| String::from_utf8_lossy(&v[0]).to_string();
        for e in &got {
            let n = got.iter().filter(|x| *x == e).count();
            let k = want.iter().filter(|x| *x == e).count();
            if n > k {
                bad.push((format!("announced-wrongly:{}", name(e)), format!("{:?}, expected {:?}", e, want)));
            }
        }
        for e in &want {
            let n = got.iter().filter(|x| *x == e).count();
            let k = want.iter().filter(|x| *x == e).count();
            if n < k {
                bad.push((format!("unannounced:{}", name(e)), format!("{:?}, announced {:?}", e, got)));
            }
        }
        for (o, (acc, all)) in &m.stats {
            let mut k = b"oracle_status.mapped".to_vec();
            k.extend(a_addr(&who(self, *o)));
            let v = self.w.acct(&self.agg).storage.get(&k).cloned().unwrap_or_default();
            let mut e = acc.to_be_bytes().to_vec();
            e.extend(all.to_be_bytes());
            if v != e {
                bad.push(("record".into(), format!("oracle {o}: {v:?}, expected {acc} of {all}")));
            }
        }
        bad
    }
    fn hash(&self) -> u128 {
        hash_world(&self.w)
    }
}

// ------------------------------------------------------------ exploration
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    State,
    Said,
}
struct N {
    snap: Snap,
    m: M,
    path: Vec<O>,
    h: u128,
}
fn model_hash(m: &M) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
fn explore_agg(g: &str, what: What, out: &mut GridOut, depth: usize, count: usize, oracles: usize, ops: impl Fn(&M, usize) -> Vec<O> + Sync) {
    let (mut a, ok) = deploy(count, oracles);
    if !ok {
        out.fail(g, "init-refused", format!("{count} of {oracles}"));
        return;
    }
    let m = M::new(count, oracles);
    if what == What::State {
        if let Err((k, d)) = a.compare(&m) {
            out.fail(g, format!("init:{k}"), d);
            return;
        }
    }
    let h = a.hash();
    let seen: Vec<Mutex<HashSet<(u128, u64)>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    seen[(h & 63) as usize].lock().unwrap().insert((h, model_hash(&m)));
    let mut states = 1u64;
    let mut frontier = vec![N { snap: a.w.snapshot(), m, path: vec![], h }];
    for dp in 0..depth {
        let next = AtomicUsize::new(0);
        let last = dp + 1 == depth;
        let (fr, seen_r, ops_r) = (&frontier, &seen, &ops);
        let rs: Vec<(Vec<N>, GridOut, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads().min(fr.len().max(1)))
                .map(|_| {
                    let next = &next;
                    s.spawn(move || {
                        let (mut a, _) = deploy(1, 1);
                        let mut o = GridOut::default();
                        let (mut nf, mut ns) = (vec![], 0u64);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= fr.len() || o.bad.len() >= 20 {
                                break;
                            }
                            let n = &fr[i];
                            a.w.restore(&n.snap);
                            let mut dirty = false;
                            for op in ops_r(&n.m, dp) {
                                if dirty {
                                    a.w.restore(&n.snap);
                                    dirty = false;
                                }
                                let r = a.exec(&op);
                                let h = a.hash();
                                let want = n.m.step(&op);
                                let hist = || {
                                    let mut v = n.path.clone();
                                    v.push(op.clone());
                                    format!("{v:?}")
                                };
                                let k = format!("{op:?}");
                                let k = k.split('(').next().unwrap().to_string();
                                o.counters.hit(&format!("{}:{k}", if r.ok { "accepted" } else { "refused" }));
                                match (&want, r.ok) {
                                    _ if what == What::Said => {}
                                    (None, true) => o.fail(g, format!("accepted:{k}"), hist()),
                                    (Some(_), false) => o.fail(g, format!("refused:{k}"), format!("{}: {}", r.msg, hist())),
                                    _ => {}
                                }
                                if !r.ok && h != n.h && what == What::State {
                                    o.fail(g, format!("refusal-changed-state:{k}"), hist());
                                }
                                let mut m2 = want.unwrap_or_else(|| M { said: vec![], ..n.m.clone() });
                                let said = std::mem::take(&mut m2.said);
                                if what == What::Said {
                                    for (k, d) in a.announced(&r, said, &m2) {
                                        o.fail(g, k, format!("{d}: {}", hist()));
                                    }
                                    if r.ok {
                                        o.accepted += 1;
                                    }
                                } else if r.ok {
                                    o.accepted += 1;
                                    if let Err((kk, d)) = a.compare(&m2) {
                                        o.fail(g, format!("{kk}:{k}"), format!("{d}: {}", hist()));
                                    }
                                }
                                if h != n.h {
                                    dirty = true;
                                }
                                if h != n.h || m2 != n.m {
                                    let key = (h, model_hash(&m2));
                                    if seen_r[(h & 63) as usize].lock().unwrap().insert(key) {
                                        ns += 1;
                                        if last {
                                            o.sample(hist);
                                        } else {
                                            let mut path = n.path.clone();
                                            path.push(op.clone());
                                            nf.push(N { snap: a.w.snapshot(), m: m2, path, h });
                                        }
                                    }
                                }
                            }
                        }
                        (nf, o, ns)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut nf = vec![];
        for (v, o, ns) in rs {
            nf.extend(v);
            states += ns;
            out.accepted += o.accepted;
            out.bad.extend(o.bad);
            out.counters.add(&o.counters);
            if out.samples.len() < 3 {
                out.samples.extend(o.samples.into_iter().take(1));
            }
        }
        frontier = nf;
        if !out.bad.is_empty() {
            break;
        }
    }
    out.cases += states;
}

fn p(x: u64) -> B {
    B::from(x)
}
fn grid(name: &str, f: impl Fn(&mut GridOut) + Send + Sync + 'static) -> Grid {
    Grid { name: name.into(), run: Arc::new(f) }
}
pub fn announcements() -> Vec<Grid> {
    vec![rounds(What::Said), admin(What::Said)]
}
fn rounds(what: What) -> Grid {
        grid("rounds", move |out| {
            for (count, oracles) in [(2usize, 3usize), (3, 3), (1, 2)] {
                let depth = if out.thorough { 8 } else { 6 };
                explore_agg("rounds", what, out, depth, count, oracles, move |m, _| {
                    if m.paused {
                        return vec![O::Unpause(OWNER)];
                    }
                    let mut v = vec![O::Advance(1), O::Advance(1_800), O::Advance(1_801)];
                    for o in 0..oracles {
                        v.push(O::Submit(o, 0, 0, p(100 + 201 * o as u64)));
                        v.push(O::Submit(o, 1, -30, p(7)));
                    }
                    v.push(O::Submit(0, 0, 0, p(1) << 90));
                    v.push(O::Submit(1, 0, -31, p(5)));
                    v.push(O::Submit(1, 0, 1, p(5)));
                    v.push(O::Submit(oracles, 0, 0, p(5)));
                    v.push(O::Submit(OWNER, 0, 0, p(5)));
                    v.push(O::Batch(2 % oracles, vec![(0, 0, p(40)), (2, -30, p(60)), (0, 0, p(41))]));
                    v.push(O::Batch(1, vec![(1, 0, p(40)), (0, -31, p(60))]));
                    v.push(O::Batch(1, vec![(1, 0, p(40)), (0, 1, p(60))]));
                    v.push(O::Batch(oracles, vec![(1, 0, p(40))]));
                    v
                });
            }
        })
}
fn admin(what: What) -> Grid {
        grid("admin", move |out| {
            let depth = if out.thorough { 8 } else { 7 };
            explore_agg("admin", what, out, depth, 2, 3, |m, _| {
                let mut v = vec![O::Pause(OWNER), O::Unpause(OWNER), O::Pause(0), O::Unpause(0), O::Upgrade, O::Advance(1_801)];
                for n in 0..=5 {
                    v.push(O::Count(OWNER, n));
                }
                v.push(O::Count(0, 1));
                v.push(O::Add(OWNER, vec![3, 0]));
                v.push(O::Add(OWNER, vec![4]));
                v.push(O::Add(0, vec![5]));
                v.push(O::Remove(OWNER, 1, vec![0]));
                v.push(O::Remove(OWNER, 2, vec![1, 2]));
                v.push(O::Remove(OWNER, 1, vec![9]));
                v.push(O::Remove(OWNER, 3, vec![0]));
                v.push(O::Remove(1, 1, vec![0]));
                for o in 0..5 {
                    v.push(O::Submit(o, 0, 0, p(10 + 11 * o as u64)));
                }
                v.push(O::Batch(3, vec![(0, 0, p(80)), (1, 0, p(90))]));
                if m.paused {
                    v.push(O::Batch(0, vec![]));
                }
                v
            });
        })
}
pub fn grids() -> Vec<Grid> {
    vec![
        rounds(What::State),
        admin(What::State),
        grid("median", |out| {
            let top = if out.thorough { 7 } else { 6 };
            let prices: Vec<B> = vec![p(10), p(11), p(25), (p(1) << 100) + 1u32];
            for n in 1..=top {
                let prices = prices.clone();
                let take = if n >= 6 && !out.thorough { 3 } else { 4 };
                explore_agg("median", What::State, out, n + 1, n, n, move |m, _| {
                    if m.paused {
                        return vec![O::Unpause(OWNER)];
                    }
                    if m.pairs[0].last.is_some() {
                        return vec![];
                    }
                    let o = m.pairs[0].pending.len();
                    prices[..take].iter().map(|x| O::Submit(o, 0, 0, x.clone())).collect()
                });
            }
        }),
        grid("limits", |out| {
            const G: &str = "limits";
            for n in [0usize, 1, 2, 3, 49, 50, 51, 52] {
                for c in [0usize, 1, 2, 3, 4, 49, 50, 51, 52, 53] {
                    out.cases += 1;
                    let (mut a, ok) = deploy(c, n);
                    let want = c >= 1 && c <= n && c <= 50;
                    if ok != want {
                        out.fail(G, "init", format!("count {c} of {n} oracles: accepted {ok}"));
                    }
                    if !ok {
                        continue;
                    }
                    out.accepted += 1;
                    let mut m = M::new(c, n);
                    let mut ops = vec![O::Unpause(OWNER)];
                    ops.extend((0..n).map(|o| O::Submit((o * 7) % n, 0, 0, p(((o * 31) % 53) as u64 * 1_000 + 3))));
                    for k in [50usize, 51, 49, n, n + 1] {
                        ops.push(O::Count(OWNER, k));
                    }
                    for k in 0..3 {
                        ops.push(O::Submit(k, 0, 0, p(77 + k as u64)));
                    }
                    for op in ops {
                        let w = m.step(&op);
                        let r = a.exec(&op);
                        if r.ok != w.is_some() {
                            out.fail(G, "acceptance", format!("count {c} of {n}: {op:?} accepted {}", r.ok));
                            break;
                        }
                        if let Some(w) = w {
                            m = w;
                        }
                        if let Err((k, d)) = a.compare(&m) {
                            out.fail(G, k, format!("count {c} of {n}, after {op:?}: {d}"));
                            break;
                        }
                    }
                }
            }
        }),
    ]
}
