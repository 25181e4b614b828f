//! Exhaustive breadth-first exploration of the real contracts.
//!
//! Every transition of every reachable state within the depth bound is executed
//! on the implementation; the reference model is stepped from the same observed
//! state and the property's oracle judges the pair.

use crate::lending::*;
use crate::model::*;
use crate::world::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type Alphabet = Arc<dyn Fn(&Obs, &Cfg, usize) -> Vec<Op> + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub cfg: Cfg,
    /// executed first, each must be accepted
    pub init: Vec<Op>,
    pub alphabet: Alphabet,
    pub depth: usize,
}

pub struct Chain {
    pub op: Op,
    pub prev: Option<Arc<Chain>>,
}
pub type Path = Option<Arc<Chain>>;
pub fn path_vec(p: &Path) -> Vec<Op> {
    let mut v = vec![];
    let mut c = p.clone();
    while let Some(x) = c {
        v.push(x.op.clone());
        c = x.prev.clone();
    }
    v.reverse();
    v
}

/// One executed transition, as seen by an oracle.
pub struct T<'a> {
    pub cfg: &'a Cfg,
    pub pre: &'a Obs,
    pub op: &'a Op,
    pub res: &'a Res,
    pub post: &'a Obs,
    pub model: &'a R<Obs>,
    pub hash_pre: u128,
    pub hash_post: u128,
    /// operations executed before this one (after init)
    pub depth: usize,
    /// the deployment positioned at the post state (queries are side-effect free)
    pub l: &'a mut L,
    /// the chain before the operation
    pub before: Option<Snap>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub detail: String,
}
pub fn viol(kind: impl Into<String>, detail: impl Into<String>) -> Viol {
    Viol { kind: kind.into(), detail: detail.into() }
}
pub type Oracle = Arc<dyn Fn(&mut T, &mut Vec<Viol>, &mut Counters) + Send + Sync>;

#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub m: std::collections::BTreeMap<String, u64>,
}
impl Counters {
    pub fn hit(&mut self, k: &str) {
        *self.m.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, o: &Counters) {
        for (k, v) in &o.m {
            *self.m.entry(k.clone()).or_default() += v;
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub depth: usize,
    pub levels: Vec<u64>,
    pub counters: Counters,
    pub samples: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub ops: Vec<Op>,
    pub v: Viol,
}

struct Node {
    snap: Snap,
    path: Path,
    hash: u128,
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16)
    })
}

fn op_name(op: &Op) -> String {
    let s = format!("{op:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}

/// Explore one scenario. `known` filters violations that are listed findings.
pub fn explore(
    sc: &Scenario,
    oracle: &Oracle,
    known: &(dyn Fn(&Found) -> bool + Sync),
) -> (Stats, Vec<Found>, Vec<Found>) {
    let mut st = Stats::default();
    let mut bad: Vec<Found> = vec![];
    let mut knowns: Vec<Found> = vec![];
    // initial state
    let root = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut l = L::new(sc.cfg.clone());
        // the initial history is judged like every other one
        let ctx = Ctx::new(&sc.cfg);
        let mut st = Stats::default();
        for (i, op) in sc.init.iter().enumerate() {
            let pre = l.obs();
            let h0 = l.state_hash();
            let before = Some(l.w.snapshot());
            let res = l.exec(op);
            let h1 = l.state_hash();
            let post = l.obs();
            let model = ctx.step(&pre, op);
            let mut vs = vec![];
            let mut t = T {
                cfg: &sc.cfg,
                pre: &pre,
                op,
                res: &res,
                post: &post,
                model: &model,
                hash_pre: h0,
                hash_post: h1,
                depth: 0,
                l: &mut l,
                before,
            };
            oracle(&mut t, &mut vs, &mut st.counters);
            st.transitions += 1;
            if h0 != h1 {
                st.states += 1;
            }
            for v in vs {
                return Err(viol(format!("init:{}", v.kind), format!("initial operation {i} {op:?}: {}", v.detail)));
            }
            if !res.ok {
                return Err(viol("setup-refused", format!("initial operation {i} {op:?}: {}", res.msg)));
            }
            st.accepted += 1;
        }
        Ok((l.w.snapshot(), l.state_hash(), st))
    })) {
        Ok(Ok((s, h, s0))) => {
            st = s0;
            Node { snap: s, path: None, hash: h }
        }
        Ok(Err(v)) => {
            bad.push(Found { scenario: sc.name.clone(), ops: vec![], v });
            return (st, bad, knowns);
        }
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            bad.push(Found { scenario: sc.name.clone(), ops: vec![], v: viol("setup-refused", m) });
            return (st, bad, knowns);
        }
    };
    let shards: Vec<Mutex<HashSet<u128>>> = (0..256).map(|_| Mutex::new(HashSet::new())).collect();
    shards[(root.hash & 255) as usize].lock().unwrap().insert(root.hash);
    st.states += 1;
    st.levels.push(1);
    let mut frontier = vec![root];
    for depth in 1..=sc.depth {
        if frontier.is_empty() {
            break;
        }
        let last = depth == sc.depth;
        let next_i = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let n = frontier.len();
        let fr = &frontier;
        let shards_r = &shards;
        let results: Vec<(Vec<Node>, Stats, Vec<Found>, Vec<Found>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads().min(n.max(1)))
                .map(|_| {
                    s.spawn(|| {
                        let mut l = L::new(sc.cfg.clone());
                        let mut out = vec![];
                        let mut st = Stats::default();
                        let mut bad = vec![];
                        let mut knowns = vec![];
                        loop {
                            let i = next_i.fetch_add(1, Ordering::Relaxed);
                            if i >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let node = &fr[i];
                            l.w.restore(&node.snap);
                            let pre = l.obs();
                            let ops = (sc.alphabet)(&pre, &sc.cfg, depth - 1);
                            let ctx = Ctx::new(&sc.cfg);
                            let mut dirty = false;
                            for op in ops {
                                if dirty {
                                    l.w.restore(&node.snap);
                                    dirty = false;
                                }
                                crate::crash::history(&sc.name, path_vec(&node.path), &op);
                                let res = l.exec(&op);
                                st.transitions += 1;
                                let hash = l.state_hash();
                                let changed = hash != node.hash;
                                let post = if changed { l.obs() } else { pre.clone() };
                                let model = ctx.step(&pre, &op);
                                if res.ok {
                                    st.accepted += 1;
                                    st.counters.hit(&format!("accepted:{}", op_name(&op)));
                                } else {
                                    st.rejected += 1;
                                    st.counters.hit(&format!("rejected:{}", op_name(&op)));
                                }
                                let mut vs = vec![];
                                {
                                    let mut t = T {
                                        cfg: &sc.cfg,
                                        pre: &pre,
                                        op: &op,
                                        res: &res,
                                        post: &post,
                                        model: &model,
                                        hash_pre: node.hash,
                                        hash_post: hash,
                                        depth,
                                        l: &mut l,
                                        before: Some(node.snap.clone()),
                                    };
                                    oracle(&mut t, &mut vs, &mut st.counters);
                                }
                                let mut path: Path = None;
                                if !vs.is_empty() || changed {
                                    path = Some(Arc::new(Chain { op: op.clone(), prev: node.path.clone() }));
                                }
                                for v in vs {
                                    let f = Found { scenario: sc.name.clone(), ops: path_vec(&path), v };
                                    if known(&f) {
                                        if knowns.len() < 50 {
                                            knowns.push(f);
                                        }
                                    } else {
                                        if bad.len() < 50 {
                                            bad.push(f);
                                        }
                                        if bad.len() >= 50 {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                                if changed {
                                    dirty = true;
                                    let new = shards_r[(hash & 255) as usize].lock().unwrap().insert(hash);
                                    if new {
                                        st.states += 1;
                                        if !last {
                                            out.push(Node { snap: l.w.snapshot(), path, hash });
                                        }
                                        if st.samples.len() < 2 && last {
                                            st.samples.push(format!("{:?}", path_vec(&out.last().map(|n: &Node| n.path.clone()).unwrap_or(None))));
                                        }
                                    }
                                }
                            }
                        }
                        (out, st, bad, knowns)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(x) => x,
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                            .unwrap_or_default();
                        (
                            vec![],
                            Stats::default(),
                            vec![Found {
                                scenario: sc.name.clone(),
                                ops: vec![],
                                v: viol("undecodable-state", m),
                            }],
                            vec![],
                        )
                    }
                })
                .collect()
        });
        st.depth = depth;
        let mut nf = vec![];
        let mut lvl = 0;
        for (o, s, b, k) in results {
            nf.extend(o);
            lvl += s.states;
            st.states += s.states;
            st.transitions += s.transitions;
            st.accepted += s.accepted;
            st.rejected += s.rejected;
            st.counters.add(&s.counters);
            if st.samples.len() < 3 {
                st.samples.extend(s.samples);
            }
            bad.extend(b);
            knowns.extend(k);
        }
        st.levels.push(lvl);
        if st.samples.len() < 3 {
            for n in nf.iter().take(2) {
                st.samples.push(format!("{:?}", path_vec(&n.path)));
            }
        }
        frontier = nf;
        if !bad.is_empty() {
            break;
        }
    }
    bad.sort_by_key(|f| (f.ops.len(), format!("{:?}", f.ops)));
    (st, bad, knowns)
}

/// Execute a recorded history and print every step.
pub fn replay(sc: &Scenario, oracle: &Oracle, ops: &[Op], verbose: bool) -> Vec<Viol> {
    let mut l = L::new(sc.cfg.clone());
    for op in &sc.init {
        let r = l.exec(op);
        if verbose {
            crate::out!("init {op:?} -> {} {}", r.ok, r.msg);
        }
    }
    let ctx = Ctx::new(&sc.cfg);
    let mut all = vec![];
    for (i, op) in ops.iter().enumerate() {
        let pre = l.obs();
        let h0 = l.state_hash();
        let before = Some(l.w.snapshot());
        let res = l.exec(op);
        let h1 = l.state_hash();
        let post = l.obs();
        let model = ctx.step(&pre, op);
        if verbose {
            crate::out!(
                "step {} {op:?}\n   implementation: {} {}\n   model: {}",
                i + 1,
                if res.ok { "accepted" } else { "rejected" },
                res.msg,
                match &model {
                    Ok(_) => "accepts".to_string(),
                    Err(e) => format!("rejects ({e})"),
                }
            );
        }
        let mut vs = vec![];
        let mut c = Counters::default();
        let mut t = T {
            cfg: &sc.cfg,
            pre: &pre,
            op,
            res: &res,
            post: &post,
            model: &model,
            hash_pre: h0,
            hash_post: h1,
            depth: i + 1,
            l: &mut l,
            before,
        };
        oracle(&mut t, &mut vs, &mut c);
        if verbose {
            for v in &vs {
                crate::out!("   VIOLATED {}: {}", v.kind, v.detail);
            }
        }
        all.extend(vs);
    }
    all
}

pub fn timed<X>(f: impl FnOnce() -> X) -> (X, f64) {
    let t = Instant::now();
    let x = f();
    (x, t.elapsed().as_secs_f64())
}
