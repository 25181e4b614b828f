#![allow(dead_code)]
mod aggregator;
mod alpha;
mod crash;
mod engine;
mod env_mock;
mod events;
mod exits;
mod wealth;
mod batch;
mod order;
mod exec;
mod lending;
mod model;
mod oracle;
mod oracles;
mod grids;
mod probe;
mod props;
mod views;
mod world;
use engine::*;
use model::Op;
use serde_json::json;

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// The VM prints refusals on stdout; keep the real stdout for ourselves.
pub static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
fn grab_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let f = unsafe {
        let k = dup(1);
        dup2(null.as_raw_fd(), 1);
        OUTFD.store(k, std::sync::atomic::Ordering::Relaxed);
        std::fs::File::from_raw_fd(k)
    };
    OUT.set(std::sync::Mutex::new(f)).ok();
}
/// From a signal handler or the watchdog: take no lock.
pub fn raw_out(t: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let fd = OUTFD.load(std::sync::atomic::Ordering::Relaxed);
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = f.write_all(t.as_bytes());
}
static OUTFD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
#[macro_export]
macro_rules! out {
    ($($a:tt)*) => {{
        use std::io::Write;
        let mut f = $crate::OUT.get().unwrap().lock().unwrap();
        let _ = writeln!(f, $($a)*);
    }};
}

const ROOT: &str = "/verif";

/// Findings that are recorded rather than repaired: lines
/// `known: property=<id> scenario=<name> kind=<kind> last=<operation>`
fn known_list() -> Vec<(String, String, String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{ROOT}/known-findings.jsonl")) {
        for l in s.lines() {
            if let Ok(j) = serde_json::from_str::<serde_json::Value>(l) {
                let g = |k: &str| j[k].as_str().unwrap_or("").to_string();
                if g("status") == "known" {
                    v.push((g("property"), g("scenario"), g("kind"), g("history"), g("what")));
                }
            }
        }
    }
    v
}

fn main() {
    grab_stdout();
    if std::env::var("MC_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|x| x.as_str()) == Some("thorough")),
        Some("replay") => replay_file(&a[2]),
        _ => {
            out!("usage: mc check <property> quick|thorough | mc replay <file>");
            2
        }
    };
    std::process::exit(code);
}

fn check(id: &str, thorough: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let Some(c) = props::build(id, thorough) else {
        out!("unknown property {id}");
        return 2;
    };
    crash::install(id, thorough);
    let klist = known_list();
    let only = std::env::var("MC_ONLY").unwrap_or_default();
    let mut tot = Stats::default();
    let mut bad: Vec<Found> = vec![];
    let mut known_seen: Vec<String> = vec![];
    let mut scen = vec![];
    for (sc, or) in &c.scenarios {
        if !only.is_empty() && !sc.name.contains(&only) {
            continue;
        }
        let kf = |f: &Found| {
            klist.iter().any(|k| {
                k.0 == id && k.1 == f.scenario && k.2 == f.v.kind && k.3 == format!("{:?}", f.ops)
            })
        };
        let ((st, b, k), secs) = timed(|| explore(sc, or, &kf));
        out!(
            "# {id} {}: depth {} states {} transitions {} (accepted {}) {:.1}s",
            sc.name, st.depth, st.states, st.transitions, st.accepted, secs
        );
        scen.push(json!({
            "scenario": sc.name, "depth": st.depth, "states_per_level": st.levels, "states": st.states,
            "transitions": st.transitions, "accepted": st.accepted, "rejected": st.rejected,
            "wall_s": secs, "by_kind": st.counters.m,
        }));
        for f in k {
            let w = klist.iter().find(|x| x.0 == id && x.2 == f.v.kind).map(|x| x.4.clone()).unwrap_or_default();
            if !known_seen.contains(&w) {
                known_seen.push(w);
            }
        }
        tot.states += st.states;
        tot.transitions += st.transitions;
        tot.accepted += st.accepted;
        tot.samples.extend(st.samples.iter().take(2).map(|x| format!("{}: {}", sc.name, x)));
        bad.extend(b);
        if !bad.is_empty() {
            break;
        }
    }
    for g in &c.grids {
        if !bad.is_empty() || (!only.is_empty() && !g.name.contains(&only)) {
            break;
        }
        let mut o = props::GridOut { thorough, ..Default::default() };
        let e0 = world::EXECS.load(std::sync::atomic::Ordering::Relaxed);
        crash::grid(&g.name);
        let (r, secs) = timed(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (g.run)(&mut o))));
        if let Err(p) = r {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            o.bad.push(Found { scenario: g.name.clone(), ops: vec![], v: viol("setup-refused", m) });
        }
        let execs = world::EXECS.load(std::sync::atomic::Ordering::Relaxed) - e0;
        out!("# {id} {}: cases {} executions {execs} {:.1}s", g.name, o.cases, secs);
        scen.push(json!({"scenario": g.name, "cases": o.cases, "executions": execs, "wall_s": secs, "by_kind": o.counters.m}));
        tot.states += o.cases;
        tot.transitions += execs;
        tot.accepted += o.accepted;
        tot.samples.extend(o.samples.iter().take(2).map(|x| format!("{}: {}", g.name, x)));
        bad.extend(o.bad);
    }
    for w in &known_seen {
        out!("KNOWN-FINDING: property={id} {w}");
    }
    let mut code = 0;
    if let Some(f) = bad.first() {
        code = 1;
        let dir = format!("{ROOT}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{id}.json");
        let j = json!({
            "property": id, "tier": if thorough {"thorough"} else {"quick"}, "scenario": f.scenario,
            "kind": f.v.kind, "detail": f.v.detail,
            "ops": f.ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(),
            "others": bad.iter().skip(1).take(10).map(|x| format!("{} {}", x.v.kind, x.v.detail)).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
        out!("{}: {} ({})", f.scenario, f.v.kind, f.v.detail);
        for o in &f.ops {
            out!("   {o:?}");
        }
        out!("VIOLATION property={id} replay={p}");
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.states, "transitions": tot.transitions,
            "traces_validated_against_impl": tot.accepted,
            "samples": tot.samples,
            "exhaustive": bad.is_empty(),
            "scenarios": scen,
            "explanation": "states: distinct complete chain states reached, plus distinct cases of the grids; transitions: operations executed on the real contracts (grids: contract executions counted at the VM boundary, one of which may answer a batch of cases); traces_validated_against_impl: accepted histories whose resulting state was compared with the reference model or invariant. Each scenario is enumerated completely to its depth.",
        },
        "assumptions": [
            "the MultiversX Rust VM (debugger backend) is faithful to the chain for the operations used",
            "contracts outside the repository (DEX pairs, swap router, accumulator, receivers) are replaced by a stand-in whose answers the explorer chooses",
            "completeness is relative to the stated alphabets, configurations and depths",
        ],
        "violations": bad.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    std::fs::write(format!("{ROOT}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    code
}

fn replay_file(p: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap();
    let th = j["tier"] == "thorough";
    let c = props::build(id, th).expect("property");
    let name = j["scenario"].as_str().unwrap();
    for (sc, or) in &c.scenarios {
        if sc.name != name {
            continue;
        }
        // recover the operations from the alphabet by their printed form
        let want: Vec<String> = j["ops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let mut ops: Vec<Op> = vec![];
        let mut l = lending::L::new(sc.cfg.clone());
        for o in &sc.init {
            l.exec(o);
        }
        for (i, w) in want.iter().enumerate() {
            if i < sc.init.len() && format!("{:?}", sc.init[i]) == *w && false {
                continue;
            }
            let o = (sc.alphabet)(&l.obs(), &sc.cfg, i).into_iter().find(|o| format!("{o:?}") == *w);
            let Some(o) = o else {
                out!("operation {w} not in the alphabet here");
                return 2;
            };
            l.exec(&o);
            ops.push(o);
        }
        let vs = replay(sc, or, &ops, true);
        return if vs.is_empty() { 0 } else { 1 };
    }
    for g in &c.grids {
        if g.name == name {
            let mut o = props::GridOut { thorough: th, only: Some(j["kind"].as_str().unwrap().into()), ..Default::default() };
            (g.run)(&mut o);
            for f in &o.bad {
                out!("VIOLATED {} {}", f.v.kind, f.v.detail);
            }
            return if o.bad.is_empty() { 0 } else { 1 };
        }
    }
    2
}
