//! The contracts run inside this process, so a change that makes them read
//! what is not there (an `unwrap_unchecked` of nothing), overflow the stack or
//! loop for ever takes the explorer down with them instead of being refused.
//! Both are reported as violations of the property being checked, with the
//! history that led there.
use crate::model::Op;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

const SLOTS: usize = 256;
/// One transaction takes about a millisecond; an execution that has been
/// running for this long is taken to have no end.
const STUCK_MS: u64 = 150_000;

#[derive(Default)]
struct Doing {
    scenario: String,
    ops: Vec<Op>,
    op: Option<Op>,
    call: String,
}
struct Slot {
    since: AtomicU64,
    doing: Mutex<Option<Doing>>,
}
static RUN: [Slot; SLOTS] = [const { Slot { since: AtomicU64::new(0), doing: Mutex::new(None) } }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static WHAT: Mutex<(String, &'static str, String)> = Mutex::new((String::new(), "quick", String::new()));
thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

fn t0() -> std::time::Instant {
    static T: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    *T.get_or_init(std::time::Instant::now)
}
fn now() -> u64 {
    t0().elapsed().as_millis() as u64 + 1
}
fn me() -> &'static Slot {
    let i = ME.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS);
            altstack();
        }
        m.get()
    });
    &RUN[i]
}
fn altstack() {
    const N: usize = 1 << 18;
    let p = Box::leak(vec![0u8; N].into_boxed_slice());
    unsafe {
        let s = libc::stack_t { ss_sp: p.as_mut_ptr().cast(), ss_flags: 0, ss_size: N };
        libc::sigaltstack(&s, std::ptr::null_mut());
    }
}

/// What the explorer is about to do on this thread.
pub fn history(scenario: &str, ops: Vec<Op>, op: &Op) {
    if let Ok(mut d) = me().doing.try_lock() {
        *d = Some(Doing { scenario: scenario.into(), ops, op: Some(op.clone()), call: String::new() });
    };
}
/// A grid names itself once; its cases have no operation history.
pub fn grid(name: &str) {
    WHAT.lock().unwrap().2 = name.into();
    for s in &RUN {
        if let Ok(mut d) = s.doing.try_lock() {
            *d = None;
        }
    }
}
pub struct Busy(&'static Slot);
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.since.store(0, Ordering::Relaxed);
    }
}
/// One execution at the VM boundary.
pub fn busy(func: &str, args: &[Vec<u8>]) -> Busy {
    let s = me();
    if let Ok(mut d) = s.doing.try_lock() {
        let d = d.get_or_insert_with(Doing::default);
        d.call.clear();
        d.call.push_str(func);
        for a in args {
            d.call.push('@');
            d.call.push_str(&hex::encode(a));
        }
    }
    s.since.store(now(), Ordering::Relaxed);
    Busy(s)
}

fn report(s: &Slot, kind: &str, how: &str) -> ! {
    let d = s.doing.try_lock().ok().and_then(|mut d| d.take()).unwrap_or_default();
    let (id, tier, grid) = match WHAT.try_lock() {
        Ok(w) => w.clone(),
        Err(_) => (String::new(), "quick", String::new()),
    };
    if !id.is_empty() {
        let scenario = if d.scenario.is_empty() { grid } else { d.scenario.clone() };
        let mut ops: Vec<String> = d.ops.iter().map(|o| format!("{o:?}")).collect();
        ops.extend(d.op.iter().map(|o| format!("{o:?}")));
        let call: String = d.call.chars().take(2000).collect();
        let detail = format!("{how} during {call}");
        let p = format!("{}/replays/{id}.json", crate::ROOT);
        let _ = std::fs::create_dir_all(format!("{}/replays", crate::ROOT));
        let j = serde_json::json!({
            "property": id, "tier": tier, "scenario": scenario, "kind": kind, "detail": detail, "ops": ops, "others": [],
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap_or_default());
        let mut t = format!("{scenario}: {kind} ({detail})\n");
        for o in &ops {
            t += &format!("   {o}\n");
        }
        t += &format!("VIOLATION property={id} replay={p}\n");
        crate::raw_out(&t);
    }
    unsafe { libc::_exit(1) }
}

extern "C" fn fatal(sig: i32) {
    let i = ME.with(|m| m.get());
    if i == usize::MAX || RUN[i].since.load(Ordering::Relaxed) == 0 {
        // our own fault, not the contracts': leave as the system would
        unsafe {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
            libc::_exit(2)
        }
    }
    report(&RUN[i], "the-contract-crashes", &format!("signal {sig}"))
}

pub fn install(id: &str, thorough: bool) {
    *WHAT.lock().unwrap() = (id.into(), if thorough { "thorough" } else { "quick" }, String::new());
    let _ = t0();
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = fatal as extern "C" fn(i32) as usize;
        a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let t = now();
        for s in &RUN {
            let b = s.since.load(Ordering::Relaxed);
            if b != 0 && t > b + STUCK_MS {
                report(s, "no-end", &format!("still running after {} s", (t - b) / 1000));
            }
        }
    });
}
