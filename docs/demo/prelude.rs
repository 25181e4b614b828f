#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod alpha;
mod env_mock;
mod exec;
mod lending;
mod model;
mod probe;
mod world;
mod crash {
    pub fn busy(_: &str, _: &[Vec<u8>]) {}
}
use alpha::*;
use lending::*;
use model::*;
use world::*;

/// run an operation that must be accepted
fn ok(l: &mut L, op: Op) {
    let r = l.exec(&op);
    if !r.ok {
        eprintln!("refused: {op:?}: {}", r.msg);
        std::process::exit(1);
    }
}
/// run an operation that must be refused
fn no(l: &mut L, op: Op) {
    let r = l.exec(&op);
    if r.ok {
        eprintln!("accepted: {op:?}");
        std::process::exit(1);
    }
}
fn must(c: bool, what: &str) {
    if !c {
        eprintln!("broken: {what}");
        std::process::exit(1);
    }
}
fn has(l: &L, u: usize, m: usize) -> B {
    l.w.balance(&l.users[u], l.tok(m))
}
/// a view of the controller about an account
fn view(l: &mut L, f: &str, args: Vec<Vec<u8>>) -> B {
    let r = l.q(f, args);
    if !r.ok {
        eprintln!("view {f}: {}", r.msg);
        std::process::exit(1);
    }
    top_dec(&r.vals[0]).0
}
/// user 1 provides 100000 USDC, 500 XEGLD and 1000 EGLD (account 1)
fn lp(l: &mut L) {
    ok(l, Op::Supply { u: 1, via: Via::New, emode: 0, pays: vec![(1, us(100_000)), (2, e(500)), (0, e(1_000))] });
}
