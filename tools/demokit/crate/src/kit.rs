//! Helpers of the demonstration: a chain in one process, honest users, checks.
pub use crate::client::*;
pub use crate::model::{observe, run_op, set_quorum, Obs, Op, DAY};
pub use crate::programs::*;
pub use crate::setup::*;
pub use crate::svm::{exec, rent_min, World};
pub use solana_program::pubkey::Pubkey;

pub fn args(amount: u64, chain: u16, queue: bool) -> TransferArgs {
    TransferArgs { amount, chain, recipient: a32("remote-recipient"), queue }
}
/// A transfer by `who`, approving exactly the amount.
pub fn xfer(d: &Dep, who: &str, outbox: &str, a: TransferArgs) -> Op {
    Op::Transfer { burn: d.burning, payer: k("payer"), owner: k(who), from: d.ata(&k(who)), outbox: k(outbox), approve: Some(a.amount), args: a }
}
pub fn pay(d: &Dep, item: Pubkey, to: &str, revert: bool) -> Op {
    Op::Release { burn: d.burning, item, to: d.ata(&k(to)), revert }
}
/// Executes an operation that an honest user expects to succeed.
pub fn ok(w: &World, op: Op, d: &Dep) -> World {
    match run_op(w, &op, d) {
        Ok(w) => w,
        Err(e) => fail(&format!("{op:?} was rejected: {e}")),
    }
}
/// Executes an operation that has to be rejected.
pub fn refused(w: &World, op: Op, d: &Dep) {
    if run_op(w, &op, d).is_ok() {
        fail(&format!("{op:?} was accepted"));
    }
}
pub fn fail(why: &str) -> ! {
    eprintln!("FAIL: {why}");
    std::process::exit(1)
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        fail(&format!("{what}: {got:?}, expected {want:?}"));
    }
}
pub fn balance(w: &World, a: &Pubkey) -> u64 {
    observe(w).tokens[a].amount
}
pub fn later(w: &World, s: i64) -> World {
    let mut n = w.clone();
    n.now += s;
    n.slot += s as u64;
    n
}
/// Receives and redeems a message through the built-in transceiver.
pub fn deliver(w: &World, d: &Dep, chain: u16, x: &XMsg) -> World {
    let mut w = w.clone();
    let vaa = post_vaa(&mut w, &format!("vaa-{chain}-{}-{}", x.msg.id[31], x.msg.amount), &MGR, chain, x);
    let w = ok(&w, Op::Receive { prog: MGR, vaa }, d);
    ok(&w, Op::Redeem { t: MGR, vtm: vtm(&MGR, chain, &x.msg.id) }, d)
}
