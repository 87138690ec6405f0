//! Scenarios: a deployment, the operations tried in every state, and monitors.

use crate::client::*;
use crate::explore::*;
use crate::model::*;
use crate::setup::*;
use crate::svm::World;
use solana_program::pubkey::Pubkey;
use std::{collections::BTreeMap, sync::Arc};

/// History the state itself does not record.
pub type Ghost = BTreeMap<(u8, Pubkey), i128>;

#[derive(Clone)]
pub struct St {
    pub w: World,
    pub o: Arc<Obs>,
    pub g: Ghost,
}

impl St {
    pub fn new(w: World) -> St {
        let o = Arc::new(observe(&w));
        St {
            w,
            o,
            g: Ghost::new(),
        }
    }
}

pub type OpsFn = Box<dyn Fn(&St) -> Vec<Op> + Sync>;
/// (before, operation, after if accepted, ghost to update)
pub type MonFn = Box<dyn Fn(&St, &Op, Option<&Obs>, &mut Ghost) -> Vec<Div> + Sync>;
pub type InvFn = Box<dyn Fn(&St) -> Vec<Div> + Sync>;

pub struct Scn {
    pub dep: Dep,
    pub inits: Vec<(String, St)>,
    pub ops: OpsFn,
    pub mon: Option<MonFn>,
    pub inv: Option<InvFn>,
}

impl Scn {
    pub fn new(dep: Dep, inits: Vec<(String, World)>, ops: impl Fn(&St) -> Vec<Op> + Sync + 'static) -> Scn {
        Scn {
            dep,
            inits: inits.into_iter().map(|(n, w)| (n, St::new(w))).collect(),
            ops: Box::new(ops),
            mon: None,
            inv: None,
        }
    }
    pub fn mon(mut self, f: impl Fn(&St, &Op, Option<&Obs>, &mut Ghost) -> Vec<Div> + Sync + 'static) -> Scn {
        self.mon = Some(Box::new(f));
        self
    }
    pub fn inv(mut self, f: impl Fn(&St) -> Vec<Div> + Sync + 'static) -> Scn {
        self.inv = Some(Box::new(f));
        self
    }
}

pub fn inv(name: &str, detail: String) -> Div {
    Div {
        op: "inv".into(),
        aspect: format!("inv:{name}"),
        detail,
    }
}

impl Model for Scn {
    type S = St;
    type O = Op;
    type P = (World, Arc<Ghost>);
    fn pack(&self, s: St) -> Self::P {
        (s.w, Arc::new(s.g))
    }
    fn unpack(&self, p: &Self::P) -> St {
        St {
            w: p.0.clone(),
            o: Arc::new(observe(&p.0)),
            g: (*p.1).clone(),
        }
    }
    fn init(&self) -> Vec<(String, St)> {
        self.inits.clone()
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        (self.ops)(s)
    }
    fn step(&self, s: &St, op: &Op) -> (Option<St>, Vec<Div>) {
        let (n, got, mut divs) = step_full(&s.w, &s.o, op, &self.dep);
        let mut g = s.g.clone();
        if let Some(m) = &self.mon {
            divs.extend(m(s, op, got.as_ref(), &mut g));
        }
        (
            n.map(|w| St {
                w,
                o: Arc::new(got.unwrap()),
                g,
            }),
            divs,
        )
    }
    fn key(&self, s: &St) -> u128 {
        let mut h = KeyHasher::new();
        world_key(&mut h, &s.w);
        for (k, v) in &s.g {
            h.add(&(k.0, k.1.to_bytes(), *v));
        }
        h.finish()
    }
    fn check(&self, s: &St) -> Vec<Div> {
        self.inv.as_ref().map_or(vec![], |f| f(s))
    }
    fn op_name(&self, o: &Op) -> String {
        o.name().into()
    }
}

// ------------------------------------------------------------- op shorthands

pub fn args(amount: u64, chain: u16, queue: bool) -> TransferArgs {
    TransferArgs {
        amount,
        chain,
        recipient: a32("remote-recipient"),
        queue,
    }
}

/// A transfer by `who` from its own account, approving exactly the amount.
pub fn xfer(d: &Dep, who: &str, outbox: Pubkey, a: TransferArgs) -> Op {
    Op::Transfer {
        burn: d.burning,
        payer: k("payer"),
        owner: k(who),
        from: d.ata(&k(who)),
        outbox,
        approve: Some(a.amount),
        args: a,
    }
}

pub fn ob(i: usize) -> Pubkey {
    k(&format!("outbox-{i}"))
}

/// The next unused queue item key, if fewer than `max` are in use.
pub fn next_ob(o: &Obs, max: usize) -> Option<Pubkey> {
    let n = o.outbox.len();
    (n < max).then(|| ob(n))
}

pub fn release(d: &Dep, item: Pubkey, to: &str, revert: bool) -> Op {
    Op::Release {
        burn: d.burning,
        item,
        to: d.ata(&k(to)),
        revert,
    }
}

/// Runs a sequence of operations that must all succeed.
pub fn honest(mut w: World, d: &Dep, ops: &[Op]) -> Result<World, String> {
    for op in ops {
        w = run_op(&w, op, d).map_err(|e| format!("{op:?} failed: {e}"))?;
    }
    Ok(w)
}

/// One step inside a sweep case.
pub fn case_step(c: &mut Case, w: &World, op: &Op, d: &Dep) -> Option<World> {
    let (n, divs) = step(w, op, d);
    c.did(n.as_ref());
    c.divs.extend(divs);
    n
}

/// Clock steps to every later instant of a fixed lattice (offsets from `t0`).
pub fn clock(st: &St, t0: i64, lattice: &[i64]) -> Vec<Op> {
    lattice
        .iter()
        .filter(|x| t0 + **x > st.o.now)
        .map(|x| Op::Advance(t0 + x - st.o.now))
        .collect()
}
