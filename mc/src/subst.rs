//! Account substitution: every account slot of an honest instruction replaced
//! by every other account of the world, by a byte-identical clone owned by a
//! foreign program, and by an account that does not exist; every signature dropped.

use crate::explore::*;
use crate::model::*;
use crate::client::*;
use crate::programs::*;
use crate::svm::{exec, Acct, World};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};
use std::collections::BTreeSet;

/// An honest operation in a state where it succeeds.
#[derive(Clone)]
pub struct Target {
    pub name: String,
    pub w: World,
    pub ixs: Vec<Instruction>,
    /// which instruction is attacked
    pub at: usize,
    /// slots whose account the caller may choose (payers, fresh accounts)
    pub free: Vec<usize>,
    /// substitutions that name another legitimate object
    pub allowed: Vec<(usize, Pubkey)>,
}

impl Target {
    pub fn new(name: &str, w: &World, op: &Op, d: &Dep, free: &[usize]) -> Target {
        let ixs = op.ixs(w, d);
        Target {
            name: name.into(),
            w: w.clone(),
            at: ixs.len() - 1,
            ixs,
            free: free.to_vec(),
            allowed: vec![],
        }
    }
    pub fn allow(mut self, slot: usize, key: Pubkey) -> Target {
        self.allowed.push((slot, key));
        self
    }
}

#[derive(Clone, Debug)]
pub enum Sub {
    Existing(Pubkey),
    /// same bytes and lamports, owned by another program
    Clone,
    /// same bytes, owned by the system program / another genuine program
    CloneOf(Pubkey),
    Missing,
    Unsigned,
}

pub fn candidates(w: &World) -> Vec<Pubkey> {
    let mut s: BTreeSet<Pubkey> = w.iter().map(|(k, _)| *k).collect();
    for p in [
        MGR, XCVR, QTR, HOOK, CORE, ALT, LOADER, ATA, TOKEN, TOKEN22, MOCK1, MOCK2, EVIL,
        system_program::ID,
        sysvar::clock::ID,
        sysvar::rent::ID,
        sysvar::instructions::ID,
    ] {
        s.insert(p);
    }
    s.into_iter().collect()
}

fn apply(t: &Target, w: &mut World, ixs: &mut [Instruction], slot: usize, s: &Sub) -> bool {
    let cur = ixs[t.at].accounts[slot].pubkey;
    let new = match s {
        Sub::Existing(k) => *k,
        Sub::Clone | Sub::CloneOf(_) => {
            let Some(a) = w.get(&cur).cloned() else { return false };
            let owner = match s {
                Sub::CloneOf(o) => *o,
                _ => EVIL,
            };
            if a.owner == owner {
                return false;
            }
            let key = k(&format!("clone-{cur}"));
            w.set(
                key,
                Acct {
                    owner,
                    ..a
                },
            );
            key
        }
        Sub::Missing => k("nobody"),
        Sub::Unsigned => {
            if !ixs[t.at].accounts[slot].is_signer {
                return false;
            }
            ixs[t.at].accounts[slot].is_signer = false;
            return true;
        }
    };
    if new == cur {
        return false;
    }
    ixs[t.at].accounts[slot].pubkey = new;
    // earlier instructions of the transaction keep their own accounts
    true
}

fn accepted(t: &Target, subs: &[(usize, Sub)]) -> Option<(bool, Option<World>)> {
    let mut w = t.w.clone();
    let mut ixs = t.ixs.clone();
    for (slot, s) in subs {
        if !apply(t, &mut w, &mut ixs, *slot, s) {
            return None;
        }
    }
    let r = exec(&w, &ixs);
    Some((r.is_ok(), r.ok().map(|t| t.world)))
}

/// Runs all single substitutions over the targets.
pub fn singles(r: &mut Run, name: &str, targets: &[Target]) {
    let mut cases: Vec<(usize, usize, Sub)> = vec![];
    for (ti, t) in targets.iter().enumerate() {
        let c = candidates(&t.w);
        for slot in 0..t.ixs[t.at].accounts.len() {
            cases.push((ti, slot, Sub::Unsigned));
            if t.free.contains(&slot) {
                continue;
            }
            cases.push((ti, slot, Sub::Clone));
            cases.push((ti, slot, Sub::CloneOf(system_program::ID)));
            cases.push((ti, slot, Sub::Missing));
            for k in &c {
                if !t.allowed.contains(&(slot, *k)) {
                    cases.push((ti, slot, Sub::Existing(*k)));
                }
            }
        }
    }
    // the honest transactions themselves
    r.sweep(&format!("{name}/honest"), targets.len(), |i| {
        let t = &targets[i];
        let n = t.name.clone();
        let mut c = Case::new(move || format!("honest {n}"));
        match exec(&t.w, &t.ixs) {
            Ok(x) => c.did(Some(&x.world)),
            Err(e) => {
                c.did(None);
                c.fail(&t.name, "rejected", format!("honest {} failed: {e}", t.name));
            }
        }
        c
    });
    r.sweep(name, cases.len(), |i| {
        let (ti, slot, s) = &cases[i];
        let t = &targets[*ti];
        let what = describe(t, *slot, s);
        let w2 = what.clone();
        let mut c = Case::new(move || w2.clone());
        if let Some((ok, n)) = accepted(t, &[(*slot, s.clone())]) {
            c.did(n.as_ref());
            if ok {
                c.fail(&t.name, "subst", format!("accepted with {what}"));
            }
        }
        c
    });
}

/// All pairs of substitutions by accounts of the programs under test.
pub fn pairs(r: &mut Run, name: &str, targets: &[Target], allowed: &[(&str, usize, usize)]) {
    let mut cases: Vec<(usize, usize, usize, Sub, Sub)> = vec![];
    for (ti, t) in targets.iter().enumerate() {
        let c: Vec<Sub> = t
            .w
            .iter()
            .filter(|(_, a)| [MGR, XCVR, TOKEN, TOKEN22, CORE].contains(&a.owner))
            .map(|(k, _)| Sub::Existing(*k))
            .chain([Sub::Clone, Sub::Missing])
            .collect();
        let n = t.ixs[t.at].accounts.len();
        for i in 0..n {
            for j in i + 1..n {
                if t.free.contains(&i)
                    || t.free.contains(&j)
                    || allowed.iter().any(|a| t.name.starts_with(a.0) && a.1 == i && a.2 == j)
                {
                    continue;
                }
                let ok = |slot: usize, s: &Sub| matches!(s, Sub::Existing(k) if t.allowed.contains(&(slot, *k)));
                for a in &c {
                    for b in &c {
                        if ok(i, a) || ok(j, b) {
                            continue;
                        }
                        cases.push((ti, i, j, a.clone(), b.clone()));
                    }
                }
            }
        }
    }
    r.sweep(name, cases.len(), |i| {
        let (ti, a, b, sa, sb) = &cases[i];
        let t = &targets[*ti];
        let what = format!("{} and {}", describe(t, *a, sa), describe(t, *b, sb));
        let w2 = what.clone();
        let mut c = Case::new(move || w2.clone());
        if let Some((ok, n)) = accepted(t, &[(*a, sa.clone()), (*b, sb.clone())]) {
            c.did(n.as_ref());
            if ok {
                c.fail(&t.name, "subst", format!("accepted with {what}"));
            }
        }
        c
    });
}

fn describe(t: &Target, slot: usize, s: &Sub) -> String {
    let m = &t.ixs[t.at].accounts[slot];
    format!("{}: account {slot} ({}) -> {s:?}", t.name, m.pubkey)
}
