//! C07-C10: rate limits.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, svm::World};

fn base(burning: bool) -> Setup {
    Setup {
        burning,
        decimals: 8,
        peers: vec![(2, 8, 100), (258, 8, 60)],
        out_limit: 100,
        users: vec![("alice", 1000), ("bob", 0)],
        custody: 1000,
        transceivers: vec![MOCK1],
        ..Setup::default()
    }
}

/// A received message that anyone can redeem: (chain, id, amount)
fn incoming(s: &Setup, w: &mut World, list: &[(u16, u8, u64)]) -> Vec<Op> {
    list.iter()
        .map(|(c, id, n)| {
            let x = s.inbound(*c, *id, *n, 8, &k("bob"));
            Op::Redeem {
                t: MOCK1,
                vtm: inject_vtm(w, &MOCK1, *c, &x),
            }
        })
        .collect()
}

struct P {
    amounts: &'static [u64],
    chains: &'static [u16],
    queue: &'static [bool],
    adv: &'static [i64],
    out_limits: &'static [u64],
    in_limits: &'static [(u16, u64)],
    msgs: &'static [(u16, u8, u64)],
    max_out: usize,
    releases: bool,
}

fn scn(burning: bool, p: P) -> Result<Scn, String> {
    let s = base(burning);
    let d = s.dep();
    let mut w = s.build()?;
    let red = incoming(&s, &mut w, p.msgs);
    // a second start where the limiters are partly used
    let mut w2 = w.clone();
    w2 = honest(w2, &d, &[xfer(&d, "alice", ob(0), args(40, 2, false))])?;
    let items: Vec<_> = p
        .msgs
        .iter()
        .map(|(c, id, n)| inbox_item(*c, &s.inbound(*c, *id, *n, 8, &k("bob")).msg))
        .collect();
    let dd = d.clone();
    Ok(Scn::new(
        d,
        vec![("fresh".into(), w), ("used".into(), w2)],
        move |st| {
            let d = &dd;
            let mut v = vec![];
            if let Some(o) = next_ob(&st.o, p.max_out) {
                for n in p.amounts {
                    for c in p.chains {
                        for q in p.queue {
                            v.push(xfer(d, "alice", o, args(*n, *c, *q)));
                        }
                    }
                }
            }
            for a in p.adv {
                v.push(Op::Advance(*a));
            }
            for l in p.out_limits {
                v.push(Op::SetOutLimit(k("owner"), *l));
            }
            for (c, l) in p.in_limits {
                v.push(Op::SetInLimit(k("owner"), *c, *l));
            }
            v.extend(red.iter().cloned());
            if p.releases {
                for it in &items {
                    v.push(release(d, *it, "bob", false));
                }
                for o in st.o.outbox.keys() {
                    v.push(Op::Mark {
                        by: MOCK1,
                        claim: MOCK1,
                        outbox: *o,
                    });
                }
            }
            v
        },
    ))
}

pub fn c07(r: &mut Run) {
    r.focus(&[
        "transfer/*",
        "set_out_limit/*",
        "advance/*",
        "*/post:out_rl",
        "redeem/post:outbox",
        "mark/post:outbox",
        "mark/accepted-despite:too-early",
        "inv/*",
    ]);
    let t = r.thorough;
    for b in [false, true] {
        let name = format!("outbound-{}", if b { "burning" } else { "locking" });
        let s = scn(
            b,
            P {
                amounts: &[1, 40, 100, 101],
                chains: &[2],
                queue: &[false, true],
                adv: &[1, 864, 43_200, 86_400],
                out_limits: &[0, 50, 200],
                in_limits: &[],
                msgs: &[(2, 1, 30)],
                max_out: 3,
                releases: false,
            },
        );
        if let Some(s) = r.setup(&name, s) {
            r.bfs(&name, &window(s), if t { 6 } else { 4 });
        }
    }
    limiter_sweep(r, "transfer-boundaries", &[0]);
    limiter_sweep(r, "limit-boundaries", &[2]);
}

/// Adds the day-window monitor: whatever leaves immediately in any window of a
/// day is bounded by capacity at its start plus refills.
fn window(s: Scn) -> Scn {
    s.mon(|st, op, post, g| {
        let mut out = vec![];
        let key = (1u8, outbox_rl());
        if let (Op::Transfer { outbox, .. }, Some(p)) = (op, post) {
            if let Some(it) = p.outbox.get(outbox) {
                let delay = it.release - p.now;
                if delay != 0 && delay != DAY {
                    out.push(inv("release-time", format!("transfer sent at {} is releasable at {}", p.now, it.release)));
                }
            }
        }
        if let Some(p) = post {
            let r = p.out_rl[&outbox_rl()];
            if r.cap > r.limit {
                out.push(inv("capacity-above-limit", format!("{r:?}")));
            }
            // the capacity seen never moves without an operation that explains it
            let c0 = capacity(&st.o.out_rl[&outbox_rl()], p.now).unwrap_or(0);
            let c1 = capacity(&r, p.now).unwrap_or(u64::MAX);
            let moved = c1 as i128 - c0 as i128;
            let ok = match op {
                Op::Transfer { outbox, .. } => {
                    let it = &p.outbox[outbox];
                    moved == if it.release == p.now { -(it.amount as i128) } else { 0 }
                }
                Op::Redeem { .. } | Op::SetOutLimit(..) => true,
                _ => moved == 0,
            };
            if !ok {
                out.push(inv("capacity-moved", format!("{op:?}: outbound capacity {c0} -> {c1}")));
            }
        }
        let _ = (key, g);
        out
    })
}

pub fn c08(r: &mut Run) {
    r.focus(&[
        "redeem/*",
        "set_in_limit/*",
        "release/accepted-despite:too-early",
        "release/post:inbox",
        "release/rejected",
        "advance/*",
        "*/post:in_rl",
        "inv/*",
    ]);
    let t = r.thorough;
    for b in [false, true] {
        let name = format!("inbound-{}", if b { "burning" } else { "locking" });
        let s = scn(
            b,
            P {
                amounts: &[40],
                chains: &[2],
                queue: &[false],
                adv: &[1, 864, 43_200, 86_400],
                out_limits: &[],
                in_limits: &[(2, 50), (258, 120)],
                msgs: &[(2, 1, 30), (2, 2, 100), (2, 3, 101), (258, 1, 30), (258, 2, 60), (258, 3, 61)],
                max_out: 1,
                releases: true,
            },
        );
        if let Some(s) = r.setup(&name, s) {
            let s = s.mon(|st, op, post, _| {
                let mut out = vec![];
                if let Some(p) = post {
                    for (key, rl) in &p.in_rl {
                        if rl.cap > rl.limit {
                            out.push(inv("capacity-above-limit", format!("{rl:?}")));
                        }
                        let touched = match op {
                            Op::Redeem { vtm, .. } => {
                                st.o.vtms.get(vtm).map(|v| inbox_rl(v.1.chain))
                            }
                            Op::Transfer { args, .. } => Some(inbox_rl(args.chain)),
                            Op::SetInLimit(_, c, _) => Some(inbox_rl(*c)),
                            Op::SetPeer { chain, .. } => Some(inbox_rl(*chain)),
                            _ => None,
                        };
                        if touched != Some(*key) && st.o.in_rl.get(key) != Some(rl) {
                            out.push(inv("other-chain-moved", format!("{op:?} changed {key}: {rl:?}")));
                        }
                    }
                }
                out
            });
            r.bfs(&name, &s, if t { 6 } else { 4 });
        }
    }
    limiter_sweep(r, "redeem-boundaries", &[1]);
}

pub fn c09(r: &mut Run) {
    r.focus(&[
        "transfer/rejected",
        "redeem/rejected",
        "*/post:in_rl",
        "*/post:out_rl",
        "inv/*",
    ]);
    let t = r.thorough;
    for b in [false, true] {
        let name = format!("backflow-{}", if b { "burning" } else { "locking" });
        let s = scn(
            b,
            P {
                amounts: &[40, 101],
                chains: &[2, 258],
                queue: &[true],
                adv: &[864, 86_400],
                out_limits: &[30],
                in_limits: &[(2, 30)],
                msgs: &[(2, 1, 30), (2, 2, 101), (258, 1, 60)],
                max_out: 3,
                releases: true,
            },
        );
        if let Some(s) = r.setup(&name, s) {
            let s = s.mon(|st, op, post, _| {
                let mut out = vec![];
                let Some(p) = post else { return out };
                // refill of the opposite direction, recomputed from the balances that moved
                let refilled = |key: &solana_program::pubkey::Pubkey, n: u64, pre: &Rl, post: &Rl| {
                    let c = capacity(pre, p.now).unwrap_or(0) as u128 + n as u128;
                    if post.cap as u128 != c.min(pre.limit as u128) || post.limit != pre.limit {
                        Some(inv("backflow", format!("{op:?}: {key} {pre:?} -> {post:?}, refill of {n} expected")))
                    } else {
                        None
                    }
                };
                match op {
                    Op::Transfer { outbox, args, .. } => {
                        let it = &p.outbox[outbox];
                        for (key, post) in &p.in_rl {
                            let pre = &st.o.in_rl[key];
                            if *key == inbox_rl(args.chain) && it.release == p.now {
                                out.extend(refilled(key, it.amount, pre, post));
                            } else if pre != post {
                                out.push(inv("backflow", format!("{op:?} changed {key}")));
                            }
                        }
                    }
                    Op::Redeem { vtm, .. } => {
                        let v = &st.o.vtms[vtm].1;
                        let it = &p.inbox[&inbox_item(v.chain, &v.msg.msg)];
                        let (pre, post) = (&st.o.out_rl[&outbox_rl()], &p.out_rl[&outbox_rl()]);
                        if it.status == Status::ReleaseAfter(p.now) {
                            out.extend(refilled(&outbox_rl(), it.amount, pre, post));
                        } else if pre != post {
                            out.push(inv("backflow", format!("{op:?} changed the outbound limiter")));
                        }
                    }
                    Op::Release { .. } | Op::Mark { .. } => {
                        if st.o.out_rl != p.out_rl || st.o.in_rl != p.in_rl {
                            out.push(inv("backflow", format!("{op:?} changed a limiter")));
                        }
                    }
                    _ => {}
                }
                out
            });
            r.bfs(&name, &s, if t { 7 } else { 5 });
        }
    }
    limiter_sweep(r, "backflow-boundaries", &[0, 1]);
}

pub fn c10(r: &mut Run) {
    r.focus(&[
        "transfer/*",
        "redeem/*",
        "set_out_limit/*",
        "set_in_limit/*",
    ]);
    limiter_sweep(r, "consume-and-refill", &[0, 1]);
    limiter_sweep(r, "set-limit", &[2, 3]);
}

/// Every combination of boundary limiter states, elapsed time and argument,
/// through the instruction: 0 transfer, 1 redeem, 2 set outbound limit, 3 set inbound limit.
fn limiter_sweep(r: &mut Run, name: &str, which: &'static [u8]) {
    let s = Setup {
        decimals: 8,
        peers: vec![(2, 8, 100)],
        users: vec![("alice", u64::MAX), ("bob", 0)],
        custody: 0,
        transceivers: vec![MOCK1],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup(name, s.build()) else { return };
    const M: u64 = u64::MAX;
    let limits: Vec<u64> = if r.thorough {
        vec![0, 1, 2, 3, 99, 100, 255, 256, 65_535, 86_399, 86_400, 86_401, 1 << 31, 1 << 32, 10_000_000_007, M / 86_400, M / 86_400 + 1, i64::MAX as u64, 1 << 63, M - 1, M]
    } else {
        vec![0, 1, 100, 86_399, 86_401, 1 << 32, M / 86_400 + 1, 1 << 63, M]
    };
    let ages: Vec<i64> = if r.thorough {
        vec![0, 1, 2, 3, 863, 864, 865, 43_199, 43_200, 86_399, 86_400, 86_401, 172_800, 1 << 31, w.now]
    } else {
        vec![0, 1, 864, 43_200, 86_399, 86_400, 86_401, w.now]
    };
    // limiter states: (limit, capacity, last)
    let mut states = vec![];
    for l in &limits {
        let mut caps = vec![0, 1, l / 2, l.saturating_sub(1), *l];
        caps.retain(|c| c <= l);
        caps.sort();
        caps.dedup();
        for c in caps {
            for a in &ages {
                if *a <= w.now {
                    states.push(Rl { limit: *l, cap: c, last: w.now - a });
                }
            }
        }
    }
    // the other limiter of the operation, for refills
    let others: Vec<Rl> = [(0, 0), (100, 0), (100, 90), (M, 0), (M, M - 5), (1 << 63, 1 << 62)]
        .iter()
        .flat_map(|(l, c)| [0i64, 1, 43_200].map(|a| Rl { limit: *l, cap: *c, last: w.now - a }))
        .collect();
    let others = if r.thorough { others } else { others.into_iter().step_by(2).collect() };
    let n = states.len() * others.len() * 8 * 2 * which.len();
    r.sweep(name, n, |i| {
        let mut ix = Ix(i);
        let st = *ix.pick(&states);
        let kind = *ix.pick(which);
        let sel = *ix.pick(&[0, 1, 2, 3, 4, 5, 6, 7]);
        let flag = *ix.pick(&[false, true]);
        let other = *ix.pick(&others);
        let cap = capacity(&st, w.now).unwrap();
        let amount = match sel {
            0 => 0,
            1 => 1,
            2 => cap,
            3 => cap.saturating_add(1),
            4 => cap.saturating_sub(1),
            5 => st.limit,
            6 => st.limit / 3,
            _ => M,
        };
        let mut w = w.clone();
        let op = match kind {
            0 => {
                st.inject_outbox(&mut w);
                other.inject_inbox(&mut w, 2);
                xfer(&d, "alice", ob(0), args(amount, 2, flag))
            }
            1 => {
                st.inject_inbox(&mut w, 2);
                other.inject_outbox(&mut w);
                let x = s.inbound(2, flag as u8, amount, 8, &k("bob"));
                Op::Redeem { t: MOCK1, vtm: inject_vtm(&mut w, &MOCK1, 2, &x) }
            }
            2 => {
                st.inject_outbox(&mut w);
                Op::SetOutLimit(k("owner"), if flag { other.limit } else { amount })
            }
            _ => {
                st.inject_inbox(&mut w, 2);
                Op::SetInLimit(k("owner"), 2, if flag { other.limit } else { amount })
            }
        };
        let label = op.clone();
        let mut c = Case::new(move || format!("limiter {st:?}, opposite {other:?}: {label:?}"));
        if let Some(n) = case_step(&mut c, &w, &op, &d) {
            let o = observe(&n);
            for rl in o.out_rl.values().chain(o.in_rl.values()) {
                if rl.cap > rl.limit {
                    c.fail(op.name(), "post:capacity-above-limit", format!("{rl:?}"));
                }
            }
        }
        c
    });
}
