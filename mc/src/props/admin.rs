//! C11, C12, C13, C18, C19, C21: pausing, administration, ownership, registry,
//! initialization.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, subst::*, svm::*};
use solana_program::{pubkey::Pubkey, system_program};

/// A deployment with work in every stage: queued transfers (one due, one
/// delayed), VAAs not yet received, messages not yet redeemed, and approved
/// payouts (one due, one delayed).
pub struct Rich {
    pub d: Dep,
    pub w: World,
    /// VAAs not yet received: (program, account)
    pub vaas: Vec<(Pubkey, Pubkey)>,
    /// received, not redeemed: (transceiver, record)
    pub vtms: Vec<(Pubkey, Pubkey)>,
    /// approved payouts: (item, recipient's account)
    pub due: (Pubkey, &'static str),
    pub later: (Pubkey, &'static str),
}

pub fn rich(s: &Setup) -> Result<Rich, String> {
    let d = s.dep();
    let mut w = s.build()?;
    let c = s.peers[0].0;
    let mut vaas = vec![];
    let mut vtms = vec![];
    for (i, p) in [MGR, XCVR].iter().enumerate() {
        let x = s.inbound(c, 10 + i as u8, 3, 8, &k("bob"));
        vaas.push((*p, post_vaa(&mut w, &format!("vaa-{i}"), p, c, &x)));
        let x = s.inbound(c, 20 + i as u8, 4, 8, &k("carol"));
        let v = post_vaa(&mut w, &format!("vaa-r{i}"), p, c, &x);
        w = honest(w, &d, &[Op::Receive { prog: *p, vaa: v }])?;
        vtms.push((*p, vtm(p, c, &x.msg.id)));
    }
    let mut items = vec![];
    for (id, amount, to) in [(30u8, 5u64, "bob"), (31, 70, "dave")] {
        let x = s.inbound(c, id, amount, 8, &k(to));
        let v = inject_vtm(&mut w, &MOCK1, c, &x);
        w = honest(w, &d, &[Op::Redeem { t: MOCK1, vtm: v }])?;
        items.push((inbox_item(c, &x.msg), to));
    }
    w = honest(
        w,
        &d,
        &[
            xfer(&d, "alice", ob(0), args(100, c, false)),
            xfer(&d, "alice", ob(1), args(1200, c, true)),
        ],
    )?;
    let o = observe(&w);
    let st = |i: usize| o.inbox[&items[i].0].status.clone();
    if o.outbox[&ob(0)].release != w.now || o.outbox[&ob(1)].release != w.now + DAY {
        return Err("queued transfers not as planned".into());
    }
    if st(0) != Status::ReleaseAfter(w.now) || st(1) != Status::ReleaseAfter(w.now + DAY) {
        return Err("payouts not as planned".into());
    }
    Ok(Rich { d, w, vaas, vtms, due: items[0], later: items[1] })
}

pub fn rich_setup(burning: bool, t22: bool) -> Setup {
    Setup {
        burning,
        t22,
        decimals: 9,
        peers: vec![(2, 9, 400), (258, 7, 300)],
        out_limit: 1000,
        users: vec![("alice", 5_000), ("bob", 10), ("carol", 0), ("dave", 0)],
        custody: 2_000,
        transceivers: vec![MGR, XCVR, MOCK1],
        ..Setup::default()
    }
}

fn mode_name(b: bool) -> &'static str {
    if b {
        "burning"
    } else {
        "locking"
    }
}

fn paused(o: &Obs) -> bool {
    o.config.as_ref().map_or(false, |c| c.paused)
}

// ------------------------------------------------------------------ C11

pub fn c11(r: &mut Run) {
    r.focus(&[
        "*/accepted-despite:paused",
        "set_paused/*",
        "*/rejected",
        "inv/*",
        "setup/*",
    ]);
    let t = r.thorough;
    for (b, t22) in [(false, false), (true, true)] {
        let name = format!("paused-{}", mode_name(b));
        let s = rich_setup(b, t22);
        let Some(x) = r.setup(&name, rich(&s)) else { continue };
        let d = x.d.clone();
        let (vaas, vtms, due, later) = (x.vaas.clone(), x.vtms.clone(), x.due, x.later);
        let m = Scn::new(d.clone(), vec![("work in every stage".into(), x.w.clone())], move |st| {
            let mut v = vec![];
            for who in ["owner", "mallory", "alice"] {
                for p in [true, false] {
                    v.push(Op::SetPaused(k(who), p));
                }
            }
            if let Some(o) = next_ob(&st.o, 3) {
                for q in [false, true] {
                    v.push(xfer(&d, "alice", o, args(100, 2, q)));
                }
                if t {
                    v.push(xfer(&d, "alice", o, args(900, 258, true)));
                }
            }
            for i in 0..2 {
                for prog in [MGR, XCVR] {
                    for revert in [true, false] {
                        v.push(Op::Publish { prog, outbox: ob(i), revert });
                    }
                }
                v.push(Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(i) });
            }
            for (p, a) in &vaas {
                v.push(Op::Receive { prog: *p, vaa: *a });
            }
            for (t, m) in &vtms {
                v.push(Op::Redeem { t: *t, vtm: *m });
            }
            for (i, to) in [due, later] {
                for revert in [true, false] {
                    v.push(release(&d, i, to, revert));
                }
            }
            // administration keeps working
            let o = k("owner");
            v.push(Op::SetOutLimit(o, 700));
            v.push(Op::SetInLimit(o, 2, 150));
            v.push(Op::SetPeer { signer: o, chain: 258, address: a32("moved"), limit: 7, decimals: 6 });
            if t {
                v.push(Op::SetXPeer { prog: MGR, signer: o, chain: 3, address: a32("x3") });
                v.push(Op::SetXPeer { prog: XCVR, signer: o, chain: 3, address: a32("x3") });
                v.push(Op::Register { signer: o, t: MOCK2 });
                v.push(Op::GiveOwnership { one_step: false, signer: o, new: k("carol") });
                v.push(Op::Claim(o));
            }
            v.extend(clock(st, START_TIME, &[DAY]));
            v
        })
        .mon(|st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            if paused(&st.o) {
                let bad = match op {
                    Op::Transfer { .. } | Op::Release { .. } | Op::Publish { .. } | Op::Mark { .. } | Op::Receive { .. } => true,
                    _ => false,
                };
                let moved = p.tokens != st.o.tokens && !matches!(op, Op::Approve { .. });
                if bad || moved || p.emitted != st.o.emitted || p.mints != st.o.mints || p.vtms != st.o.vtms {
                    out.push(inv("activity-while-paused", format!("{op:?}")));
                }
            }
            if paused(p) != paused(&st.o) && !matches!(op, Op::SetPaused(w, x) if *w == st.o.config.as_ref().unwrap().owner && *x == paused(p)) {
                out.push(inv("pause-changed", format!("{op:?}: now {}", paused(p))));
            }
            out
        });
        r.bfs(&name, &m, if t { 7 } else { 5 });

        // ownership hand-over while paused
        let name = format!("paused-admin-{}", mode_name(b));
        let d = x.d.clone();
        let (vaas, due) = (x.vaas.clone(), x.due);
        let mut w = x.w.clone();
        for (n, tok) in [("carol", 0u64)] {
            w.set(k(&format!("{n}-2")), token_acct(d.tp, &d.mint, &k(n), tok));
        }
        let m = Scn::new(d.clone(), vec![("work in every stage".into(), w)], move |st| {
            let mut v = vec![];
            for who in ["owner", "carol", "mallory"] {
                for p in [true, false] {
                    v.push(Op::SetPaused(k(who), p));
                }
                v.push(Op::GiveOwnership { one_step: false, signer: k(who), new: k("carol") });
                v.push(Op::GiveOwnership { one_step: true, signer: k(who), new: k("carol") });
                v.push(Op::Claim(k(who)));
            }
            let own = st.o.config.as_ref().unwrap().owner;
            v.push(Op::Register { signer: own, t: MOCK2 });
            v.push(Op::SetXPeer { prog: MGR, signer: own, chain: 3, address: a32("x3") });
            v.push(Op::SetXPeer { prog: XCVR, signer: own, chain: 3, address: a32("x3") });
            v.push(release(&d, due.0, due.1, true));
            for (p, a) in &vaas {
                v.push(Op::Receive { prog: *p, vaa: *a });
            }
            v
        })
        .mon(|st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            if paused(p) != paused(&st.o) && !matches!(op, Op::SetPaused(w, x) if *w == st.o.config.as_ref().unwrap().owner && *x == paused(p)) {
                out.push(inv("pause-changed", format!("{op:?}: now {}", paused(p))));
            }
            if paused(&st.o) && matches!(op, Op::Release { .. } | Op::Receive { .. }) {
                out.push(inv("activity-while-paused", format!("{op:?}")));
            }
            out
        });
        r.bfs(&name, &m, 30);
    }
}

// ------------------------------------------------------------------ C12

fn admin_ops(who: Pubkey) -> Vec<Op> {
    vec![
        Op::SetPaused(who, true),
        Op::SetPaused(who, false),
        Op::Register { signer: who, t: MOCK2 },
        Op::SetPeer { signer: who, chain: 2, address: a32("moved"), limit: 7, decimals: 6 },
        Op::SetPeer { signer: who, chain: 3, address: a32("new"), limit: 7, decimals: 6 },
        Op::SetXPeer { prog: MGR, signer: who, chain: 3, address: a32("x3") },
        Op::SetXPeer { prog: XCVR, signer: who, chain: 3, address: a32("x3") },
        Op::SetOutLimit(who, 1),
        Op::SetInLimit(who, 2, 1),
    ]
}

fn signer_of(op: &Op) -> Option<Pubkey> {
    Some(match op {
        Op::SetPaused(s, _) | Op::SetOutLimit(s, _) | Op::SetInLimit(s, _, _) | Op::Claim(s) => *s,
        Op::Register { signer, .. }
        | Op::SetPeer { signer, .. }
        | Op::SetXPeer { signer, .. }
        | Op::GiveOwnership { signer, .. } => *signer,
        _ => return None,
    })
}

/// slots the caller may fill freely
fn admin_free(op: &Op) -> Vec<usize> {
    match op {
        Op::SetPeer { .. } => vec![0],
        Op::SetXPeer { .. } | Op::Register { .. } => vec![2],
        Op::GiveOwnership { .. } => vec![2],
        _ => vec![],
    }
}

fn config_slot(op: &Op) -> usize {
    match op {
        Op::SetPaused(..) => 1,
        Op::SetPeer { .. } => 2,
        _ => 0,
    }
}

pub fn c12(r: &mut Run) {
    r.focus(&[
        "*/accepted-despite:not-owner",
        "give_ownership/*",
        "claim/*",
        "*/subst",
        "*/post:config",
        "*/post:authority",
        "set_paused/*",
        "register/*",
        "set_peer/*",
        "set_xpeer/*",
        "set_out_limit/*",
        "set_in_limit/*",
        "inv/*",
    ]);
    let t = r.thorough;
    for b in if t { vec![false, true] } else { vec![false] } {
        let name = format!("signers-{}", mode_name(b));
        let s = Setup {
            burning: b,
            transceivers: vec![MGR, XCVR],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(w) = r.setup(&name, s.build()) else { continue };
        let m = Scn::new(d.clone(), vec![("owned".into(), w.clone())], move |_| {
            let mut v = vec![];
            let keys = ["owner", "carol", "dave", "mallory"];
            for n in keys {
                let mut a = admin_ops(k(n));
                if !t {
                    // fewer targets: one of each kind
                    a.remove(3);
                }
                v.extend(a);
                v.push(Op::Claim(k(n)));
                for new in ["owner", "carol", "dave"] {
                    for one_step in [true, false] {
                        v.push(Op::GiveOwnership { one_step, signer: k(n), new: k(new) });
                    }
                }
            }
            v.extend(admin_ops(k("payer")));
            v
        })
        .mon(|st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            let c = st.o.config.as_ref().unwrap();
            let by = signer_of(op);
            let ok = match op {
                Op::Claim(s) => *s == c.owner || Some(*s) == c.pending,
                _ => by.map_or(true, |s| s == c.owner),
            };
            if !ok {
                out.push(inv("unauthorised", format!("{op:?} accepted, owner {}, pending {:?}", c.owner, c.pending)));
            }
            let _ = p;
            out
        });
        r.bfs(&name, &m, 40);
        // every account of every administrative instruction, at every stage of a hand-over
        let mut targets = vec![];
        let give = |one: bool, s: &str, n: &str| Op::GiveOwnership { one_step: one, signer: k(s), new: k(n) };
        let stages = [
            (vec![], "owner"),
            (vec![give(false, "owner", "carol")], "owner"),
            (vec![give(false, "owner", "carol"), Op::Claim(k("carol"))], "carol"),
            (vec![give(true, "owner", "dave")], "dave"),
        ];
        let mut forged: Vec<(World, Op)> = vec![];
        for (i, (ops, own)) in stages.iter().enumerate() {
            let Some(w) = r.setup("hand-over", honest(w.clone(), &d, ops)) else { return };
            let mut all = admin_ops(k(own));
            if i != 1 {
                all.push(give(false, own, "mallory"));
                all.push(give(true, own, "mallory"));
            } else {
                all.push(Op::Claim(k("carol")));
                all.push(Op::Claim(k("owner")));
            }
            for op in all {
                // while a nomination is pending either party may claim
                if let Op::Claim(_) = op {
                    let mut tg = Target::new(op.name(), &w, &op, &d, &[]);
                    // remove the other legitimate claimant from the candidates
                    let other = if op == Op::Claim(k("owner")) { "carol" } else { "owner" };
                    tg.w.remove(&k(other));
                    targets.push(tg);
                    continue;
                }
                targets.push(Target::new(op.name(), &w, &op, &d, &admin_free(&op)));
            }
            for mut op in admin_ops(k("mallory")).into_iter().chain(if i == 1 { vec![] } else { vec![give(false, "mallory", "mallory"), give(true, "mallory", "mallory")] }) {
                if let Op::GiveOwnership { new, .. } = &mut op {
                    *new = k("mallory");
                }
                forged.push((w.clone(), op));
            }
            forged.push((w.clone(), Op::Claim(k("mallory"))));
        }
        singles(r, &format!("admin-accounts-{}", mode_name(b)), &targets);
        // a configuration forged to name the attacker
        let owners = [EVIL, system_program::ID, XCVR, TOKEN];
        let fields = 3usize;
        let dd = d.clone();
        r.sweep(&format!("forged-config-{}", mode_name(b)), forged.len() * owners.len() * fields, |i| {
            let mut ix = Ix(i);
            let (w, op) = ix.pick(&forged);
            let owner = *ix.pick(&owners);
            let f = *ix.pick(&[0, 1, 2]);
            let op2 = op.clone();
            let mut c = Case::new(move || format!("{op2:?} with a configuration owned by {owner} naming the attacker, variant {f}"));
            let mut w = w.clone();
            let mut a = w.get(&config()).unwrap().clone();
            let mut cfg = Config::decode(&a.data).unwrap();
            match f {
                0 => cfg.owner = k("mallory"),
                1 => cfg.pending = Some(k("mallory")),
                _ => {
                    cfg.owner = k("mallory");
                    cfg.pending = Some(k("mallory"));
                }
            }
            cfg.encode_into(&mut a.data);
            a.owner = owner;
            w.set(k("forged"), a);
            let mut ixs = op.ixs(&w, &dd);
            let n = ixs.len() - 1;
            ixs[n].accounts[config_slot(op)].pubkey = k("forged");
            let res = exec(&w, &ixs);
            c.did(res.as_ref().ok().map(|t| &t.world));
            if res.is_ok() {
                c.fail(op.name(), "subst", format!("{op:?} accepted with a forged configuration"));
            }
            c
        });
    }
}

// ------------------------------------------------------------------ C13

pub fn c13(r: &mut Run) {
    r.focus(&["give_ownership/*", "claim/*", "inv/*", "*/post:authority", "*/post:config"]);
    let s = Setup {
        transceivers: vec![MGR, XCVR],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("hand-over", s.build()) else { return };
    let pd = program_data_key(&MGR);
    let mut inits = vec![("owner holds the upgrade key".to_string(), w.clone())];
    for (n, a) in [("upgrade key elsewhere", Some(k("dave"))), ("immutable program", None), ("upgrade key locked", Some(upgrade_lock()))] {
        let mut w = w.clone();
        w.set(pd, program_data(a));
        inits.push((n.into(), w));
    }
    let keys = ["owner", "carol", "dave", "mallory", "payer"];
    let first = inits[0].clone();
    let t = r.thorough;
    let mk = move |inits: Vec<(String, World)>, consistent: bool| {
        Scn::new(s.dep(), inits, move |_| {
            let mut v = vec![];
            for a in keys {
                v.push(Op::Claim(k(a)));
                for b in keys {
                    for one_step in [true, false] {
                        v.push(Op::GiveOwnership { one_step, signer: k(a), new: k(b) });
                    }
                }
                // unrelated administration in between
                v.push(Op::SetPaused(k(a), true));
                v.push(Op::SetPaused(k(a), false));
                v.push(Op::SetOutLimit(k(a), 5));
                if t {
                    v.push(Op::SetInLimit(k(a), 2, 5));
                    v.push(Op::Register { signer: k(a), t: MOCK1 });
                    v.push(Op::SetPeer { signer: k(a), chain: 2, address: a32("moved"), limit: 5, decimals: 8 });
                }
            }
            v
        })
        .mon(move |st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            let (c, n) = (st.o.config.as_ref().unwrap(), p.config.as_ref().unwrap());
            if n.owner != c.owner {
                let ok = match op {
                    Op::Claim(s) => (Some(*s) == c.pending || *s == c.owner) && n.owner == *s,
                    Op::GiveOwnership { one_step: true, signer, new } => *signer == c.owner && n.owner == *new,
                    _ => false,
                };
                if !ok {
                    out.push(inv("owner-changed", format!("{op:?}: {} -> {}", c.owner, n.owner)));
                }
            }
            if n.pending != c.pending {
                let ok = match op {
                    Op::Claim(_) => n.pending.is_none(),
                    Op::GiveOwnership { one_step: true, .. } => n.pending.is_none(),
                    Op::GiveOwnership { one_step: false, signer, new } => *signer == c.owner && n.pending == Some(*new),
                    _ => false,
                };
                if !ok {
                    out.push(inv("nomination-changed", format!("{op:?}: {:?} -> {:?}", c.pending, n.pending)));
                }
            }
            for (key, a) in &st.o.authority {
                if *key != program_data_key(&MGR) && p.authority.get(key) != Some(a) {
                    out.push(inv("other-program-touched", format!("{op:?}: {key}")));
                }
            }
            out
        })
        .inv(move |st| {
            let mut out = vec![];
            if !consistent {
                return out;
            }
            let c = st.o.config.as_ref().unwrap();
            let a = st.o.authority[&program_data_key(&MGR)];
            let want = if c.pending.is_some() { upgrade_lock() } else { c.owner };
            if a != Some(want) {
                out.push(inv("upgrade-key", format!("owner {}, pending {:?}, upgrade authority {a:?}, expected {want}", c.owner, c.pending)));
            }
            out
        })
    };
    r.bfs("hand-over", &mk(vec![first], true), 60);
    r.bfs("unusual-upgrade-keys", &mk(inits[1..].to_vec(), false), 60);
    // account substitution at each stage
    let give = |one: bool| Op::GiveOwnership { one_step: one, signer: k("owner"), new: k("carol") };
    let mut targets = vec![
        Target::new("give_ownership", &w, &give(false), &d, &[2]),
        Target::new("give_ownership", &w, &give(true), &d, &[2]),
    ];
    let Some(w2) = r.setup("hand-over", honest(w.clone(), &d, &[give(false)])) else { return };
    for (who, other) in [("owner", "carol"), ("carol", "owner")] {
        let mut tg = Target::new("claim", &w2, &Op::Claim(k(who)), &d, &[]);
        tg.w.remove(&k(other));
        targets.push(tg);
    }
    r.focus.push("*/subst".into());
    singles(r, "ownership-accounts", &targets);
    if t {
        pairs(r, "ownership-pairs", &targets, &[]);
    }
}

// ------------------------------------------------------------------ C18

/// A deployment whose registry has `n` entries, all but the named ones synthetic.
fn with_registry(w: &World, at: &[(u8, Pubkey)], n: u8, enabled: u128) -> World {
    let mut w = w.clone();
    let mut c = Config::decode(w.data(&config()).unwrap()).unwrap();
    c.next_id = n;
    c.enabled = enabled;
    w.edit(&config(), |a| c.encode_into(&mut a.data));
    for (i, t) in at {
        let i = *i;
        w.edit(&registered(t), |a| a.data[9] = i);
    }
    w
}

fn low(n: u8) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}

pub fn c18(r: &mut Run) {
    r.focus(&["register/*", "*/accepted-despite:unregistered", "*/accepted-despite:disabled", "*/accepted-despite:already-published", "*/post:registered", "*/post:config", "*/post:inbox", "*/post:outbox", "redeem/rejected", "mark/rejected", "inv/*"]);
    let t = r.thorough;
    let s = Setup {
        transceivers: vec![],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("registrations", s.build()) else { return };
    // all orders of registration
    let cands: Vec<Pubkey> = vec![MGR, XCVR, MOCK1, MOCK2, EVIL, k("alice"), d.mint, config(), d.custody(), k("nobody"), system_program::ID];
    let take = if t { 11 } else { 10 };
    let c2: Vec<Pubkey> = cands.iter().copied().take(take).collect();
    let m = Scn::new(d.clone(), vec![("no transceivers".into(), w.clone())], move |_| {
        let mut v: Vec<Op> = c2.iter().map(|t| Op::Register { signer: k("owner"), t: *t }).collect();
        v.push(Op::Register { signer: k("mallory"), t: MOCK1 });
        v
    })
    .mon(|st, op, post, _| {
        let mut out = vec![];
        let Some(p) = post else { return out };
        let (c, n) = (st.o.config.as_ref().unwrap(), p.config.as_ref().unwrap());
        for (key, v) in &st.o.registered {
            if p.registered.get(key) != Some(v) {
                out.push(inv("registration-changed", format!("{op:?}: {v:?} -> {:?}", p.registered.get(key))));
            }
        }
        if n.enabled & c.enabled != c.enabled {
            out.push(inv("disabled-another", format!("{op:?}: {:b} -> {:b}", c.enabled, n.enabled)));
        }
        out
    })
    .inv(|st| {
        let mut out = vec![];
        let mut ids: Vec<u8> = st.o.registered.values().map(|x| x.0).collect();
        ids.sort();
        let c = st.o.config.as_ref().unwrap();
        let want: Vec<u8> = (0..ids.len() as u8).collect();
        if ids != want || c.next_id as usize != ids.len() || c.enabled != low(ids.len() as u8) {
            out.push(inv("indices", format!("ids {ids:?}, next {}, enabled {:b}", c.next_id, c.enabled)));
        }
        for (key, (_, t)) in &st.o.registered {
            if *key != registered(t) {
                out.push(inv("record-key", format!("{key} holds {t}")));
            }
        }
        out
    });
    r.bfs("registrations", &m, 20);
    // every size of the registry
    let sizes: Vec<u8> = (0..=255).collect();
    let en = ["all", "none", "even"];
    let dd = d.clone();
    let ww = w.clone();
    r.sweep("registry-sizes", sizes.len() * en.len() * 2 * 4, |i| {
        let mut ix = Ix(i);
        let n = *ix.pick(&sizes);
        let e = *ix.pick(&en);
        let tr = *ix.pick(&[MOCK1, MGR]);
        let mut c = Case::new(move || format!("register {tr} as number {n}, {e} enabled"));
        let mask = match e {
            "all" => low(n),
            "none" => 0,
            _ => low(n) & 0x5555_5555_5555_5555_5555_5555_5555_5555,
        };
        let mut w = with_registry(&ww, &[], n, mask);
        set_quorum(&mut w, mask, *ix.pick(&[1u8, 2, 3, 128]));
        if let Some(w1) = case_step(&mut c, &w, &Op::Register { signer: k("owner"), t: tr }, &dd) {
            case_step(&mut c, &w1, &Op::Register { signer: k("owner"), t: tr }, &dd);
            if n < 127 {
                case_step(&mut c, &w1, &Op::Register { signer: k("owner"), t: MOCK2 }, &dd);
            }
        }
        c
    });
    // votes and publications at every index
    let s = Setup {
        transceivers: vec![MOCK1, MOCK2],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("indices", s.build()) else { return };
    let Some(mut w) = r.setup("indices", honest(w, &d, &[xfer(&d, "alice", ob(0), args(5, 2, false))])) else { return };
    let x = s.inbound(2, 1, 5, 8, &k("bob"));
    let v1 = inject_vtm(&mut w, &MOCK1, 2, &x);
    let v2 = inject_vtm(&mut w, &MOCK2, 2, &x);
    let idx: Vec<u8> = (0..128).collect();
    let others: Vec<u8> = if t { (0..128).collect() } else { vec![0, 1, 7, 8, 31, 32, 63, 64, 126, 127] };
    let masks = 4usize;
    r.sweep("indices", idx.len() * others.len() * masks * 2, |i| {
        let mut ix = Ix(i);
        let a = *ix.pick(&idx);
        let b = *ix.pick(&others);
        let m = *ix.pick(&[0u8, 1, 2, 3]);
        let thr = *ix.pick(&[1u8, 2]);
        let mut c = Case::new(move || format!("transceivers at {a} and {b}, enabled variant {m}, threshold {thr}"));
        if a == b {
            return c;
        }
        let mask: u128 = match m {
            0 => 1 << a,
            1 => 1 << b,
            2 => (1 << a) | (1 << b),
            _ => !((1 << a) | (1 << b)),
        };
        let mut w = with_registry(&w, &[(a, MOCK1), (b, MOCK2)], 128, mask);
        set_quorum(&mut w, mask, thr);
        let steps = [
            Op::Redeem { t: MOCK1, vtm: v1 },
            Op::Redeem { t: MOCK2, vtm: v2 },
            Op::Redeem { t: MOCK1, vtm: v1 },
            Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) },
            Op::Mark { by: MOCK2, claim: MOCK2, outbox: ob(0) },
            Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) },
        ];
        for op in steps {
            if let Some(n) = case_step(&mut c, &w, &op, &d) {
                w = n;
            }
        }
        c
    });
    // substitutions on registration
    r.focus.push("*/subst".into());
    // (the transceiver program is the caller's choice and fixes its record)
    let s = Setup { transceivers: vec![MOCK1], ..Setup::default() };
    let d = s.dep();
    let Some(w) = r.setup("register-accounts", s.build()) else { return };
    singles(r, "register-accounts", &[Target::new("register", &w, &Op::Register { signer: k("owner"), t: MOCK2 }, &d, &[2])]);
}

// ------------------------------------------------------------------ C19

pub fn c19(r: &mut Run) {
    r.focus(&["initialize/*", "*/accepted-despite:mode", "*/accepted-despite:already-initialized", "*/accepted-despite:not-initialized", "*/accepted-despite:wrong-mode", "*/subst", "inv/*"]);
    let t = r.thorough;
    let bools = [false, true];
    let auths = ["program", "minter", "none", "owner", "custody"];
    let upg = ["owner", "mallory", "none", "lock"];
    let deployers = ["owner", "mallory", "payer"];
    let cust = ["absent", "exists", "funded"];
    let chains: Vec<u16> = if t { vec![0, 1, 2, 255, 256, 258, 65535] } else { vec![1, 258, 65535] };
    let limits: Vec<u64> = vec![0, 1, 1_000_000_007, u64::MAX];
    let decs: Vec<u8> = if t { vec![0, 8, 9, 18] } else { vec![9] };
    let n = 4 * auths.len() * upg.len() * deployers.len() * cust.len() * chains.len() * limits.len() * decs.len() * 3;
    r.sweep("initialize", n, |i| {
        let mut ix = Ix(i);
        let b = *ix.pick(&bools);
        let t22 = *ix.pick(&bools);
        let au = *ix.pick(&auths);
        let up = *ix.pick(&upg);
        let dp = *ix.pick(&deployers);
        let cu = *ix.pick(&cust);
        let ch = *ix.pick(&chains);
        let li = *ix.pick(&limits);
        let de = *ix.pick(&decs);
        let mut c = Case::new(move || format!("initialize {} t22={t22} mint authority {au}, upgrade authority {up}, deployer {dp}, custody {cu}, chain {ch}, limit {li}, decimals {de}", mode_name(b)));
        let s = Setup { burning: b, t22, chain: ch, decimals: de, ..Setup::default() };
        let d = s.dep();
        let mut w = s.genesis();
        let auth = match au {
            "program" => Some(token_authority()),
            "minter" => Some(k("minter")),
            "owner" => Some(k("owner")),
            "custody" => Some(d.custody()),
            _ => None,
        };
        w.set(d.mint, mint_acct(d.tp, auth, *ix.pick(&[1_000_000, 0, u64::MAX]), de));
        w.set(
            program_data_key(&MGR),
            program_data(match up {
                "owner" => Some(k("owner")),
                "mallory" => Some(k("mallory")),
                "lock" => Some(upgrade_lock()),
                _ => None,
            }),
        );
        if cu != "absent" {
            w.set(d.custody(), token_acct(d.tp, &d.mint, &token_authority(), if cu == "funded" { 77 } else { 0 }));
        }
        let op = Op::Initialize { payer: k("payer"), deployer: k(dp), limit: li, dep: d.clone() };
        if let Some(w1) = case_step(&mut c, &w, &op, &d) {
            // never again, by anyone, in any mode
            for who in ["owner", "mallory"] {
                for b2 in bools {
                    let d2 = Dep { burning: b2, chain: ch ^ 1, ..d.clone() };
                    let op = Op::Initialize { payer: k("payer"), deployer: k(who), limit: li / 2, dep: Dep { chain: ch, burning: b2, ..d2.clone() } };
                    case_step(&mut c, &w1, &op, &d2);
                }
            }
        }
        c
    });
    // unknown modes
    let s = Setup::default();
    let d = s.dep();
    let w = s.genesis();
    r.sweep("mode-byte", 256, |i| {
        let mut c = Case::new(move || format!("initialize with mode byte {i}"));
        let mut ixn = d.initialize(k("payer"), k("owner"), 5);
        let n = ixn.data.len() - 1;
        ixn.data[n] = i as u8;
        let mut w = w.clone();
        w.set(d.mint, mint_acct(d.tp, Some(token_authority()), 0, 9));
        let res = exec(&w, &[ixn]);
        c.did(res.as_ref().ok().map(|t| &t.world));
        match res {
            Ok(t) => {
                if i > 1 {
                    c.fail("initialize", "accepted-despite:mode", format!("mode byte {i}"));
                } else if observe(&t.world).config.map(|c| c.burning) != Some(i == 1) {
                    c.fail("initialize", "post:config", format!("mode byte {i} not recorded"));
                }
            }
            Err(e) => {
                if i < 2 {
                    c.fail("initialize", "rejected", format!("mode byte {i}: {e}"));
                }
            }
        }
        c
    });
    // before initialization nothing works
    let mut pre = vec![];
    for b in bools {
        let s = Setup { burning: b, transceivers: vec![MGR, XCVR, MOCK1], ..Setup::default() };
        let d = s.dep();
        let ops = s.ops();
        for op in &ops[1..] {
            pre.push((s.genesis(), d.clone(), op.clone()));
        }
        pre.push((s.genesis(), d.clone(), xfer(&d, "alice", ob(0), args(5, 2, false))));
        for op in admin_ops(k("owner")) {
            pre.push((s.genesis(), d.clone(), op));
        }
        pre.push((s.genesis(), d.clone(), Op::Claim(k("owner"))));
        pre.push((s.genesis(), d.clone(), Op::InitLut { payer: k("payer"), slot: 999 }));
    }
    r.sweep("uninitialized", pre.len(), |i| {
        let (w, d, op) = &pre[i];
        let o2 = op.clone();
        let mut c = Case::new(move || format!("{o2:?} before initialization"));
        case_step(&mut c, w, op, d);
        c
    });
    // afterwards: the mode is fixed, the other mode's instructions never work
    for (b, t22) in [(false, false), (true, false), (false, true), (true, true)] {
        let name = format!("other-mode-{}-{}", mode_name(b), if t22 { "t22" } else { "spl" });
        let mut s = rich_setup(b, t22);
        if b {
            s.custody = 0;
        }
        let Some(x) = r.setup(&name, rich(&s)) else { continue };
        let d = x.d.clone();
        let mut w = x.w.clone();
        // the program controls the mint and custody is funded whatever the mode,
        // so that nothing but the mode stands in the way
        let sup = observe(&w).mints[&d.mint].1;
        w.set(d.mint, mint_acct(d.tp, Some(token_authority()), sup + 9_000, 9));
        let have = observe(&w).tokens[&d.custody()].amount;
        w.edit(&d.custody(), |a| a.data[64..72].copy_from_slice(&(have + 9_000).to_le_bytes()));
        // and the same with an all but empty custody
        let mut poor = w.clone();
        poor.set(d.mint, mint_acct(d.tp, Some(token_authority()), sup - have + 3, 9));
        poor.edit(&d.custody(), |a| a.data[64..72].copy_from_slice(&3u64.to_le_bytes()));
        let (vtms, due, later) = (x.vtms.clone(), x.due, x.later);
        let dd = d.clone();
        let m = Scn::new(d.clone(), vec![("work in every stage".into(), w), ("empty custody".into(), poor)], move |st| {
            let d = &dd;
            let mut v = vec![];
            for b in bools {
                if let Some(o) = next_ob(&st.o, 3) {
                    for q in bools {
                        let mut op = xfer(d, "alice", o, args(100, 2, q));
                        if let Op::Transfer { burn, .. } = &mut op {
                            *burn = b;
                        }
                        v.push(op);
                    }
                }
                for (i, to) in [due, later] {
                    for revert in bools {
                        v.push(Op::Release { burn: b, item: i, to: d.ata(&k(to)), revert });
                    }
                }
                v.push(Op::Initialize { payer: k("payer"), deployer: k("owner"), limit: 5, dep: Dep { burning: b, ..d.clone() } });
            }
            for (t, m) in &vtms {
                v.push(Op::Redeem { t: *t, vtm: *m });
            }
            v.extend(clock(st, START_TIME, &[DAY]));
            v.push(Op::SetPaused(k("owner"), !paused(&st.o)));
            v.push(Op::GiveOwnership { one_step: true, signer: st.o.config.as_ref().unwrap().owner, new: k("owner") });
            v
        })
        .mon(move |st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            let (c, n) = (st.o.config.as_ref().unwrap(), p.config.as_ref().unwrap());
            if (c.burning, c.mint, c.token_program, c.custody, c.chain) != (n.burning, n.mint, n.token_program, n.custody, n.chain) {
                out.push(inv("deployment-identity-changed", format!("{op:?}")));
            }
            let (c0, c1) = (st.o.tokens[&c.custody].amount, p.tokens[&c.custody].amount);
            if c.burning && c0 != c1 {
                out.push(inv("custody-used-when-burning", format!("{op:?}: {c0} -> {c1}")));
            }
            let (s0, s1) = (st.o.mints[&c.mint].1, p.mints[&c.mint].1);
            if !c.burning && s0 != s1 {
                out.push(inv("supply-changed-when-locking", format!("{op:?}: {s0} -> {s1}")));
            }
            out
        });
        r.bfs(&name, &m, if t { 12 } else { 5 });
    }
    // account substitution
    let mut targets = vec![];
    for b in bools {
        for t22 in bools {
            let s = Setup { burning: b, t22, ..Setup::default() };
            let d = s.dep();
            let mut w = s.genesis();
            // other mints and programs to choose from would be legitimate
            // choices of the deployer, so only one mint of this program exists
            let op = Op::Initialize { payer: k("payer"), deployer: k("owner"), limit: 5, dep: d.clone() };
            w.set(k("evil-mint"), Acct { owner: EVIL, ..mint_acct(d.tp, Some(token_authority()), 0, 9) });
            targets.push(Target::new("initialize", &w, &op, &d, &[0]));
        }
    }
    singles(r, "initialize-accounts", &targets);
}

// ------------------------------------------------------------------ C21

pub fn c21(r: &mut Run) {
    r.focus(&["set_peer/*", "set_xpeer/*", "set_in_limit/*", "set_out_limit/*", "*/post:peers", "*/post:xpeers", "inv/*"]);
    let t = r.thorough;
    let s = rich_setup(false, false);
    let Some(x) = r.setup("administration", rich(&s)) else { return };
    let d = x.d.clone();
    let own = k("owner");
    let vtms = x.vtms.clone();
    let dd = d.clone();
    let m = Scn::new(d.clone(), vec![("work in every stage".into(), x.w.clone())], move |st| {
        let mut v = vec![];
        for c in [2u16, 258, 3] {
            v.push(Op::SetPeer { signer: own, chain: c, address: a32("p1"), limit: if c == 2 { 400 } else { 300 }, decimals: 9 });
            if c != 258 {
                v.push(Op::SetPeer { signer: own, chain: c, address: a32("p2"), limit: 90, decimals: 6 });
            }
            for l in [0, 100, 1000] {
                if c != 258 || l == 100 || t {
                    v.push(Op::SetInLimit(own, c, l));
                }
            }
            for prog in [MGR, XCVR] {
                if c != 2 {
                    v.push(Op::SetXPeer { prog, signer: own, chain: c, address: a32("x1") });
                }
                if c == 3 || t {
                    v.push(Op::SetXPeer { prog, signer: own, chain: c, address: a32("x2") });
                }
            }
        }
        for l in [0, 500, u64::MAX] {
            v.push(Op::SetOutLimit(own, l));
        }
        if let Some(o) = next_ob(&st.o, 3) {
            for c in [2, 3] {
                v.push(xfer(&dd, "alice", o, args(300, c, true)));
            }
        }
        for (t, m) in &vtms {
            v.push(Op::Redeem { t: *t, vtm: *m });
        }
        v.extend(clock(st, START_TIME, &[DAY / 2, DAY]));
        v
    })
    .mon(|st, op, post, _| {
        let mut out = vec![];
        let Some(p) = post else { return out };
        let adm = matches!(op, Op::SetPeer { .. } | Op::SetXPeer { .. } | Op::SetInLimit(..) | Op::SetOutLimit(..));
        if adm {
            let o = &st.o;
            if p.tokens != o.tokens || p.mints != o.mints || p.outbox != o.outbox || p.inbox != o.inbox || p.vtms != o.vtms || p.config != o.config || p.authority != o.authority || p.emitted != o.emitted || p.registered != o.registered {
                out.push(inv("side-effect", format!("{op:?}")));
            }
            if p.out_rl != o.out_rl && !matches!(op, Op::SetOutLimit(..)) {
                out.push(inv("outbound-limiter-touched", format!("{op:?}")));
            }
            let target = match op {
                Op::SetPeer { chain, .. } | Op::SetInLimit(_, chain, _) => Some(inbox_rl(*chain)),
                _ => None,
            };
            for (key, v) in &o.in_rl {
                if p.in_rl.get(key) != Some(v) && Some(*key) != target {
                    out.push(inv("other-chain-touched", format!("{op:?}: {key}")));
                }
            }
            for (key, v) in &o.peers {
                if p.peers.get(key) != Some(v) && !matches!(op, Op::SetPeer { chain, .. } if peer(*chain) == *key) {
                    out.push(inv("other-peer-touched", format!("{op:?}: {key}")));
                }
            }
        }
        for (key, v) in &st.o.xpeers {
            if p.xpeers.get(key) != Some(v) {
                out.push(inv("transceiver-peer-replaced", format!("{op:?}: {v:?}")));
            }
        }
        for (key, r) in p.in_rl.iter().chain(p.out_rl.iter()) {
            if r.cap > r.limit {
                out.push(inv("capacity-above-limit", format!("{op:?}: {key} {r:?}")));
            }
        }
        out
    });
    r.bfs("administration", &m, if t { 5 } else { 4 });
    // values
    let Some(w) = r.setup("values", s.build()) else { return };
    let chains: Vec<u16> = if t { vec![0, 1, 2, 3, 255, 256, 257, 258, 512, 32768, 65535] } else { vec![0, 2, 255, 256, 258, 65535] };
    let addrs: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], a32("x"), std::array::from_fn(|i| i as u8 + 1)];
    let lims: Vec<u64> = vec![0, 1, 400, 86_399, 86_400, 1 << 32, u64::MAX];
    let decs: Vec<u8> = if t { (0..=255).collect() } else { vec![0, 1, 7, 8, 9, 18, 255] };
    let n = chains.len() * addrs.len() * lims.len() * decs.len();
    r.sweep("peer-values", n, |i| {
        let mut ix = Ix(i);
        let (ch, ad, li, de) = (*ix.pick(&chains), *ix.pick(&addrs), *ix.pick(&lims), *ix.pick(&decs));
        let mut c = Case::new(move || format!("set peer of {ch} to {ad:02x?} limit {li} decimals {de}"));
        let op = Op::SetPeer { signer: k("owner"), chain: ch, address: ad, limit: li, decimals: de };
        let mut w = w.clone();
        // unless the chain is new, its limiter has been used
        if w.get(&inbox_rl(ch)).is_some() {
            Rl { limit: 400, cap: 13, last: w.now - 5 }.inject_inbox(&mut w, ch);
        }
        if let Some(w1) = case_step(&mut c, &w, &op, &d) {
            case_step(&mut c, &w1, &Op::SetPeer { signer: k("owner"), chain: ch, address: a32("again"), limit: li / 2, decimals: de ^ 1 }, &d);
            for prog in [MGR, XCVR] {
                if let Some(w2) = case_step(&mut c, &w1, &Op::SetXPeer { prog, signer: k("owner"), chain: ch, address: ad }, &d) {
                    case_step(&mut c, &w2, &Op::SetXPeer { prog, signer: k("owner"), chain: ch, address: a32("again") }, &d);
                }
            }
        }
        c
    });
    let states: Vec<Rl> = {
        let mut v = vec![];
        for limit in [0u64, 1, 400, 86_400, u64::MAX - 1, u64::MAX] {
            for cap in [0u64, 1, limit / 2, limit] {
                for age in [0i64, 1, 43_200, 86_399, 86_400, 1_000_000] {
                    if cap <= limit {
                        v.push(Rl { limit, cap, last: START_TIME - age });
                    }
                }
            }
        }
        v
    };
    let news: Vec<u64> = vec![0, 1, 2, 399, 400, 401, 86_400, u64::MAX / 2, u64::MAX - 1, u64::MAX];
    r.sweep("limit-values", states.len() * news.len() * 3, |i| {
        let mut ix = Ix(i);
        let (st, nl) = (*ix.pick(&states), *ix.pick(&news));
        let which = *ix.pick(&[0u16, 2, 258]);
        let mut c = Case::new(move || format!("{st:?} -> limit {nl} of {which}"));
        let mut w = w.clone();
        let op = if which == 0 {
            st.inject_outbox(&mut w);
            Op::SetOutLimit(k("owner"), nl)
        } else {
            st.inject_inbox(&mut w, which);
            Op::SetInLimit(k("owner"), which, nl)
        };
        case_step(&mut c, &w, &op, &d);
        c
    });
    // accounts
    r.focus.push("*/subst".into());
    let mut targets = vec![];
    for op in admin_ops(own) {
        if matches!(op, Op::SetPaused(..) | Op::Register { .. }) {
            continue;
        }
        targets.push(Target::new(op.name(), &w, &op, &d, &admin_free(&op)));
    }
    // only set_inbound_limit names its chain twice; see C28 for the rest
    singles(r, "peer-accounts", &targets);
}
