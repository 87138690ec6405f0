//! C25, C27, C28, C29: broadcasts, progress, look-alike accounts, lookup table.
use super::admin::{rich, rich_setup};
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, subst::*, svm::*};


// ------------------------------------------------------------------ C25

pub fn c25(r: &mut Run) {
    r.focus(&["broadcast_id/*", "broadcast_peer/*", "inv/*"]);
    let t = r.thorough;
    let bools = [false, true];
    let decs: Vec<u8> = if t { (0..=255).collect() } else { vec![0, 1, 6, 8, 9, 18, 255] };
    let chains: Vec<u16> = vec![0, 2, 3, 255, 256, 258, 512, 0x1234, 65535];
    let fees = [0u64, 1, 1_000_000];
    // peers registered for some chains only, different for the two programs
    let mut worlds = vec![];
    for b in bools {
        for t22 in bools {
            for f in fees {
                for x in [true, false] {
                    let s = Setup {
                        burning: b,
                        t22,
                        fee: f,
                        chain: if f == 1 { 0x1234 } else { 1 },
                        peers: vec![],
                        transceivers: if x { vec![MGR, XCVR] } else { vec![] },
                        ..Setup::default()
                    };
                    let d = s.dep();
                    let Some(w) = r.setup("broadcasts", s.build()) else { return };
                    let mut ops = vec![];
                    for (c, who) in [(2u16, MGR), (2, XCVR), (256, MGR), (258, XCVR), (512, MGR), (65535, XCVR), (3, MGR)] {
                        ops.push(Op::SetXPeer { prog: who, signer: k("owner"), chain: c, address: a32(&format!("peer {c} {who}")) });
                    }
                    let Some(w) = r.setup("broadcasts", honest(w, &d, &ops)) else { return };
                    worlds.push((d, w));
                }
            }
        }
    }
    let progs = [MGR, XCVR];
    r.sweep("identity", worlds.len() * 2 * decs.len() * 2, |i| {
        let mut ix = Ix(i);
        let (d, w) = ix.pick(&worlds);
        let p = *ix.pick(&progs);
        let de = *ix.pick(&decs);
        let pa = *ix.pick(&bools);
        let d2 = d.clone();
        let mut c = Case::new(move || format!("identity of {d2:?} decimals {de} by {p}, paused {pa}"));
        let mut w = w.clone();
        w.edit(&d.mint, |a| a.data[44] = de);
        if pa {
            w = run_op(&w, &Op::SetPaused(k("owner"), true), d).unwrap();
        }
        if let Some(w1) = case_step(&mut c, &w, &Op::BroadcastId { prog: p, msg: k("m1") }, d) {
            case_step(&mut c, &w1, &Op::BroadcastId { prog: p, msg: k("m1") }, d);
            case_step(&mut c, &w1, &Op::BroadcastId { prog: p, msg: k("m2") }, d);
            // documented layout, byte by byte
            let o = observe(&w1);
            let y = &o.emitted[&k("m1")].payload;
            let ok = y.len() == 70 && y[..4] == [0x9c, 0x23, 0xbd, 0x3b] && y[4..36] == MGR.to_bytes() && y[36] == d.burning as u8 && y[37..69] == d.mint.to_bytes() && y[69] == de;
            if !ok {
                c.fail("broadcast_id", "post:payload", format!("{y:02x?}"));
            }
        }
        c
    });
    r.sweep("peers", worlds.len() * 2 * chains.len(), |i| {
        let mut ix = Ix(i);
        let (d, w) = ix.pick(&worlds);
        let p = *ix.pick(&progs);
        let ch = *ix.pick(&chains);
        let d2 = d.clone();
        let mut c = Case::new(move || format!("peer {ch} of {d2:?} by {p}"));
        let n = case_step(&mut c, w, &Op::BroadcastPeer { prog: p, msg: k("m1"), chain: ch }, d);
        // every other peer account for the requested chain
        for other in &chains {
            for prog in progs {
                if (*other, prog) == (ch, p) {
                    continue;
                }
                let mut ixn = broadcast_peer(&p, k("payer"), k("m2"), ch);
                ixn.accounts[2].pubkey = xpeer(&prog, *other);
                let res = exec(w, &[ixn]);
                c.did(res.as_ref().ok().map(|t| &t.world));
                if res.is_ok() {
                    c.fail("broadcast_peer", "subst", format!("chain {ch} with the peer account of {other} at {prog}"));
                }
            }
        }
        if let Some(w1) = n {
            let o = observe(&w1);
            let y = &o.emitted[&k("m1")].payload;
            let want = a32(&format!("peer {ch} {p}"));
            if !(y.len() == 38 && y[..4] == [0x18, 0xfc, 0x67, 0xc2] && y[4..6] == ch.to_be_bytes() && y[6..] == want) {
                c.fail("broadcast_peer", "post:payload", format!("{y:02x?}"));
            }
        }
        c
    });
    // histories: broadcasts among ordinary traffic
    for (b, t22) in [(false, true), (true, false)] {
        let name = format!("histories-{}", if b { "burning" } else { "locking" });
        let Some(x) = r.setup(&name, rich(&rich_setup(b, t22))) else { continue };
        let d = x.d.clone();
        let m = Scn::new(x.d.clone(), vec![("work in every stage".into(), x.w.clone())], move |st| {
            let mut v = vec![];
            let n = st.o.emitted.len();
            let msg = k(&format!("bc-{}", n.min(2)));
            for p in progs {
                v.push(Op::BroadcastId { prog: p, msg });
                for chain in [2u16, 258, 3] {
                    v.push(Op::BroadcastPeer { prog: p, msg, chain });
                }
                v.push(Op::SetXPeer { prog: p, signer: k("owner"), chain: 3, address: a32("x3") });
                v.push(Op::Publish { prog: p, outbox: ob(0), revert: true });
            }
            if let Some(o) = next_ob(&st.o, 3) {
                v.push(xfer(&d, "alice", o, args(100, 2, true)));
            }
            v.push(Op::SetPeer { signer: k("owner"), chain: 2, address: a32("moved"), limit: 1, decimals: 3 });
            v.push(Op::SetPaused(k("owner"), !st.o.config.as_ref().unwrap().paused));
            v.push(Op::GiveOwnership { one_step: false, signer: k("owner"), new: k("carol") });
            v
        })
        .mon(|st, op, post, _| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            if !matches!(op, Op::BroadcastId { .. } | Op::BroadcastPeer { .. }) {
                return out;
            }
            let mut q = p.clone();
            q.emitted = st.o.emitted.clone();
            q.seqs = st.o.seqs.clone();
            q.wallets = st.o.wallets.clone();
            if q != *st.o {
                out.push(inv("broadcast-side-effect", format!("{op:?}")));
            }
            if p.emitted.len() != st.o.emitted.len() + 1 {
                out.push(inv("broadcast-messages", format!("{op:?}")));
            }
            out
        });
        r.bfs(&name, &m, if t { 6 } else { 4 });
    }
    // accounts
    let Some(x) = r.setup("broadcast-accounts", rich(&rich_setup(false, false))) else { return };
    let mut w = x.w.clone();
    w.set(k("mint-x"), mint_acct(x.d.tp, Some(token_authority()), 0, 3));
    let mut targets = vec![];
    for p in progs {
        targets.push(Target::new("broadcast_id", &w, &Op::BroadcastId { prog: p, msg: k("m1") }, &x.d, &[0, 3]));
        targets.push(Target::new("broadcast_peer", &w, &Op::BroadcastPeer { prog: p, msg: k("m1"), chain: 2 }, &x.d, &[0, 3]));
    }
    singles(r, "broadcast-accounts", &targets);
    if t {
        pairs(r, "broadcast-pairs", &targets, &[]);
    }
}

// ------------------------------------------------------------------ C27

/// Drives every open transfer of `w` to completion with permissionless calls.
fn complete(st: &St, d: &Dep, late: i64) -> Vec<Div> {
    let mut out = vec![];
    let c = st.o.config.as_ref().unwrap().clone();
    if c.paused {
        return out;
    }
    let run = |w: &World, op: &Op| run_op(w, op, d);
    // outbound: published by each enabled transceiver within a day of sending
    for (key, it) in &st.o.outbox {
        let sent = st.g.get(&(2, *key)).copied().unwrap_or(START_TIME as i128) as i64;
        let mut w = st.w.clone();
        w.now = w.now.max(sent + DAY) + late;
        w.slot += 1;
        for (id, t) in st.o.registered.values() {
            if it.released >> id & 1 == 1 || c.enabled >> id & 1 == 0 {
                continue;
            }
            let op = if *t == MGR || *t == XCVR {
                Op::Publish { prog: *t, outbox: *key, revert: true }
            } else {
                Op::Mark { by: *t, claim: *t, outbox: *key }
            };
            match run(&w, &op) {
                Ok(n) => {
                    let o = observe(&n);
                    if o.outbox.get(key).map_or(true, |x| x.released >> id & 1 == 0) {
                        out.push(inv("not-publishable", format!("{op:?} has no effect a day after sending ({it:?}, sent {sent})")));
                    }
                    if *t == MGR || *t == XCVR {
                        if !o.emitted.contains_key(&wh_message(t, key)) {
                            out.push(inv("not-publishable", format!("{op:?} emitted nothing")));
                        }
                    }
                    w = n;
                }
                Err(e) => out.push(inv("not-publishable", format!("{op:?} fails a day after sending ({it:?}, sent {sent}): {e}"))),
            }
        }
    }
    // inbound: every VAA received, every received message redeemed, approved and paid
    let mut w = st.w.clone();
    for (key, v) in &st.o.vaas {
        for p in [MGR, XCVR] {
            if v.emitter != xpeer_addr(&p, v.emitter_chain) {
                continue;
            }
            let Some(x) = XMsg::parse(&v.payload) else { continue };
            if st.o.vtms.contains_key(&vtm(&p, v.emitter_chain, &x.msg.id)) {
                continue;
            }
            match run(&w, &Op::Receive { prog: p, vaa: *key }) {
                Ok(n) => w = n,
                Err(e) => out.push(inv("not-receivable", format!("{key} by {p}: {e}"))),
            }
        }
    }
    let o = observe(&w);
    for (key, (t, v)) in &o.vtms {
        let ik = inbox_item(v.chain, &v.msg.msg);
        let mut at = st.g.get(&(3, ik)).map(|x| *x as i64);
        let mut it = observe(&w).inbox.get(&ik).cloned();
        if it.as_ref().map_or(true, |i| i.status == Status::NotApproved) {
            match run(&w, &Op::Redeem { t: *t, vtm: *key }) {
                Ok(n) => w = n,
                Err(e) => {
                    out.push(inv("not-redeemable", format!("{v:?} by {t}: {e}")));
                    continue;
                }
            }
            it = observe(&w).inbox.get(&ik).cloned();
            at = Some(w.now);
        }
        let voted = it.as_ref().map_or(0, |i| (i.votes & c.enabled).count_ones());
        match it.map(|i| (i.status.clone(), i)) {
            Some((Status::ReleaseAfter(_), i)) => {
                let mut w2 = w.clone();
                w2.now = w2.now.max(at.unwrap_or(w.now) + DAY) + late;
                w2.slot += 1;
                let to = d.ata(&i.recipient);
                let before = observe(&w2).tokens[&to].amount;
                match run(&w2, &Op::Release { burn: d.burning, item: ik, to, revert: true }) {
                    Ok(n) => {
                        let got = observe(&n).tokens[&to].amount - before;
                        if got != i.amount {
                            out.push(inv("not-paid", format!("{i:?}: got {got}")));
                        }
                        w2 = n;
                        // keep what was paid, not the clock
                        let back = w.now;
                        w = w2;
                        w.now = back;
                    }
                    Err(e) => out.push(inv("not-paid", format!("{i:?} approved at {at:?}: {e}"))),
                }
            }
            Some((Status::Released, _)) => {}
            Some((Status::NotApproved, i)) if voted >= c.threshold as u32 => out.push(inv("not-approved", format!("{i:?}"))),
            Some((Status::NotApproved, _)) => {}
            None => out.push(inv("not-approved", format!("{v:?} has no record"))),
        }
    }
    out
}

pub fn c27(r: &mut Run) {
    r.focus(&["inv/*", "publish/rejected", "mark/rejected", "receive/rejected", "redeem/rejected", "release/rejected", "*/post:outbox", "*/post:inbox"]);
    let t = r.thorough;
    for (b, t22, thr) in [(false, false, 1u8), (true, true, 2)] {
        let name = format!("completion-{}-threshold{thr}", if b { "burning" } else { "locking" });
        let mut s = rich_setup(b, t22);
        s.custody = 5_000;
        let Some(x) = r.setup(&name, rich(&s)) else { continue };
        let d = x.d.clone();
        let mut w = x.w.clone();
        // one message delivered by two transceivers
        let msg = s.inbound(2, 40, 6, 8, &k("carol"));
        let v1 = inject_vtm(&mut w, &MOCK1, 2, &msg);
        let v2 = post_vaa(&mut w, "vaa-both", &MGR, 2, &msg);
        set_quorum(&mut w, 0b111, thr);
        let (vaas, mut vtms, due, later) = (x.vaas.clone(), x.vtms.clone(), x.due, x.later);
        if thr > 1 {
            // single deliveries cannot reach the quorum
            vtms.truncate(1);
        }
        let dd = d.clone();
        let d3 = d.clone();
        let m = Scn::new(d.clone(), vec![("work in every stage".into(), w)], move |st| {
            let d = &dd;
            let own = k("owner");
            let mut v = vec![];
            if let Some(o) = next_ob(&st.o, 3) {
                v.push(xfer(d, "alice", o, args(800, 2, true)));
                if t {
                    v.push(xfer(d, "alice", o, args(10, 258, true)));
                }
            }
            for i in [0, 1] {
                v.push(Op::Publish { prog: MGR, outbox: ob(i), revert: false });
                if i == 0 || t {
                    v.push(Op::Publish { prog: XCVR, outbox: ob(i), revert: false });
                }
            }
            v.push(Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) });
            v.push(Op::Receive { prog: vaas[0].0, vaa: vaas[0].1 });
            v.push(Op::Receive { prog: MGR, vaa: v2 });
            for (t, m) in &vtms {
                v.push(Op::Redeem { t: *t, vtm: *m });
            }
            v.push(Op::Redeem { t: MOCK1, vtm: v1 });
            v.push(Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &msg.msg.id) });
            for (i, to) in [due, later] {
                v.push(release(d, i, to, false));
            }
            v.push(Op::SetOutLimit(own, 0));
            v.push(Op::SetInLimit(own, 2, 0));
            if t {
                v.push(Op::SetOutLimit(own, u64::MAX));
                v.push(Op::SetInLimit(own, 2, u64::MAX));
            }
            v.push(Op::SetPeer { signer: own, chain: 2, address: peer_addr(2), limit: 5, decimals: 9 });
            let p = st.o.config.as_ref().unwrap().paused;
            v.push(Op::SetPaused(own, !p));
            v.extend(clock(st, START_TIME, &[DAY / 2, DAY]));
            v
        })
        .mon(|st, op, post, g| {
            if let Some(p) = post {
                for key in p.outbox.keys().filter(|k| !st.o.outbox.contains_key(k)) {
                    g.insert((2, *key), st.o.now as i128);
                }
                for (key, i) in &p.inbox {
                    let was = st.o.inbox.get(key).map(|i| i.status.clone()).unwrap_or(Status::NotApproved);
                    if was == Status::NotApproved && i.status != Status::NotApproved {
                        g.insert((3, *key), st.o.now as i128);
                    }
                }
            }
            let _ = op;
            vec![]
        })
        .inv(move |st| {
            let mut g = st.clone();
            // approved and sent before the exploration began
            for key in st.o.inbox.keys() {
                g.g.entry((3, *key)).or_insert(START_TIME as i128);
            }
            let mut v = complete(&g, &d3, 0);
            if v.is_empty() {
                // and years later
                v = complete(&g, &d3, 3000 * DAY);
            }
            v
        });
        r.bfs(&name, &m, if t { 6 } else { 4 });
    }
    // extreme limiter states and amounts
    let lims = [0u64, 1, 1 << 32, u64::MAX - 1, u64::MAX];
    let caps = [0u64, 1, u64::MAX];
    let ages = [0i64, 1, DAY, 1_000_000_000];
    let mut states = vec![];
    for l in lims {
        for c in caps {
            for a in ages {
                if c.min(l) == c || c == u64::MAX {
                    states.push(Rl { limit: l, cap: c.min(l), last: START_TIME - a });
                }
            }
        }
    }
    states.dedup();
    let amounts = [0u64, 1, 1 << 32, 1 << 62, u64::MAX / 2, u64::MAX];
    for b in [false, true] {
        let name = format!("extremes-{}", if b { "burning" } else { "locking" });
        let s = Setup {
            burning: b,
            decimals: 8,
            peers: vec![(2, 8, 10)],
            users: vec![("alice", 0), ("bob", 0)],
            custody: 0,
            stray: 0,
            transceivers: vec![MOCK1],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(w) = r.setup(&name, s.build()) else { continue };
        let n = states.len() * states.len() * amounts.len() * 2;
        r.sweep(&name, n, |i| {
            let mut ix = Ix(i);
            let (so, si) = (*ix.pick(&states), *ix.pick(&states));
            let a = *ix.pick(&amounts);
            let inbound = *ix.pick(&[false, true]);
            let mut c = Case::new(move || format!("outbound {so:?}, inbound {si:?}, amount {a}, inbound transfer {inbound}"));
            let mut w = w.clone();
            so.inject_outbox(&mut w);
            si.inject_inbox(&mut w, 2);
            if inbound {
                if !b {
                    w.set(d.custody(), token_acct(d.tp, &d.mint, &token_authority(), a));
                    w.set(d.mint, mint_acct(d.tp, Some(k("minter")), a, 8));
                }
                let x = s.inbound(2, 1, a, 8, &k("bob"));
                let v = inject_vtm(&mut w, &MOCK1, 2, &x);
                if let Some(w1) = case_step(&mut c, &w, &Op::Redeem { t: MOCK1, vtm: v }, &d) {
                    let w2 = case_step(&mut c, &w1, &Op::Advance(DAY), &d).unwrap();
                    let item = inbox_item(2, &x.msg);
                    if let Some(w3) = case_step(&mut c, &w2, &release(&d, item, "bob", true), &d) {
                        if observe(&w3).tokens[&d.ata(&k("bob"))].amount != a {
                            c.fail("inv", "inv:not-paid", "recipient not paid".into());
                        }
                    } else {
                        c.fail("inv", "inv:not-paid", "release fails a day later".into());
                    }
                } else {
                    c.fail("inv", "inv:not-redeemable", "redeem fails".into());
                }
            } else {
                w.set(d.ata(&k("alice")), token_acct(d.tp, &d.mint, &k("alice"), a));
                let auth = if b { token_authority() } else { k("minter") };
                w.set(d.mint, mint_acct(d.tp, Some(auth), a, 8));
                if let Some(w1) = case_step(&mut c, &w, &xfer(&d, "alice", ob(0), args(a, 2, true)), &d) {
                    let w2 = case_step(&mut c, &w1, &Op::Advance(DAY), &d).unwrap();
                    let w3 = case_step(&mut c, &w2, &Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) }, &d);
                    if w3.map_or(true, |w| observe(&w).outbox[&ob(0)].released == 0) {
                        c.fail("inv", "inv:not-publishable", "cannot be published a day later".into());
                    }
                } else {
                    c.fail("inv", "inv:not-sendable", "transfer with queuing fails".into());
                }
            }
            c
        });
    }
}

// ------------------------------------------------------------------ C28

pub fn c28(r: &mut Run) {
    r.focus(&["*/subst", "*/rejected", "setup/*"]);
    let t = r.thorough;
    let mut all = vec![];
    for b in [false, true] {
        for t22 in [false, true] {
            let s = rich_setup(b, t22);
            let name = "accounts";
            let Some(x) = r.setup(name, rich(&s)) else { return };
            let d = x.d.clone();
            let mut w = x.w.clone();
            // look-alikes: another mint with accounts of the same people, further
            // accounts of the same mint, in particular one owned by the program
            let m2 = k("mint-x");
            w.set(m2, mint_acct(d.tp, Some(token_authority()), 1_000_000, 9));
            for u in ["alice", "bob", "carol", "dave"] {
                w.set(nttmc::client::ata(&k(u), &m2, &d.tp), token_acct(d.tp, &m2, &k(u), 1_000));
                w.set(k(&format!("{u}-2")), token_acct(d.tp, &d.mint, &k(u), 1_000));
            }
            w.set(k("custody-2"), token_acct(d.tp, &d.mint, &token_authority(), 9_000));
            w.set(nttmc::client::ata(&token_authority(), &m2, &d.tp), token_acct(d.tp, &m2, &token_authority(), 9_000));
            // a sequence account of an unrelated emitter and an unused session key
            for (n, op, free) in [
                ("transfer", xfer(&d, "alice", ob(7), args(100, 2, false)), vec![0, 5]),
                ("transfer", xfer(&d, "alice", ob(7), args(100, 258, true)), vec![0, 5]),
                ("publish", Op::Publish { prog: MGR, outbox: ob(0), revert: true }, vec![0]),
                ("publish", Op::Publish { prog: XCVR, outbox: ob(0), revert: true }, vec![0]),
                ("receive", Op::Receive { prog: MGR, vaa: x.vaas[0].1 }, vec![0]),
                ("receive", Op::Receive { prog: XCVR, vaa: x.vaas[1].1 }, vec![0]),
                ("redeem", Op::Redeem { t: MGR, vtm: x.vtms[0].1 }, vec![0]),
                ("redeem", Op::Redeem { t: XCVR, vtm: x.vtms[1].1 }, vec![0]),
                ("release", release(&d, x.due.0, x.due.1, true), vec![0]),
            ] {
                all.push(Target::new(n, &w, &op, &d, &free));
            }
            let mark = Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) };
            all.push(Target::new("mark", &w, &mark, &d, &[0]).allow(3, ob(1)));
            if !t22 && !b {
                let own = k("owner");
                for (n, op, free) in [
                    ("set_paused", Op::SetPaused(own, true), vec![]),
                    ("set_peer", Op::SetPeer { signer: own, chain: 2, address: a32("m"), limit: 5, decimals: 6 }, vec![0]),
                    ("set_out_limit", Op::SetOutLimit(own, 5), vec![]),
                    ("set_in_limit", Op::SetInLimit(own, 2, 5), vec![]),
                    ("set_xpeer", Op::SetXPeer { prog: MGR, signer: own, chain: 3, address: a32("m") }, vec![2]),
                    ("set_xpeer", Op::SetXPeer { prog: XCVR, signer: own, chain: 3, address: a32("m") }, vec![2]),
                    ("register", Op::Register { signer: own, t: MOCK2 }, vec![2]),
                    ("broadcast_id", Op::BroadcastId { prog: MGR, msg: k("m") }, vec![0, 3]),
                    ("broadcast_id", Op::BroadcastId { prog: XCVR, msg: k("m") }, vec![0, 3]),
                    ("broadcast_peer", Op::BroadcastPeer { prog: MGR, msg: k("m"), chain: 2 }, vec![0, 3]),
                    ("broadcast_peer", Op::BroadcastPeer { prog: XCVR, msg: k("m"), chain: 2 }, vec![0, 3]),
                ] {
                    all.push(Target::new(n, &w, &op, &d, &free));
                }
            }
        }
    }
    singles(r, "one-account", &all);
    if t {
        pairs(r, "two-accounts", &all, &[]);
    } else {
        // pairs on the instructions that move tokens
        let some: Vec<Target> = all.iter().filter(|t| ["transfer", "release", "redeem"].contains(&t.name.as_str())).cloned().collect();
        pairs(r, "two-accounts", &some[..some.len().min(10)], &[]);
    }
}

// ------------------------------------------------------------------ C29

pub fn c29(r: &mut Run) {
    r.focus(&["init_lut/*", "*/post:lut", "*/post:tables", "inv/*"]);
    let t = r.thorough;
    let bools = [false, true];
    for b in bools {
        for t22 in bools {
            let name = format!("tables-{}-{}", if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
            let s = Setup { burning: b, t22, transceivers: vec![MGR, XCVR], ..Setup::default() };
            let d = s.dep();
            let Some(w) = r.setup(&name, s.build()) else { continue };
            let mut inits = vec![("connected".to_string(), w.clone())];
            // someone creates the table first (possible: creation needs no authority)
            for slot in [990u64, 995] {
                let mut w = w.clone();
                let mut data = vec![0u8; 56];
                data[0] = 1;
                data[4..12].copy_from_slice(&u64::MAX.to_le_bytes());
                data[21] = 1;
                data[22..54].copy_from_slice(lut_authority().as_ref());
                w.set(lut_address(slot), Acct { lamports: rent_min(56), owner: ALT, executable: false, data });
                inits.push((format!("table for slot {slot} created by someone else"), w));
            }
            let dd = d.clone();
            let m = Scn::new(d.clone(), inits, move |st| {
                let mut v = vec![];
                for p in ["payer", "mallory", "alice"] {
                    for slot in [990u64, 995, 999] {
                        v.push(Op::InitLut { payer: k(p), slot });
                    }
                }
                v.push(Op::SetPaused(k("owner"), !st.o.config.as_ref().unwrap().paused));
                if t {
                    if let Some(o) = next_ob(&st.o, 2) {
                        v.push(xfer(&dd, "alice", o, args(10, 2, true)));
                    }
                    v.push(Op::GiveOwnership { one_step: true, signer: st.o.config.as_ref().unwrap().owner, new: k("carol") });
                }
                v
            })
            .mon(|st, op, post, _| {
                let mut out = vec![];
                let Some(p) = post else { return out };
                for (key, (a, e)) in &st.o.tables {
                    match p.tables.get(key) {
                        Some((a2, e2)) if a2 == a && e.iter().all(|x| e2.contains(x)) => {}
                        x => out.push(inv("earlier-table-changed", format!("{op:?}: {key} {x:?}"))),
                    }
                }
                if let Op::InitLut { .. } = op {
                    let mut q = p.clone();
                    q.lut = st.o.lut;
                    q.tables = st.o.tables.clone();
                    q.wallets = st.o.wallets.clone();
                    if q != *st.o {
                        out.push(inv("side-effect", format!("{op:?}")));
                    }
                }
                out
            })
            .inv(|st| {
                let mut out = vec![];
                let Some(l) = st.o.lut else { return out };
                let c = st.o.config.as_ref().unwrap();
                match st.o.tables.get(&l) {
                    None => out.push(inv("no-table", format!("{l}"))),
                    Some((a, e)) => {
                        if *a != Some(lut_authority()) {
                            out.push(inv("table-authority", format!("{a:?}")));
                        }
                        let want = lut_contents(c);
                        if e.iter().any(|x| !want.contains(x)) || want.iter().any(|x| !e.contains(x)) {
                            out.push(inv("table-contents", format!("{e:?}, expected {want:?}")));
                        }
                    }
                }
                out
            });
            // repeated calls fill the same table, so the depth stays below its capacity
            r.bfs(&name, &m, if t { 8 } else { 5 });
        }
    }
    let mut targets = vec![];
    for b in bools {
        let s = rich_setup(b, b);
        let Some(x) = r.setup("table-accounts", rich(&s)) else { return };
        let mut w = x.w.clone();
        w.set(k("mint-x"), mint_acct(x.d.tp, Some(token_authority()), 0, 9));
        w.set(k("custody-2"), token_acct(x.d.tp, &x.d.mint, &token_authority(), 9_000));
        targets.push(Target::new("init_lut", &w, &Op::InitLut { payer: k("payer"), slot: 990 }, &x.d, &[0]));
        let w2 = honest(w.clone(), &x.d, &[Op::InitLut { payer: k("payer"), slot: 990 }]);
        let Some(w2) = r.setup("table-accounts", w2) else { return };
        targets.push(Target::new("init_lut", &w2, &Op::InitLut { payer: k("payer"), slot: 995 }, &x.d, &[0]));
    }
    singles(r, "table-accounts", &targets);
    if t {
        pairs(r, "table-pairs", &targets, &[]);
    }
}
