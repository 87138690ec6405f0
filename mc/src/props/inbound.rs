//! C03, C04, C05, C17, C20: receiving, redeeming and paying out.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, subst::*, svm::*};
use solana_program::pubkey::Pubkey;

fn rank(s: &Status) -> u8 {
    match s {
        Status::NotApproved => 0,
        Status::ReleaseAfter(_) => 1,
        Status::Released => 2,
    }
}

/// At most one payout per message, exact, due, and to the right account.
fn payout_monitor(d: Dep) -> impl Fn(&St, &Op, Option<&Obs>, &mut Ghost) -> Vec<Div> + Sync {
    move |st, op, post, g| {
        let mut out = vec![];
        let Some(p) = post else { return out };
        for (key, it) in &st.o.inbox {
            match p.inbox.get(key) {
                None => out.push(inv("record-vanished", format!("{op:?}: {key}"))),
                Some(n) => {
                    if rank(&n.status) < rank(&it.status)
                        || matches!((&it.status, &n.status), (Status::ReleaseAfter(a), Status::ReleaseAfter(b)) if a != b)
                    {
                        out.push(inv("status-backwards", format!("{op:?}: {it:?} -> {n:?}")));
                    }
                    if (n.amount, n.recipient) != (it.amount, it.recipient) {
                        out.push(inv("terms-changed", format!("{op:?}: {it:?} -> {n:?}")));
                    }
                }
            }
        }
        if let Op::Release { item, .. } = op {
            let mut gained: i128 = 0;
            for (key, t) in &p.tokens {
                let before = st.o.tokens.get(key).map_or(0, |t| t.amount) as i128;
                let delta = t.amount as i128 - before;
                if *key == d.custody() || delta == 0 {
                    continue;
                }
                gained += delta;
                let Some(it) = st.o.inbox.get(item) else { continue };
                if *key != d.ata(&it.recipient) {
                    out.push(inv("paid-someone-else", format!("{op:?}: {key} {delta:+}")));
                }
                if !matches!(it.status, Status::ReleaseAfter(t) if t <= p.now) {
                    out.push(inv("paid-before-due", format!("{op:?}: {it:?} at {}", p.now)));
                }
            }
            if gained != 0 {
                let n = g.entry((1, *item)).or_insert(0);
                *n += 1;
                if *n > 1 {
                    out.push(inv("paid-twice", format!("{op:?}")));
                }
                if st.o.inbox.get(item).map(|i| i.amount as i128) != Some(gained) {
                    out.push(inv("paid-wrong-amount", format!("{op:?}: {gained}")));
                }
                let cust = |o: &Obs| o.tokens[&d.custody()].amount as i128;
                let sup = |o: &Obs| o.mints[&d.mint].1 as i128;
                let (dc, ds) = (cust(p) - cust(&st.o), sup(p) - sup(&st.o));
                if (dc, ds) != if d.burning { (0, gained) } else { (-gained, 0) } {
                    out.push(inv("wrong-source", format!("{op:?}: custody {dc:+}, supply {ds:+}")));
                }
            }
        }
        out
    }
}

pub fn c03(r: &mut Run) {
    r.focus(&[
        "redeem/*",
        "release/*",
        "inv/*",
    ]);
    for (b, t22, thr) in [(false, false, 1), (true, false, 1), (false, true, 2), (true, true, 2)] {
        let name = format!("payouts-{}-{}-threshold{thr}", if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
        let s = Setup {
            burning: b,
            t22,
            peers: vec![(2, 9, 400), (258, 6, 1000)],
            users: vec![("alice", 1000), ("bob", 5), ("carol", 0)],
            custody: 1300,
            transceivers: vec![MOCK1, MOCK2],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(mut w) = r.setup(&name, s.build()) else { continue };
        set_quorum(&mut w, 3, thr);
        // bob's second account (not the canonical one)
        w.set(k("bob-2"), token_acct(d.tp, &d.mint, &k("bob"), 0));
        let msgs = [
            (2u16, s.inbound(2, 1, 30, 8, &k("bob"))),
            (2, s.inbound(2, 2, 50, 8, &k("carol"))), // above the inbound limit: delayed
            (258, s.inbound(258, 1, 40, 8, &k("bob"))),
            (258, s.inbound(258, 2, 7_000_000_004, 18, &k("carol"))), // rounds down to 7
        ];
        let mut reds = vec![];
        let mut items = vec![];
        for (c, x) in &msgs {
            for t in [MOCK1, MOCK2].iter().take(thr as usize) {
                reds.push(Op::Redeem { t: *t, vtm: inject_vtm(&mut w, t, *c, x) });
            }
            items.push((inbox_item(*c, &x.msg), x.msg.to));
        }
        let dd = d.clone();
        let t0 = w.now;
        let thorough = r.thorough;
        let m = Scn::new(d.clone(), vec![("received".into(), w)], move |st| {
            let d = &dd;
            let mut v = reds.clone();
            for (i, to) in &items {
                for revert in [true, false] {
                    v.push(Op::Release { burn: d.burning, item: *i, to: d.ata(&Pubkey::new_from_array(*to)), revert });
                }
                for other in [d.ata(&k("alice")), d.ata(&k("bob")), d.ata(&k("carol")), k("bob-2"), d.custody()] {
                    if other != d.ata(&Pubkey::new_from_array(*to)) {
                        v.push(Op::Release { burn: d.burning, item: *i, to: other, revert: false });
                    }
                }
                v.push(Op::Release { burn: !d.burning, item: *i, to: d.ata(&Pubkey::new_from_array(*to)), revert: false });
            }
            v.extend(clock(st, t0, if thorough { &[1, DAY - 1, DAY, DAY + 1, 2 * DAY, 1000 * DAY] } else { &[1, DAY - 1, DAY, 1000 * DAY] }));
            v
        })
        .mon(payout_monitor(d));
        r.bfs(&name, &m, 40);
    }
    payout_amounts(r);
    payout_recipients(r);
}

/// unusual recipients and message fields: whoever is named is paid, nobody else
fn payout_recipients(r: &mut Run) {
    for (b, t22) in [(false, true), (true, false)] {
        let name = format!("recipients-{}", if b { "burning" } else { "locking" });
        let s = Setup {
            burning: b,
            t22,
            peers: vec![(2, 9, 1_000), (258, 9, 1_000)],
            users: vec![("alice", 50), ("payer", 0), ("owner", 9)],
            custody: 10_000,
            transceivers: vec![MOCK1, MOCK2],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(mut w) = r.setup(&name, s.build()) else { return };
        let tos: Vec<Pubkey> = [
            Pubkey::default(),
            Pubkey::new_from_array([0xff; 32]),
            k("alice"),
            k("payer"),
            k("owner"),
            MGR,
            d.mint,
            d.custody(),
            config(),
            d.ata(&k("alice")),
            k("remote-sender"),
            Pubkey::new_from_array(peer_addr(2)),
        ]
        .into();
        for t in &tos {
            if w.get(&d.ata(t)).is_none() {
                w.set(d.ata(t), token_acct(d.tp, &d.mint, t, 0));
            }
        }
        let senders = [a32("remote-sender"), [0; 32], k("alice").to_bytes(), peer_addr(2)];
        let tokens = [a32("remote-token"), [0; 32], d.mint.to_bytes()];
        let amounts = [0u64, 1, 100, 101, 1_000];
        r.sweep(&name, tos.len() * senders.len() * tokens.len() * amounts.len() * 2, |i| {
            let mut ix = Ix(i);
            let to = *ix.pick(&tos);
            let (sender, token, a, ch) = (*ix.pick(&senders), *ix.pick(&tokens), *ix.pick(&amounts), *ix.pick(&[2u16, 258]));
            let mut x = s.inbound(ch, 1, a, 8, &to);
            x.msg.sender = sender;
            x.msg.source_token = token;
            let mut w = w.clone();
            let red = Op::Redeem { t: MOCK1, vtm: inject_vtm(&mut w, &MOCK1, ch, &x) };
            let mut c = Case::new(move || format!("{a} from chain {ch} to {to}, sender {sender:02x?}, token {token:02x?}"));
            let Some(w1) = case_step(&mut c, &w, &red, &d) else { return c };
            let rel = Op::Release { burn: b, item: inbox_item(ch, &x.msg), to: d.ata(&to), revert: false };
            if let Some(mut w2) = case_step(&mut c, &w1, &rel, &d) {
                w2.now += if i % 2 == 0 { DAY } else { 366 * DAY };
                let again = case_step(&mut c, &w2, &rel, &d);
                case_step(&mut c, &again.unwrap_or(w2), &rel, &d);
            }
            c
        });
    }
}

/// redeem and release over boundary amounts and decimals
fn payout_amounts(r: &mut Run) {
    let amounts: Vec<u64> = vec![0, 1, 9, 10, 11, 99, 12_345_678, u32::MAX as u64, 1 << 53, 18_446_744_073, u64::MAX / 10, u64::MAX / 10 + 1, 1 << 63, u64::MAX];
    let mdec: Vec<u8> = if r.thorough { (0..=40).chain([255]).collect() } else { vec![0, 1, 6, 7, 8, 9, 18, 255] };
    let ldec: Vec<u8> = if r.thorough { (0..=20).chain([27, 28, 255]).collect() } else { vec![0, 2, 6, 8, 9, 18, 27] };
    for b in [false, true] {
        let name = format!("amounts-{}", if b { "burning" } else { "locking" });
        let mut worlds = vec![];
        for dec in &ldec {
            let s = Setup {
                burning: b,
                decimals: *dec,
                peers: vec![(2, 8, u64::MAX)],
                users: vec![("bob", 0)],
                custody: u64::MAX,
                stray: 0,
                transceivers: vec![MOCK1],
                ..Setup::default()
            };
            let Some(w) = r.setup(&name, s.build()) else { return };
            worlds.push((s, w));
        }
        let n = amounts.len() * mdec.len() * worlds.len();
        r.sweep(&name, n, |i| {
            let mut ix = Ix(i);
            let (a, m) = (*ix.pick(&amounts), *ix.pick(&mdec));
            let (s, w) = ix.pick(&worlds);
            let d = s.dep();
            let x = s.inbound(2, 1, a, m, &k("bob"));
            let mut w = w.clone();
            let red = Op::Redeem { t: MOCK1, vtm: inject_vtm(&mut w, &MOCK1, 2, &x) };
            let ldec = s.decimals;
            let mut c = Case::new(move || format!("amount {a} with {m} decimals paid out in {ldec} decimals"));
            let Some(w1) = case_step(&mut c, &w, &red, &d) else { return c };
            let rel = release(&d, inbox_item(2, &x.msg), "bob", true);
            if let Some(w2) = case_step(&mut c, &w1, &rel, &d) {
                // independent arithmetic: bob holds amount * 10^(local-msg), rounded down
                let got = observe(&w2).tokens[&d.ata(&k("bob"))].amount;
                if !scaled(a, m, ldec, got) {
                    c.fail("release", "post:tokens", format!("{a} ({m} decimals) paid {got} ({ldec} decimals)"));
                }
                case_step(&mut c, &w2, &rel, &d);
                case_step(&mut c, &w2, &red, &d);
            }
            c
        });
    }
}

/// got = floor(a * 10^(to-from)), checked without scale factors that could overflow
fn scaled(a: u64, from: u8, to: u8, got: u64) -> bool {
    let (mut x, mut y) = (a as u128, got as u128);
    for _ in from..to {
        match x.checked_mul(10) {
            Some(v) => x = v,
            None => return a == 0,
        }
    }
    for _ in to..from {
        x /= 10;
    }
    if x != y {
        return false;
    }
    y = 0;
    let _ = y;
    true
}

// ------------------------------------------------------------------ C04

pub fn c04(r: &mut Run) {
    r.focus(&["redeem/*", "receive/*"]);
    for chain in [1u16, 258] {
        let name = format!("deviations-chain{chain}");
        let s = Setup {
            chain,
            decimals: 8,
            peers: vec![(2, 8, 1000), (770, 8, 1000), (512, 8, 1000)],
            transceivers: vec![MGR, XCVR, MOCK1, MOCK2],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(mut w) = r.setup(&name, s.build()) else { return };
        set_quorum(&mut w, 0b0111, 1); // MOCK2 registered but disabled
        let from: Vec<u16> = vec![2, 770, 512, 4, 0];
        let flip = |mut a: [u8; 32], i: usize| {
            a[i] ^= 1;
            a
        };
        let src = vec![peer_addr(2), peer_addr(770), [0; 32], MGR.to_bytes(), flip(peer_addr(2), 31), flip(peer_addr(2), 0)];
        let rcpt = vec![MGR.to_bytes(), XCVR.to_bytes(), [0; 32], flip(MGR.to_bytes(), 31), flip(MGR.to_bytes(), 0)];
        let to = vec![chain, 2, chain.swap_bytes(), 0, chain ^ 0x8000];
        let progs = vec![MGR, XCVR, MOCK1, MOCK2, EVIL];
        let n = from.len() * src.len() * rcpt.len() * to.len() * 25 * 2;
        r.sweep(&name, n, |i| {
            let mut ix = Ix(i);
            let (f, sm, rm, t, owner, claim) = (*ix.pick(&from), *ix.pick(&src), *ix.pick(&rcpt), *ix.pick(&to), *ix.pick(&progs), *ix.pick(&progs));
            let bad = *ix.pick(&[false, true]);
            let mut x = s.inbound(f, 7, 5, 8, &k("bob"));
            x.source_manager = sm;
            x.recipient_manager = rm;
            x.msg.to_chain = t;
            let mut w = w.clone();
            let v = inject_vtm(&mut w, &owner, f, &x);
            let op = Op::Redeem { t: claim, vtm: v };
            let mut c = Case::new({
                let op = op.clone();
                move || format!("message from chain {f} owned by {owner}, {x:?}, wrong account type: {bad}; {op:?}")
            });
            if bad {
                // an account of another type with the same contents
                let ixs = op.ixs(&w, &d);
                w.edit(&v, |a| a.data[..8].copy_from_slice(&disc("account", "OutboxItem")));
                let res = exec(&w, &ixs);
                c.did(res.as_ref().ok().map(|t| &t.world));
                if res.is_ok() {
                    c.fail("redeem", "accepted-despite:account-type", "message account of another type accepted".into());
                }
            } else {
                case_step(&mut c, &w, &op, &d);
            }
            c
        });
    }
    // messages and accounts that are consistent with each other but not with the chain the
    // message came from: every combination of three chains and three transceivers
    let s = Setup {
        decimals: 8,
        peers: vec![(2, 8, 1000), (258, 8, 1000), (512, 8, 1000)],
        transceivers: vec![MGR, XCVR, MOCK1],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("cross-chain", s.build()) else { return };
    let (cs, ts) = ([2u16, 258, 512], [MGR, XCVR, MOCK1]);
    r.sweep("cross-chain", 3usize.pow(8), |i| {
        let mut ix = Ix(i);
        let (from, source, peer_of, item_of, limit_of) = (*ix.pick(&cs), *ix.pick(&cs), *ix.pick(&cs), *ix.pick(&cs), *ix.pick(&cs));
        let (owner, at, claim) = (*ix.pick(&ts), *ix.pick(&ts), *ix.pick(&ts));
        let mut x = s.inbound(from, 7, 5, 8, &k("bob"));
        x.source_manager = peer_addr(source);
        let mut w = w.clone();
        let v = inject_vtm(&mut w, &owner, from, &x);
        let op = Op::Redeem { t: claim, vtm: v };
        let mut ixs = op.ixs(&w, &d);
        // the message may lie anywhere its owner put it
        if at != owner {
            let a = w.get(&v).unwrap().clone();
            w.set(vtm(&at, from, &x.msg.id), a);
            ixs[0].accounts[3].pubkey = vtm(&at, from, &x.msg.id);
        }
        let a = &mut ixs[0].accounts;
        a[2].pubkey = peer(peer_of);
        a[6].pubkey = inbox_item(item_of, &x.msg);
        a[7].pubkey = inbox_rl(limit_of);
        let ok = [source, peer_of, item_of, limit_of].iter().all(|c| *c == from) && owner == claim;
        let mut c = Case::new(move || format!("from {from}, manager of {source}, peer of {peer_of}, record of {item_of}, limit of {limit_of}; owned by {owner}, claimed for {claim}"));
        let pred = if ok { predict(&observe(&w), &op, &d) } else { Err(vec!["inconsistent-accounts"]) };
        let (n, _, divs) = judge(&op, pred, exec(&w, &ixs).map(|t| t.world));
        c.did(n.as_ref());
        c.divs = divs;
        c
    });
    // account substitution around honest redemptions
    let s = Setup {
        decimals: 8,
        peers: vec![(2, 8, 1000), (258, 8, 1000)],
        transceivers: vec![MGR, XCVR, MOCK1],
        users: vec![("alice", 1000), ("bob", 0), ("carol", 0)],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(mut w) = r.setup("redeem-accounts", s.build()) else { return };
    let mut targets = vec![];
    let mut others = vec![];
    for (i, (t, c)) in [(MGR, 2u16), (XCVR, 2), (MOCK1, 2), (MGR, 258)].iter().enumerate() {
        let x = s.inbound(*c, 10 + i as u8, 5, 8, &k("carol"));
        let v = inject_vtm(&mut w, t, *c, &x);
        others.push(Op::Redeem { t: *t, vtm: v });
    }
    // some of them already have records
    let Some(w) = r.setup("redeem-accounts", honest(w, &d, &others[..1])) else { return };
    for (i, op) in others.iter().enumerate().skip(1) {
        targets.push(Target::new("redeem", &w, op, &d, &[0]));
        let _ = i;
    }
    singles(r, "redeem-accounts", &targets);
    if r.thorough {
        pairs(r, "redeem-account-pairs", &targets[..2], &[]);
    }
}

// ------------------------------------------------------------------ C05

pub fn c05(r: &mut Run) {
    r.focus(&["redeem/*", "inv/*"]);
    let t = r.thorough;
    let idsets: Vec<[u8; 3]> = vec![[0, 1, 2], [0, 63, 64], [7, 64, 127]];
    for (n, ids) in idsets.iter().enumerate() {
        for thr in 1..=3u8 {
            let name = format!("votes-indices{ids:?}-threshold{thr}");
            let s = Setup {
                decimals: 8,
                peers: vec![(2, 8, 40), (258, 8, 40)],
                transceivers: vec![MGR, XCVR, MOCK1],
                users: vec![("bob", 0), ("carol", 0)],
                custody: 1000,
                ..Setup::default()
            };
            let d = s.dep();
            let Some(mut w) = r.setup(&name, s.build()) else { return };
            let progs = [MGR, XCVR, MOCK1];
            let mut all = 0u128;
            for (p, id) in progs.iter().zip(ids) {
                w.edit(&registered(p), |a| a.data[9] = *id);
                all |= 1 << id;
            }
            let a = s.inbound(2, 1, 30, 8, &k("bob"));
            let mut a2 = a.clone();
            a2.msg.amount = 31; // same id, different content
            let mut reds: Vec<Op> = vec![];
            // each transceiver delivers one version under its own account, and the
            // second version comes from accounts of its own
            let mut who: Vec<(Pubkey, Pubkey)> = vec![];
            for p in &progs {
                let v = inject_vtm(&mut w, p, 2, &a);
                reds.push(Op::Redeem { t: *p, vtm: v });
                who.push((v, *p));
                let v3 = inject_vtm(&mut w, p, 258, &XMsg { source_manager: peer_addr(258), ..a2.clone() });
                if *p != MOCK1 || t {
                    reds.push(Op::Redeem { t: *p, vtm: v3 });
                }
            }
            let a2k = k("second-version");
            let data = Vtm { chain: 2, msg: a2.clone() }.encode();
            w.set(a2k, Acct { lamports: rent_min(data.len()), owner: MOCK1, executable: false, data });
            reds.push(Op::Redeem { t: MOCK1, vtm: a2k });
            let mut inits = vec![];
            for m in 0..8u128 {
                let en = (0..3).filter(|i| m >> i & 1 == 1).fold(0u128, |e, i| e | 1 << ids[i]);
                let mut w = w.clone();
                set_quorum(&mut w, en, thr);
                inits.push((format!("enabled {en:#x}"), w));
            }
            let ids = *ids;
            let envs: Vec<Op> = [all, 1 << ids[0] | 1 << ids[1], 1 << ids[2]]
                .iter()
                .map(|e| Op::Quorum { enabled: *e, threshold: thr })
                .collect();
            let t0 = inits[0].1.now;
            let m = Scn::new(d, inits, move |st| {
                let mut v = reds.clone();
                v.extend(clock(st, t0, if t { &[DAY / 2, DAY] } else { &[DAY] }));
                if n == 0 || t {
                    v.extend(envs.iter().cloned());
                }
                v
            })
            .mon(move |st, op, post, g| {
                let mut out = vec![];
                let Some(p) = post else { return out };
                let cfg = st.o.config.clone().unwrap();
                if let Op::Redeem { t, vtm } = op {
                    let v = &st.o.vtms[vtm].1;
                    let item = inbox_item(v.chain, &v.msg.msg);
                    let idx = progs.iter().position(|p| p == t).unwrap();
                    let e = g.entry((2, item)).or_insert(0);
                    *e |= 1 << idx;
                    let votes = *e;
                    let n = (0..3).filter(|i| votes >> i & 1 == 1 && cfg.enabled >> ids[*i] & 1 == 1).count();
                    let it = &p.inbox[&item];
                    let was = st.o.inbox.get(&item);
                    let approved = it.status != Status::NotApproved;
                    let was_approved = was.map_or(false, |i| i.status != Status::NotApproved);
                    if approved != (was_approved || n >= cfg.threshold as usize) {
                        out.push(inv("quorum", format!("{op:?}: {n} enabled deliveries, threshold {}, status {:?}", cfg.threshold, it.status)));
                    }
                    for (key, other) in &st.o.inbox {
                        if *key != item && p.inbox.get(key) != Some(other) {
                            out.push(inv("other-record", format!("{op:?} changed {key}")));
                        }
                    }
                    if was_approved {
                        let (w, i) = (was.unwrap(), it);
                        if (w.amount, w.recipient, &w.status) != (i.amount, i.recipient, &i.status) {
                            out.push(inv("approved-changed", format!("{op:?}: {w:?} -> {i:?}")));
                        }
                    }
                }
                out
            });
            r.bfs(&name, &m, if t { 40 } else { 12 });
        }
    }
}

// ------------------------------------------------------------------ C17

pub fn c17(r: &mut Run) {
    r.focus(&["redeem/*", "inv/*", "receive/*"]);
    let s = Setup {
        decimals: 8,
        peers: vec![(2, 8, 1_000_000), (258, 8, 1_000_000), (512, 8, 1_000_000)],
        transceivers: vec![MOCK1, MOCK2],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(mut w) = r.setup("pairs", s.build()) else { return };
    set_quorum(&mut w, 3, 2);
    let base = s.inbound(2, 1, 258, 8, &k("bob")).msg;
    // (chain, message) variants; each edit is one field
    type E = Box<dyn Fn(&mut u16, &mut NttMsg) + Sync>;
    let mut edits: Vec<(String, E)> = vec![("none".into(), Box::new(|_, _| {}))];
    let bytes: Vec<usize> = if r.thorough { (0..32).collect() } else { vec![0, 1, 15, 30, 31] };
    for i in bytes {
        edits.push((format!("id[{i}]"), Box::new(move |_, m| m.id[i] ^= 1)));
        edits.push((format!("sender[{i}]"), Box::new(move |_, m| m.sender[i] ^= 1)));
        edits.push((format!("token[{i}]"), Box::new(move |_, m| m.source_token[i] ^= 1)));
        edits.push((format!("to[{i}]"), Box::new(move |_, m| m.to[i] ^= 1)));
    }
    for i in 0..8 {
        edits.push((format!("amount byte {i}"), Box::new(move |_, m| m.amount ^= 1 << (8 * i))));
    }
    edits.push(("amount bytes swapped".into(), Box::new(|_, m| m.amount = 513)));
    edits.push(("decimals 7".into(), Box::new(|_, m| m.decimals = 7)));
    edits.push(("decimals 9".into(), Box::new(|_, m| m.decimals = 9)));
    edits.push(("amount and decimals of equal value".into(), Box::new(|_, m| { m.amount *= 10; m.decimals = 9 })));
    edits.push(("chain 258".into(), Box::new(|c, _| *c = 258)));
    edits.push(("chain 512".into(), Box::new(|c, _| *c = 512)));
    edits.push(("sender and token swapped".into(), Box::new(|_, m| std::mem::swap(&mut m.sender, &mut m.source_token))));
    let n = edits.len();
    let total = n * n;
    r.sweep("pairs", total, |i| {
        let mut ix = Ix(i);
        let (ea, eb) = (ix.pick(&edits), ix.pick(&edits));
        let mk = |e: &E| {
            let (mut c, mut m) = (2u16, base.clone());
            e(&mut c, &mut m);
            (c, m)
        };
        // b additionally carries a's edit when the two commute: pairs of fields
        let (a, b) = (mk(&ea.1), mk(&eb.1));
        let (an, bn) = (ea.0.clone(), eb.0.clone());
        let mut c = Case::new(move || format!("message ({an}) and message ({bn})"));
        two_messages(&mut c, &s, &w, &d, a, b);
        c
    });
    if r.thorough {
        // two edits against the base
        r.sweep("double-edits", total, |i| {
            let mut ix = Ix(i);
            let (ea, eb) = (ix.pick(&edits), ix.pick(&edits));
            let (mut ch, mut m) = (2u16, base.clone());
            ea.1(&mut ch, &mut m);
            eb.1(&mut ch, &mut m);
            let (an, bn) = (ea.0.clone(), eb.0.clone());
            let mut c = Case::new(move || format!("base and message ({an}, {bn})"));
            two_messages(&mut c, &s, &w, &d, (2, base.clone()), (ch, m));
            c
        });
    }
}

/// `a` delivered by one transceiver, `b` by another: one record iff equal.
fn two_messages(c: &mut Case, s: &Setup, w: &World, d: &Dep, a: (u16, NttMsg), b: (u16, NttMsg)) {
    let mut w = w.clone();
    let same = a == b;
    let mk = |m: &(u16, NttMsg)| XMsg {
        source_manager: peer_addr(m.0),
        ..XMsg { msg: m.1.clone(), ..s.inbound(m.0, 0, 0, 0, &k("bob")) }
    };
    let va = inject_vtm(&mut w, &MOCK1, a.0, &mk(&a));
    let vb = inject_vtm(&mut w, &MOCK2, b.0, &mk(&b));
    let (opa, opb) = (Op::Redeem { t: MOCK1, vtm: va }, Op::Redeem { t: MOCK2, vtm: vb });
    let Some(w1) = case_step(c, &w, &opa, d) else { return };
    if !same {
        // b must not be able to use a's record
        let mut ixs = opb.ixs(&w1, d);
        ixs[0].accounts[6].pubkey = inbox_item(a.0, &a.1);
        let res = exec(&w1, &ixs);
        c.did(res.as_ref().ok().map(|t| &t.world));
        if res.is_ok() {
            c.fail("redeem", "accepted-despite:foreign-record", "a different message voted on an existing record".into());
        }
    }
    let Some(w2) = case_step(c, &w1, &opb, d) else { return };
    let o = observe(&w2);
    let votes: Vec<u32> = o.inbox.values().map(|i| i.votes.count_ones()).collect();
    let want = if same { vec![2] } else { vec![1, 1] };
    if votes != want {
        c.fail("inv", "inv:records", format!("votes per record {votes:?}, expected {want:?}"));
    }
}

// ------------------------------------------------------------------ C20

pub fn c20(r: &mut Run) {
    r.focus(&["receive/*", "*/post:vtms", "inv/*"]);
    let s = Setup {
        decimals: 8,
        peers: vec![(2, 8, 1000), (770, 8, 1000), (512, 8, 1000)],
        transceivers: vec![MGR, XCVR],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("deviations", s.build()) else { return };
    let good = s.inbound(2, 1, 5, 8, &k("bob"));
    let mut payloads: Vec<(String, Vec<u8>, bool)> = vec![];
    let mut push = |n: &str, x: &XMsg| payloads.push((n.into(), x.wire(), true));
    push("ok", &good);
    push("with transceiver payload", &XMsg { extra: vec![1, 2, 3], ..good.clone() });
    push("for another manager", &XMsg { recipient_manager: a32("other"), ..good.clone() });
    push("for nobody", &XMsg { recipient_manager: [0; 32], ..good.clone() });
    push("from nobody", &XMsg { source_manager: [0; 32], ..good.clone() });
    for c in [0u16, 2, 256, 0x8001] {
        let mut x = good.clone();
        x.msg.to_chain = c;
        push(&format!("to chain {c}"), &x);
    }
    let mut x = good.clone();
    x.msg.amount = u64::MAX;
    x.msg.decimals = 255;
    x.msg.id = [0xff; 32];
    push("extreme fields", &x);
    let full = good.wire();
    for i in 0..full.len() {
        payloads.push((format!("cut at {i}"), full[..i].to_vec(), true));
    }
    for i in (0..4).chain(136..140) {
        for bit in [0x01u8, 0x80] {
            let mut p = full.clone();
            p[i] ^= bit;
            payloads.push((format!("prefix byte {i} wrong"), p, true));
        }
    }
    let progs = [MGR, XCVR];
    let chains = [2u16, 770, 512, 4, 0];
    let emitters: Vec<(&str, [u8; 32])> = vec![
        ("own peer on 2", [0; 32]), // replaced per program
        ("other program's peer", [1; 32]),
        ("peer on 770", [2; 32]),
        ("zero", [0; 32]),
        ("manager peer", peer_addr(2)),
        ("last byte differs", [3; 32]),
        ("first byte differs", [4; 32]),
    ];
    let accts = [("genuine", 0u8), ("owned by another program", 1), ("a message, not a VAA", 2), ("other tag", 3)];
    let n = progs.len() * chains.len() * emitters.len() * accts.len() * payloads.len();
    r.sweep("deviations", n, |i| {
        let mut ix = Ix(i);
        let (name, pay, _) = ix.pick(&payloads);
        let prog = *ix.pick(&progs);
        let chain = *ix.pick(&chains);
        let (en, e) = ix.pick(&emitters);
        let (an, kind) = ix.pick(&accts);
        let other = if prog == MGR { XCVR } else { MGR };
        let mut em = match *en {
            "own peer on 2" => xpeer_addr(&prog, 2),
            "other program's peer" => xpeer_addr(&other, 2),
            "peer on 770" => xpeer_addr(&prog, 770),
            "last byte differs" | "first byte differs" => xpeer_addr(&prog, 2),
            _ => *e,
        };
        match *en {
            "last byte differs" => em[31] ^= 1,
            "first byte differs" => em[0] ^= 0x80,
            _ => {}
        }
        let mut w = w.clone();
        let v = k("vaa");
        let mut a = vaa_account(&Posted { finality: 32, timestamp: START_TIME as u32, nonce: 0, sequence: 0, emitter_chain: chain, emitter: em, payload: pay.clone() });
        let d0 = a.clone();
        match kind {
            1 => a.owner = EVIL,
            2 => a.data[..3].copy_from_slice(b"msg"),
            3 => a.data[..3].copy_from_slice(b"vab"),
            _ => {}
        }
        let (name, en, an) = (name.clone(), en.to_string(), an.to_string());
        let mut c = Case::new(move || format!("VAA from chain {chain}, emitter {en}, account {an}, payload {name} to {prog}"));
        let op = Op::Receive { prog, vaa: v };
        w.set(v, d0);
        if *kind == 0 {
            case_step(&mut c, &w, &op, &d);
        } else {
            let ixs = op.ixs(&w, &d);
            w.set(v, a);
            let res = exec(&w, &ixs);
            c.did(res.as_ref().ok().map(|t| &t.world));
            if res.is_ok() {
                c.fail("receive", "accepted-despite:not-a-vaa", "not a core bridge VAA".into());
            }
        }
        c
    });
    // emitters and accounts that agree with each other but not with the message's chain
    let cs = [2u16, 770, 512];
    r.sweep("cross-chain", 2 * 2 * 2 * 2 * 81, |i| {
        let mut ix = Ix(i);
        let (prog, by, held, kept) = (*ix.pick(&progs), *ix.pick(&progs), *ix.pick(&progs), *ix.pick(&progs));
        let (chain, emitter, peer_of, record) = (*ix.pick(&cs), *ix.pick(&cs), *ix.pick(&cs), *ix.pick(&cs));
        let x = s.inbound(chain, 9, 5, 8, &k("bob"));
        let mut w = w.clone();
        let v = post_vaa(&mut w, "vaa-x", &prog, chain, &x);
        let p = Posted { emitter: xpeer_addr(&by, emitter), ..Posted::from_data(b"vaa", w.data(&v).unwrap()).unwrap() };
        w.edit(&v, |a| a.data = p.to_data(b"vaa"));
        let op = Op::Receive { prog, vaa: v };
        let mut ixs = op.ixs(&w, &d);
        ixs[0].accounts[2].pubkey = xpeer(&held, peer_of);
        ixs[0].accounts[4].pubkey = vtm(&kept, record, &x.msg.id);
        let ok = by == prog && held == prog && kept == prog && [emitter, peer_of, record].iter().all(|c| *c == chain);
        let mut c = Case::new(move || format!("{prog} receives from chain {chain}: emitter of {by} on {emitter}, peer account of {held} for {peer_of}, record of {kept} for {record}"));
        let pred = if ok { predict(&observe(&w), &op, &d) } else { Err(vec!["inconsistent-accounts"]) };
        let (n, _, divs) = judge(&op, pred, exec(&w, &ixs).map(|t| t.world));
        c.did(n.as_ref());
        c.divs = divs;
        c
    });
    // unusual peer addresses: only exactly that emitter is heard
    let addrs = [[0u8; 32], [0xff; 32], MGR.to_bytes(), emitter(&MGR).to_bytes(), peer_addr(2)];
    r.sweep("unusual-peers", 2 * addrs.len() * addrs.len() * 2 * 2, |i| {
        let mut ix = Ix(i);
        let (prog, at, from) = (*ix.pick(&progs), *ix.pick(&addrs), *ix.pick(&addrs));
        let (chain, pchain) = (*ix.pick(&[4u16, 0]), *ix.pick(&[4u16, 0]));
        let mut c = Case::new(move || format!("{prog}: peer of chain {pchain} is {at:02x?}, VAA of chain {chain} by {from:02x?}"));
        let Some(mut w) = case_step(&mut c, &w, &Op::SetXPeer { prog, signer: k("owner"), chain: pchain, address: at }, &d) else { return c };
        let v = post_vaa(&mut w, "vaa-u", &prog, chain, &s.inbound(chain, 9, 5, 8, &k("bob")));
        let p = Posted { emitter: from, ..Posted::from_data(b"vaa", w.data(&v).unwrap()).unwrap() };
        w.edit(&v, |a| a.data = p.to_data(b"vaa"));
        case_step(&mut c, &w, &Op::Receive { prog, vaa: v }, &d);
        c
    });
    // conflicting deliveries
    let mut w = w;
    let mut ops = vec![];
    let mk = |id: u8, amount: u64, chain: u16| s.inbound(chain, id, amount, 8, &k("bob"));
    for p in progs {
        for (n, (chain, x)) in [(2u16, mk(1, 5, 2)), (2, mk(1, 6, 2)), (770, mk(1, 7, 770)), (2, mk(2, 5, 2)), (512, mk(1, 5, 512))].iter().enumerate() {
            let v = post_vaa(&mut w, &format!("vaa-{n}-{}", p == MGR), &p, *chain, x);
            ops.push(Op::Receive { prog: p, vaa: v });
        }
        // the VAA of one program offered to the other
        ops.push(Op::Receive { prog: p, vaa: k(&format!("vaa-0-{}", p != MGR)) });
    }
    let mut acc_targets = vec![];
    let w3 = honest(w.clone(), &d, &[ops[1].clone()]);
    if let Some(w3) = r.setup("conflicts", w3) {
        acc_targets.push(Target::new("receive", &w3, &ops[3], &d, &[0]));
        acc_targets.push(Target::new("receive", &w3, &ops[9], &d, &[0]));
    }
    ops.push(Op::SetPaused(k("owner"), true));
    ops.push(Op::SetPaused(k("owner"), false));
    ops.push(Op::SetXPeer { prog: MGR, signer: k("owner"), chain: 2, address: a32("new-peer") });
    let red = |p: Pubkey| Op::Redeem { t: p, vtm: vtm(&p, 2, &mk(1, 5, 2).msg.id) };
    ops.push(red(MGR));
    ops.push(red(XCVR));
    let m = Scn::new(d, vec![("connected".into(), w)], move |_| ops.clone()).mon(|st, op, post, _| {
        let mut out = vec![];
        if let Some(p) = post {
            for (key, v) in &st.o.vtms {
                if p.vtms.get(key) != Some(v) {
                    out.push(inv("record-altered", format!("{op:?}: {v:?} -> {:?}", p.vtms.get(key))));
                }
            }
        }
        out
    });
    r.bfs("conflicts", &m, 30);
    singles(r, "receive-accounts", &acc_targets);
}
