//! C01, C02, C06, C14: sending, publishing, and conservation across two chains.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, subst::*, svm::*};
use solana_program::pubkey::Pubkey;

// ------------------------------------------------------------------ C01

#[derive(Clone)]
struct Two {
    /// hub, spoke
    s: [St; 2],
}

#[derive(Clone, Debug)]
enum TwoOp {
    On(usize, Op),
    /// carry a published message to the other chain and submit it there
    Relay(usize, Pubkey, Pubkey),
    Clock(i64),
}

struct Bridge {
    setup: [Setup; 2],
    start: [World; 2],
    prog: Pubkey,
    max: [usize; 2],
    amounts: [Vec<u64>; 2],
    lattice: Vec<i64>,
    pauses: bool,
    total: u128,
}

fn val(amount: u64, dec: u8) -> u128 {
    amount as u128 * 10u128.pow(18 - dec as u32)
}

impl Bridge {
    fn new(dec: [u8; 2], t22: bool, prog: Pubkey) -> Result<Bridge, String> {
        let mk = |i: usize| Setup {
            burning: i == 1,
            t22,
            decimals: dec[i],
            chain: 1 + i as u16,
            peers: vec![],
            // hub: the second large transfer is delayed; spoke: generous out, tight in
            out_limit: if i == 0 { 30 * 10u64.pow(dec[0] as u32 - 6) } else { 1000 * 10u64.pow(dec[1] as u32 - 6) },
            users: vec![("alice", 100 * 10u64.pow(dec[i] as u32 - 6)), ("bob", 0)],
            custody: 100 * 10u64.pow(dec[0] as u32 - 6),
            transceivers: vec![prog],
            ..Setup::default()
        };
        let setup = [mk(0), mk(1)];
        let mut start = vec![];
        for i in 0..2 {
            let d = setup[i].dep();
            let other = 2 - i as u16;
            let in_limit = if i == 0 { 1000 * 10u64.pow(dec[0] as u32 - 6) } else { 25 * 10u64.pow(dec[1] as u32 - 6) };
            let mut w = setup[i].build()?;
            w = honest(
                w,
                &d,
                &[
                    Op::SetPeer { signer: k("owner"), chain: other, address: MGR.to_bytes(), limit: in_limit, decimals: dec[1 - i] },
                    Op::SetXPeer { prog, signer: k("owner"), chain: other, address: emitter(&prog).to_bytes() },
                ],
            )?;
            start.push(w);
        }
        let total = 2 * val(100 * 10u64.pow(dec[0] as u32 - 6), dec[0]);
        let a = |i: usize| 10u64.pow(dec[i] as u32 - 6);
        Ok(Bridge {
            amounts: [vec![20 * a(0) + (a(0) > 1) as u64 * 3], vec![7 * a(1) + (a(1) > 1) as u64 * 4]],
            setup,
            start: [start[0].clone(), start[1].clone()],
            prog,
            max: [2, 1],
            lattice: vec![DAY, 2 * DAY],
            pauses: false,
            total,
        })
    }

    fn msg_of(&self, i: usize, key: &Pubkey, it: &Outbox) -> NttMsg {
        NttMsg {
            id: key.to_bytes(),
            sender: it.sender.to_bytes(),
            decimals: it.decimals,
            amount: it.amount,
            source_token: self.setup[i].dep().mint.to_bytes(),
            to: it.recipient,
            to_chain: it.chain,
        }
    }
}

impl Model for Bridge {
    type S = Two;
    type O = TwoOp;
    type P = [(World, Ghost); 2];
    fn pack(&self, s: Two) -> Self::P {
        s.s.map(|x| (x.w, x.g))
    }
    fn unpack(&self, p: &Self::P) -> Two {
        Two { s: p.clone().map(|(w, g)| St { g, ..St::new(w) }) }
    }
    fn init(&self) -> Vec<(String, Two)> {
        vec![("connected".into(), Two { s: [St::new(self.start[0].clone()), St::new(self.start[1].clone())] })]
    }
    fn ops(&self, s: &Two) -> Vec<TwoOp> {
        let mut v = vec![];
        for i in 0..2 {
            let d = self.setup[i].dep();
            let o = &s.s[i].o;
            if o.outbox.len() < self.max[i] {
                let key = k(&format!("outbox-{i}-{}", o.outbox.len()));
                for n in &self.amounts[i] {
                    v.push(TwoOp::On(i, xfer(&d, "alice", key, TransferArgs { amount: *n, chain: 2 - i as u16, recipient: k("bob").to_bytes(), queue: true })));
                }
            }
            for key in o.outbox.keys() {
                v.push(TwoOp::On(i, Op::Publish { prog: self.prog, outbox: *key, revert: false }));
                v.push(TwoOp::Relay(i, wh_message(&self.prog, key), *key));
            }
            for key in o.vtms.keys() {
                v.push(TwoOp::On(i, Op::Redeem { t: self.prog, vtm: *key }));
            }
            for (key, _) in &o.inbox {
                v.push(TwoOp::On(i, release(&d, *key, "bob", false)));
            }
            if self.pauses {
                let p = o.config.as_ref().unwrap().paused;
                v.push(TwoOp::On(i, Op::SetPaused(k("owner"), !p)));
            }
        }
        v.extend(clock(&s.s[0], START_TIME, &self.lattice).into_iter().map(|o| match o {
            Op::Advance(n) => TwoOp::Clock(n),
            _ => unreachable!(),
        }));
        v
    }
    fn step(&self, s: &Two, o: &TwoOp) -> (Option<Two>, Vec<Div>) {
        match o {
            TwoOp::On(i, op) => {
                let (n, got, divs) = step_full(&s.s[*i].w, &s.s[*i].o, op, &self.setup[*i].dep());
                (
                    n.map(|w| {
                        let mut t = s.clone();
                        t.s[*i] = St { w, o: std::sync::Arc::new(got.unwrap()), g: Ghost::new() };
                        t
                    }),
                    divs,
                )
            }
            TwoOp::Clock(n) => {
                let mut t = s.clone();
                for i in 0..2 {
                    let mut w = s.s[i].w.clone();
                    w.now += n;
                    w.slot += *n as u64;
                    t.s[i] = St::new(w);
                }
                (Some(t), vec![])
            }
            TwoOp::Relay(i, acct, _) => {
                let Some(p) = s.s[*i].o.emitted.get(acct) else { return (None, vec![]) };
                let j = 1 - *i;
                let mut w = s.s[j].w.clone();
                let v = k(&format!("vaa-{acct}"));
                let mut p = p.clone();
                p.emitter_chain = self.setup[*i].chain;
                w.set(v, vaa_account(&p));
                let (n, divs) = step(&w, &Op::Receive { prog: self.prog, vaa: v }, &self.setup[j].dep());
                (
                    n.map(|w| {
                        let mut t = s.clone();
                        t.s[j] = St::new(w);
                        t
                    }),
                    divs,
                )
            }
        }
    }
    fn key(&self, s: &Two) -> u128 {
        let mut h = KeyHasher::new();
        world_key(&mut h, &s.s[0].w);
        world_key(&mut h, &s.s[1].w);
        h.finish()
    }
    fn check(&self, s: &Two) -> Vec<Div> {
        let mut flight = 0u128;
        for i in 0..2 {
            for (key, it) in &s.s[i].o.outbox {
                let m = self.msg_of(i, key, it);
                let paid = s.s[1 - i].o.inbox.get(&inbox_item(self.setup[i].chain, &m)).map_or(false, |x| x.status == Status::Released);
                if !paid {
                    flight += val(it.amount, it.decimals);
                }
            }
        }
        let mut out = vec![];
        let (hub, spoke) = (&self.setup[0], &self.setup[1]);
        let custody = val(s.s[0].o.tokens[&hub.dep().custody()].amount, hub.decimals);
        // what somebody sent to the spoke's custody is out of circulation
        let supply = val(s.s[1].o.mints[&spoke.dep().mint].1 - spoke.stray, spoke.decimals);
        if custody != supply + flight {
            out.push(inv("conservation", format!("locked {custody} != circulating {supply} + in flight {flight}")));
        }
        let mut wallets = 0u128;
        for i in 0..2 {
            let c = self.setup[i].dep().custody();
            wallets += s.s[i].o.tokens.iter().filter(|(k, _)| **k != c).map(|(_, t)| val(t.amount, self.setup[i].decimals)).sum::<u128>();
        }
        if wallets + flight != self.total {
            out.push(inv("total", format!("wallets {wallets} + in flight {flight} != {}", self.total)));
        }
        let hs = val(s.s[0].o.mints[&hub.dep().mint].1, hub.decimals);
        if hs != self.total {
            out.push(inv("hub-supply", format!("hub supply changed to {hs}")));
        }
        let sc = s.s[1].o.tokens[&spoke.dep().custody()].amount;
        if sc != spoke.stray {
            out.push(inv("spoke-custody", format!("spoke custody holds {sc}")));
        }
        out
    }
    fn op_name(&self, o: &TwoOp) -> String {
        match o {
            TwoOp::On(i, op) => format!("{}:{}", ["hub", "spoke"][*i], op.name()),
            TwoOp::Relay(..) => "relay".into(),
            TwoOp::Clock(_) => "clock".into(),
        }
    }
}

pub fn c01(r: &mut Run) {
    r.focus(&[
        "inv/*",
        "*/post:tokens",
        "*/post:mints",
        "*/post:emitted",
        "redeem/accepted-despite:*",
        "release/accepted-despite:*",
        "publish/accepted-despite:*",
        "receive/accepted-despite:*",
        "transfer/accepted-despite:*",
        "redeem/post:inbox",
        "release/post:inbox",
        "receive/post:vtms",
        "transfer/post:outbox",
    ]);
    let t = r.thorough;
    let cfgs: Vec<([u8; 2], bool, Pubkey)> = if t {
        let mut v = vec![];
        for d in [[9, 9], [9, 6], [6, 9], [8, 8], [18, 8]] {
            for t22 in [false, true] {
                for p in [MGR, XCVR] {
                    v.push((d, t22, p));
                }
            }
        }
        v
    } else {
        vec![([9, 9], false, MGR), ([9, 6], true, XCVR), ([6, 9], false, MGR)]
    };
    for (dec, t22, prog) in cfgs {
        let name = format!("two-chains-{}-{}{}-{}", dec[0], dec[1], if t22 { "-t22" } else { "" }, if prog == MGR { "builtin" } else { "standalone" });
        let Some(mut b) = r.setup(&name, Bridge::new(dec, t22, prog)) else { return };
        b.pauses = dec == [9, 9] && t;
        if t {
            b.max = [2, 2];
        }
        r.bfs(&name, &b, 60);
    }
}

// ------------------------------------------------------------------ C02

pub fn c02(r: &mut Run) {
    r.focus(&["transfer/*", "inv/*", "set_peer/post:peers"]);
    let amounts: Vec<u64> = {
        let mut v = vec![0, 1, 5, 9, 10, 11, 99, 100, 101, 12_345_678_901, u32::MAX as u64, 1 << 53, 1 << 63, u64::MAX - 1, u64::MAX];
        if r.thorough {
            for p in 0..20u32 {
                let t = 10u64.pow(p.min(19));
                v.extend([t - 1, t, t + 1, t.saturating_mul(7), u64::MAX - u64::MAX % t]);
            }
            v.sort();
            v.dedup();
        }
        v
    };
    let decs: Vec<u8> = if r.thorough { (0..=30).chain([127, 255]).collect() } else { vec![0, 1, 5, 6, 7, 8, 9, 10, 18, 19, 27, 28, 255] };
    for b in [false, true] {
        for t22 in [false, true] {
            let name = format!("amounts-{}-{}", if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
            let mut worlds = vec![];
            for dec in &decs {
                let s = Setup {
                    burning: b,
                    t22,
                    decimals: *dec,
                    peers: vec![(2, 8, u64::MAX), (3, 3, 50)],
                    out_limit: u64::MAX,
                    users: vec![("alice", u64::MAX), ("bob", 0)],
                    stray: 0,
                    custody: 0,
                    transceivers: vec![MOCK1],
                    ..Setup::default()
                };
                let Some(w) = r.setup(&name, s.build()) else { return };
                worlds.push((s, w));
            }
            let n = amounts.len() * decs.len() * worlds.len();
            r.sweep(&name, n, |i| {
                let mut ix = Ix(i);
                let (a, rdec) = (*ix.pick(&amounts), *ix.pick(&decs));
                let (s, w) = ix.pick(&worlds);
                let d = s.dep();
                let mut w = w.clone();
                w.edit(&peer(2), |a| a.data[41] = rdec);
                let ldec = s.decimals;
                let mut c = Case::new(move || format!("transfer {a}: local decimals {ldec}, remote {rdec}"));
                let pre = observe(&w);
                if let Some(n) = case_step(&mut c, &w, &xfer(&d, "alice", ob(0), args(a, 2, false)), &d) {
                    let post = observe(&n);
                    let it = &post.outbox[&ob(0)];
                    let al = d.ata(&k("alice"));
                    let lost = pre.tokens[&al].amount - post.tokens[&al].amount;
                    // announced value equals debit, in exact arithmetic
                    if it.decimals != ldec.min(rdec).min(8) {
                        c.fail("inv", "inv:decimals", format!("announced {} decimals", it.decimals));
                    }
                    let mut f: u128 = 1;
                    for _ in it.decimals..ldec {
                        f = f.saturating_mul(10);
                    }
                    if it.amount as u128 * f != lost as u128 || lost > a || (a - lost) as u128 >= f {
                        c.fail("inv", "inv:debit", format!("asked {a}, debited {lost}, announced {} x {f}", it.amount));
                    }
                    let moved = |m: &Pubkey| post.tokens[m].amount as i128 - pre.tokens[m].amount as i128;
                    let sup = post.mints[&d.mint].1 as i128 - pre.mints[&d.mint].1 as i128;
                    let want = if b { (0, -(lost as i128)) } else { (lost as i128, 0) };
                    if (moved(&d.custody()), sup) != want {
                        c.fail("inv", "inv:backing", format!("custody {:+} supply {sup:+}, debited {lost}", moved(&d.custody())));
                    }
                }
                c
            });
        }
    }
    // every term of the request reaches the queue unchanged
    for (b, t22) in [(false, false), (true, true)] {
        let s = Setup {
            burning: b,
            t22,
            decimals: 9,
            peers: vec![(2, 9, 10_000), (258, 6, 10_000), (65535, 0, 10_000)],
            out_limit: 1_000,
            users: vec![("alice", 5_000_000_000), ("bob", 40)],
            custody: 500,
            transceivers: vec![MOCK1, MGR],
            ..Setup::default()
        };
        let d = s.dep();
        let name = format!("terms-{}", if b { "burning" } else { "locking" });
        let Some(mut w) = r.setup(&name, s.build()) else { return };
        w.set(k("alice-2"), token_acct(d.tp, &d.mint, &k("alice"), 4_000_000_000));
        let mut evm = [0u8; 32];
        evm[12..].fill(0x5a);
        let recs: Vec<[u8; 32]> = vec![
            [0; 32],
            [0xff; 32],
            evm,
            std::array::from_fn(|i| i as u8),
            a32("alice"),
            a32("payer"),
            peer_addr(2),
            MGR.to_bytes(),
            d.mint.to_bytes(),
            d.custody().to_bytes(),
            token_authority().to_bytes(),
            d.ata(&k("alice")).to_bytes(),
        ];
        let chains = [2u16, 258, 65535, 1, 3];
        let amounts = [0u64, 9, 10, 1_000, 1_001, 1_234, 1_000_000_000, 3_999_999_999];
        let froms = [None, Some(k("alice-2"))];
        r.sweep(&name, recs.len() * chains.len() * amounts.len() * 2 * froms.len(), |i| {
            let mut ix = Ix(i);
            let (rec, ch, a) = (*ix.pick(&recs), *ix.pick(&chains), *ix.pick(&amounts));
            let (queue, from) = (*ix.pick(&[false, true]), *ix.pick(&froms));
            let mut c = Case::new(move || format!("transfer {a} to {rec:02x?} on chain {ch}, queue {queue}, from {from:?}"));
            let mut op = xfer(&d, "alice", ob(0), TransferArgs { amount: a, chain: ch, recipient: rec, queue });
            if let (Op::Transfer { from: f, .. }, Some(x)) = (&mut op, from) {
                *f = x;
            }
            case_step(&mut c, &w, &op, &d);
            c
        });
    }
    for (b, t22) in [(false, true), (true, false)] {
        let name = format!("histories-{}", if b { "burning" } else { "locking" });
        let s = Setup {
            burning: b,
            t22,
            decimals: 9,
            peers: vec![(2, 9, 10_000), (258, 6, 10_000)],
            out_limit: 10_000,
            users: vec![("alice", 3_000), ("bob", 40)],
            custody: 500,
            transceivers: vec![MOCK1],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(mut w) = r.setup(&name, s.build()) else { return };
        w.set(k("alice-2"), token_acct(d.tp, &d.mint, &k("alice"), 700));
        let mut w2 = w.clone();
        set_quorum(&mut w2, 0, 1);
        let dd = d.clone();
        let thorough = r.thorough;
        let m = Scn::new(d.clone(), vec![("funded".into(), w), ("no transceivers".into(), w2)], move |st| {
            let d = &dd;
            let mut v = vec![];
            let n = st.o.outbox.len();
            let sources = [("alice", d.ata(&k("alice"))), ("alice", k("alice-2")), ("bob", d.ata(&k("bob"))), ("mallory", d.ata(&k("alice")))];
            for (who, from) in sources {
                for amount in [0u64, 5, 15, 1_009, 3_000, 3_001] {
                    for chain in [2u16, 258, 3] {
                        if (chain == 3 || who == "mallory") && amount != 1_009 {
                            continue;
                        }
                        let a = TransferArgs { amount, chain, recipient: a32(if amount == 15 { "r1" } else { "r2" }), queue: amount != 5 };
                        if n < 3 {
                            v.push(Op::Transfer { burn: d.burning, payer: k(if amount == 15 { "bob" } else { "payer" }), owner: k(who), from, outbox: ob(n), approve: Some(amount), args: a });
                        }
                    }
                }
            }
            let a = args(15, 2, false);
            // the other mode's instruction, an item already used, the custody as source
            v.push(Op::Transfer { burn: !d.burning, payer: k("payer"), owner: k("alice"), from: d.ata(&k("alice")), outbox: ob(n), approve: Some(15), args: a.clone() });
            if n > 0 {
                v.push(xfer(d, "alice", ob(0), a.clone()));
            }
            v.push(Op::Transfer { burn: d.burning, payer: k("payer"), owner: token_authority(), from: d.custody(), outbox: ob(n), approve: None, args: a });
            v.push(Op::SetPeer { signer: k("owner"), chain: 2, address: a32("moved-peer"), limit: 5_000, decimals: 7 });
            if thorough {
                v.push(Op::SetOutLimit(k("owner"), 1_000));
                v.push(Op::Advance(DAY / 2));
            }
            v
        });
        r.bfs(&name, &m, 4);
    }
}

// ------------------------------------------------------------------ C06

pub fn c06(r: &mut Run) {
    r.focus(&["publish/*", "mark/*", "inv/*", "*/post:emitted", "*/post:seqs", "transfer/post:outbox"]);
    let t = r.thorough;
    for (b, fee) in [(false, 0u64), (true, 100)] {
        let name = format!("publish-{}", if b { "burning" } else { "locking" });
        let s = Setup {
            burning: b,
            decimals: 9,
            out_limit: 1_000,
            peers: vec![(2, 9, 1_000), (258, 6, 1000)],
            transceivers: vec![MGR, XCVR, MOCK1],
            fee,
            ..Setup::default()
        };
        let d = s.dep();
        let Some(w) = r.setup(&name, s.build()) else { return };
        let sent = [
            xfer(&d, "alice", ob(0), args(905, 2, false)),
            xfer(&d, "alice", ob(1), TransferArgs { amount: 7_000, chain: 258, recipient: a32("r2"), queue: true }),
        ];
        let Some(w) = r.setup(&name, honest(w, &d, &sent)) else { return };
        let mut inits = vec![];
        for e in 0..8u128 {
            let mut w = w.clone();
            set_quorum(&mut w, e, 1);
            inits.push((format!("enabled {e:#b}"), w));
        }
        // same transfers in a deployment that never registered the standalone transceiver
        let s2 = Setup { transceivers: vec![MGR], ..s.clone() };
        let w2 = s2.build().and_then(|w| honest(w, &d, &sent));
        let Some(w2) = r.setup(&name, w2) else { return };
        inits.push(("standalone transceiver unregistered".into(), w2));
        // high indices
        let mut w3 = w.clone();
        for (p, i) in [(MGR, 63u8), (XCVR, 64), (MOCK1, 127)] {
            w3.edit(&registered(&p), |a| a.data[9] = i);
        }
        set_quorum(&mut w3, 1 << 63 | 1 << 64 | 1 << 127, 1);
        inits.push(("indices 63, 64, 127".into(), w3));
        let m = Scn::new(d.clone(), inits, move |st| {
            let mut v = vec![];
            for i in 0..2 {
                for prog in [MGR, XCVR] {
                    for revert in [true, false] {
                        v.push(Op::Publish { prog, outbox: ob(i), revert });
                    }
                }
                for (by, claim) in [(MOCK1, MOCK1), (EVIL, MOCK1), (MOCK1, MGR), (MOCK1, XCVR), (EVIL, EVIL)] {
                    v.push(Op::Mark { by, claim, outbox: ob(i) });
                }
            }
            v.extend(clock(st, START_TIME, if t { &[1, DAY - 1, DAY, DAY + 1] } else { &[DAY - 1, DAY] }));
            if t {
                v.push(Op::SetPaused(k("owner"), !st.o.config.as_ref().unwrap().paused));
                v.push(Op::Quorum { enabled: 0b101, threshold: 1 });
                v.push(Op::SetPeer { signer: k("owner"), chain: 2, address: a32("moved"), limit: 5, decimals: 7 });
            }
            v
        })
        .mon(|st, op, post, g| {
            let mut out = vec![];
            let Some(p) = post else { return out };
            let new: Vec<_> = p.emitted.iter().filter(|(k, _)| !st.o.emitted.contains_key(k)).collect();
            for (key, m) in &p.emitted {
                if st.o.emitted.get(key).map_or(false, |x| x != m) {
                    out.push(inv("message-replaced", format!("{op:?}: {key}")));
                }
            }
            if new.is_empty() {
                return out;
            }
            let Op::Publish { prog, outbox, .. } = op else {
                out.push(inv("unexpected-message", format!("{op:?}")));
                return out;
            };
            let it = &st.o.outbox[outbox];
            let e = g.entry((if *prog == MGR { 1 } else { 2 }, *outbox)).or_insert(0);
            *e += new.len() as i128;
            if *e > 1 {
                out.push(inv("published-twice", format!("{op:?}")));
            }
            if it.release > p.now {
                out.push(inv("published-early", format!("{op:?}: due {} at {}", it.release, p.now)));
            }
            let cfg = st.o.config.as_ref().unwrap();
            let reg = st.o.registered.get(&registered(prog));
            if !reg.map_or(false, |r| cfg.enabled >> r.0 & 1 == 1) {
                out.push(inv("published-by-disabled", format!("{op:?}")));
            }
            let m = new[0].1;
            if m.emitter != emitter(prog).to_bytes() || m.finality != 32 {
                out.push(inv("emitter", format!("{op:?}: {m:?}")));
            }
            // field by field, at documented offsets
            let y = &m.payload;
            let ok = y.len() == 217
                && y[..4] == [0x99, 0x45, 0xFF, 0x10]
                && y[4..36] == MGR.to_bytes()
                && y[36..68] == it.manager
                && y[68..70] == [0, 145]
                && y[70..102] == outbox.to_bytes()
                && y[102..134] == it.sender.to_bytes()
                && y[134..136] == [0, 79]
                && y[136..140] == [0x99, 0x4E, 0x54, 0x54]
                && y[140] == it.decimals
                && y[141..149] == it.amount.to_be_bytes()
                && y[149..181] == cfg.mint.to_bytes()
                && y[181..213] == it.recipient
                && y[213..215] == it.chain.to_be_bytes()
                && y[215..217] == [0, 0];
            if !ok {
                out.push(inv("payload", format!("{op:?}: {y:02x?} for {it:?}")));
            }
            out
        });
        r.bfs(&name, &m, 60);
    }
    // contents over boundary transfer terms, both transceivers
    let s = Setup {
        decimals: 8,
        out_limit: u64::MAX,
        users: vec![("alice", u64::MAX)],
        stray: 0,
        custody: 0,
        peers: vec![(2, 8, 1), (258, 6, 1), (65535, 0, 1)],
        transceivers: vec![XCVR, MGR],
        ..Setup::default()
    };
    let d = s.dep();
    let Some(w) = r.setup("contents", s.build()) else { return };
    let amounts = [0u64, 1, 255, 256, 65_536, 100_000_000, 1 << 32, 0x0102_0304_0506_0708, 1 << 63, u64::MAX];
    let rec: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], a32("r"), std::array::from_fn(|i| i as u8)];
    let chains = [2u16, 258, 65535];
    r.sweep("contents", amounts.len() * rec.len() * 3 * 2, |i| {
        let mut ix = Ix(i);
        let (a, rc, ch) = (*ix.pick(&amounts), *ix.pick(&rec), *ix.pick(&chains));
        let prog = *ix.pick(&[MGR, XCVR]);
        let mut c = Case::new(move || format!("publish {a} to {rc:02x?} on {ch} by {prog}"));
        let ta = TransferArgs { amount: a, chain: ch, recipient: rc, queue: false };
        let Some(w1) = case_step(&mut c, &w, &xfer(&d, "alice", ob(0), ta), &d) else { return c };
        case_step(&mut c, &w1, &Op::Publish { prog, outbox: ob(0), revert: true }, &d);
        c
    });
    // unusual senders, recipients and destinations (also the own chain)
    let s2 = Setup {
        decimals: 8,
        users: vec![("alice", 900), ("owner", 900), ("payer", 900)],
        peers: vec![(2, 8, 1), (1, 8, 1), (0, 8, 1)],
        transceivers: vec![XCVR, MGR, MOCK1],
        ..Setup::default()
    };
    let d2 = s2.dep();
    let Some(w0) = r.setup("parties", s2.build()) else { return };
    let recips = [a32("r"), [0; 32], a32("alice"), a32("owner"), MGR.to_bytes(), d2.mint.to_bytes(), peer_addr(2)];
    r.sweep("parties", 3 * 3 * recips.len() * 2 * 2 * 2, |i| {
        let mut ix = Ix(i);
        let who = *ix.pick(&["alice", "owner", "payer"]);
        let (ch, rc) = (*ix.pick(&[2u16, 1, 0]), *ix.pick(&recips));
        let (a, revert, late) = (*ix.pick(&[5u64, 0]), *ix.pick(&[false, true]), *ix.pick(&[0i64, 4000 * DAY]));
        let mut c = Case::new(move || format!("{who} sends {a} to {rc:02x?} on {ch}, revert {revert}, published {late} s later"));
        let Some(mut w1) = case_step(&mut c, &w0, &xfer(&d2, who, ob(0), TransferArgs { amount: a, chain: ch, recipient: rc, queue: false }), &d2) else { return c };
        w1.now += late;
        for op in [
            Op::Publish { prog: MGR, outbox: ob(0), revert },
            Op::Publish { prog: XCVR, outbox: ob(0), revert },
            Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(0) },
        ] {
            if let Some(n) = case_step(&mut c, &w1, &op, &d2) {
                w1 = n;
            }
        }
        c
    });
    // the same for held-back transfers: early, at the boundary, and after it
    let mut held = w.clone();
    held.now += 5;
    let Some(held) = r.setup("held-back", honest(held, &d, &[Op::SetOutLimit(k("owner"), 0)])) else { return };
    let ages = [0i64, DAY - 1, DAY, DAY + 1, 40 * DAY, 4000 * DAY];
    r.sweep("held-back-contents", amounts.len() * 3 * 2 * ages.len() * 2, |i| {
        let mut ix = Ix(i);
        let (a, ch) = (*ix.pick(&amounts), *ix.pick(&chains));
        let prog = *ix.pick(&[MGR, XCVR]);
        let (age, revert) = (*ix.pick(&ages), *ix.pick(&[false, true]));
        let mut c = Case::new(move || format!("publish {a} for chain {ch} by {prog}, {age} s after it was queued, revert {revert}"));
        let ta = TransferArgs { amount: a, chain: ch, recipient: a32("r"), queue: true };
        let Some(mut w1) = case_step(&mut c, &held, &xfer(&d, "alice", ob(0), ta), &d) else { return c };
        w1.now += age;
        let op = Op::Publish { prog, outbox: ob(0), revert };
        let w2 = case_step(&mut c, &w1, &op, &d).unwrap_or(w1);
        case_step(&mut c, &w2, &op, &d);
        c
    });
    // account substitution
    let sent = [xfer(&d, "alice", ob(0), args(5, 2, false)), xfer(&d, "alice", ob(1), args(6, 258, false))];
    let Some(w) = r.setup("publish-accounts", honest(w, &d, &sent)) else { return };
    let targets = [
        Target::new("publish", &w, &Op::Publish { prog: MGR, outbox: ob(0), revert: true }, &d, &[0]),
        Target::new("publish", &w, &Op::Publish { prog: XCVR, outbox: ob(0), revert: true }, &d, &[0]),
    ];
    singles(r, "publish-accounts", &targets);
}

// ------------------------------------------------------------------ C14

pub fn c14(r: &mut Run) {
    r.focus(&["transfer/*", "inv/*"]);
    let t = r.thorough;
    for b in [false, true] {
        let tag = if b { "burning" } else { "locking" };
        let s = Setup {
            burning: b,
            decimals: 9,
            peers: vec![(2, 9, 10_000), (3, 9, 10_000), (512, 9, 10_000)],
            out_limit: 1_000,
            users: vec![("alice", 5_000), ("bob", 5_000)],
            transceivers: vec![MOCK1],
            ..Setup::default()
        };
        let d = s.dep();
        let Some(w) = r.setup("terms", s.build()) else { return };
        let mut terms: Vec<TransferArgs> = vec![];
        let r1 = a32("r1");
        let mut r2 = r1;
        r2[31] ^= 1;
        let mut r3 = r1;
        r3[0] ^= 1;
        for amount in [100u64, 105, 256, 1, 2_000] {
            for chain in [2u16, 3, 512] {
                for rec in [r1, r2, r3] {
                    for queue in [false, true] {
                        terms.push(TransferArgs { amount, chain, recipient: rec, queue });
                    }
                }
            }
        }
        let grants = [0u64, 99, 100, 5_000];
        let n = terms.len() * terms.len() * grants.len() * 3;
        r.sweep(&format!("terms-{tag}"), n, |i| {
            let mut ix = Ix(i);
            let (ap, su) = (ix.pick(&terms).clone(), ix.pick(&terms).clone());
            let grant = *ix.pick(&grants);
            let how = *ix.pick(&[0u8, 1, 2]);
            let from = d.ata(&k("alice"));
            let (ap2, su2) = (ap.clone(), su.clone());
            let mut c = Case::new(move || format!("approved {ap2:?} for {grant}, submitted {su2:?} variant {how}"));
            let mut w1 = w.clone();
            let del = session_authority(&k("alice"), &ap);
            w1.edit(&from, |a| {
                a.data[72] = 1;
                a.data[76..108].copy_from_slice(del.as_ref());
                a.data[121..129].copy_from_slice(&grant.to_le_bytes());
            });
            let op = Op::Transfer { burn: b, payer: k("mallory"), owner: k("alice"), from, outbox: ob(0), args: su.clone(), approve: None };
            match how {
                0 => {
                    // the session key of the submitted terms
                    if let Some(w2) = case_step(&mut c, &w1, &op, &d) {
                        if ap != su {
                            c.fail("inv", "inv:other-terms", format!("approved {ap:?}, moved under {su:?}"));
                        }
                        // a second submission can only use what is left of the approval
                        let again = Op::Transfer { burn: b, payer: k("mallory"), owner: k("alice"), from, outbox: ob(1), args: su, approve: None };
                        case_step(&mut c, &w2, &again, &d);
                    }
                }
                1 => {
                    // the approved session key with other terms
                    let mut ixs = op.ixs(&w1, &d);
                    ixs[0].accounts[11].pubkey = del;
                    let res = exec(&w1, &ixs);
                    c.did(res.as_ref().ok().map(|t| &t.world));
                    if res.is_ok() && ap != su {
                        c.fail("transfer", "accepted-despite:terms", format!("approved {ap:?}, moved under {su:?}"));
                    }
                }
                _ => {
                    // someone else's session key / someone else's account
                    for (owner, f) in [("mallory", from), ("bob", from), ("alice", d.ata(&k("bob")))] {
                        let op = Op::Transfer { burn: b, payer: k("mallory"), owner: k(owner), from: f, outbox: ob(0), args: su.clone(), approve: None };
                        case_step(&mut c, &w1, &op, &d);
                    }
                }
            }
            c
        });
        // histories of approvals and submissions
        let name = format!("approvals-{tag}");
        let few: Vec<TransferArgs> = vec![
            TransferArgs { amount: 100, chain: 2, recipient: r1, queue: false },
            TransferArgs { amount: 105, chain: 2, recipient: r1, queue: false },
            TransferArgs { amount: 100, chain: 2, recipient: r1, queue: true },
            TransferArgs { amount: 100, chain: 3, recipient: r1, queue: false },
            TransferArgs { amount: 100, chain: 2, recipient: r2, queue: false },
        ];
        let dd = d.clone();
        let m = Scn::new(d.clone(), vec![("no approvals".into(), w.clone())], move |st| {
            let d = &dd;
            let mut v = vec![];
            for who in ["alice", "bob"] {
                for a in few.iter().take(if t { 5 } else { 3 }) {
                    for n in [99u64, 100, 205] {
                        v.push(Op::Approve { owner: k(who), from: d.ata(&k(who)), delegate: session_authority(&k(who), a), amount: n });
                    }
                }
                v.push(Op::Approve { owner: k(who), from: d.ata(&k(who)), delegate: session_authority(&k("mallory"), &few[0]), amount: 1_000 });
            }
            if let Some(o) = next_ob(&st.o, 3) {
                for who in ["alice", "bob"] {
                    for a in &few {
                        v.push(Op::Transfer { burn: d.burning, payer: k("mallory"), owner: k(who), from: d.ata(&k(who)), outbox: o, args: a.clone(), approve: None });
                    }
                }
            }
            v
        })
        .mon(|st, op, post, _| {
            let mut out = vec![];
            if let (Some(p), Op::Transfer { from, .. }) = (post, op) {
                for (key, t) in &st.o.tokens {
                    if p.tokens[key].amount < t.amount && key != from {
                        out.push(inv("other-account-debited", format!("{op:?}: {key}")));
                    }
                }
            }
            out
        });
        r.bfs(&name, &m, if t { 7 } else { 6 });
    }
}
