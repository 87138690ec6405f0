//! A mixed exploration shared by the transfer, limit and administration
//! properties: every pair (thorough: triple) of operations of every kind, from
//! starting states with work in every stage. Each property judges it with its
//! own focus.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, svm::*};
use solana_program::pubkey::Pubkey;

pub(super) struct Mixed {
    pub(super) s: Setup,
    pub(super) d: Dep,
    pub(super) inits: Vec<(String, World)>,
    pub(super) ops: Vec<Op>,
}

pub(super) fn build(burning: bool, t22: bool, thr: u8) -> Result<Mixed, String> {
    // chain numbers that agree with 2 in one byte, in either byte order
    let (own_chain, far, none) = if burning { (1, 258, 512) } else { (770, 512, 258) };
    let s = Setup {
        fee: if burning { 1_000_001 } else { 5_000 },
        burning,
        t22,
        decimals: 9,
        chain: own_chain,
        // chain 2: everything below 10 is dust; the other: everything below 1000
        peers: vec![(2, 9, 1000), (far, 6, 2000)],
        out_limit: 3000,
        users: vec![("alice", 50_000), ("carol", 5_000), ("bob", 5), ("dave", 0)],
        custody: 60_000,
        transceivers: vec![MGR, XCVR, MOCK1],
        ..Setup::default()
    };
    let d = s.dep();
    let own = k("owner");
    let mut w = s.build()?;
    // messages: within the limit, exactly the limit, above it; other chain
    let small = s.inbound(2, 1, 40, 8, &k("bob"));
    let exact = s.inbound(2, 2, 100, 8, &k("dave"));
    let big = s.inbound(2, 3, 101, 8, &k("bob"));
    let distant = s.inbound(far, 1, 1, 6, &k("dave"));
    let mut ops: Vec<Op> = vec![];
    let mut vtms = vec![];
    for (n, (c, x)) in [(2u16, &small), (2, &exact), (2, &big), (far, &distant)].iter().enumerate() {
        vtms.push((inject_vtm(&mut w, &MOCK1, *c, x), inject_vtm(&mut w, &XCVR, *c, x)));
        ops.push(Op::Redeem { t: MOCK1, vtm: vtms[n].0 });
        ops.push(Op::Redeem { t: XCVR, vtm: vtms[n].1 });
    }
    // the built-in transceiver still has to receive its copies; one claims to be
    // the same transfer but names another source manager, one another recipient
    let posted = post_vaa(&mut w, "vaa-small", &MGR, 2, &small);
    let forged = post_vaa(&mut w, "vaa-exact", &MGR, 2, &XMsg { source_manager: peer_addr(far), ..exact.clone() });
    let astray = post_vaa(&mut w, "vaa-big", &MGR, 2, &XMsg { recipient_manager: XCVR.to_bytes(), ..big.clone() });
    for v in [posted, forged, astray] {
        ops.push(Op::Receive { prog: MGR, vaa: v });
    }
    for x in [&small, &exact, &big] {
        ops.push(Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &x.msg.id) });
    }
    // somebody else's copy
    ops.push(Op::Redeem { t: MOCK1, vtm: vtms[0].1 });
    let items: Vec<(Pubkey, &str)> = vec![
        (inbox_item(2, &small.msg), "bob"),
        (inbox_item(2, &exact.msg), "dave"),
        (inbox_item(2, &big.msg), "bob"),
        (inbox_item(far, &distant.msg), "dave"),
    ];
    for (i, to) in &items {
        ops.push(release(&d, *i, to, false));
    }
    ops.push(release(&d, items[0].0, "bob", true));
    ops.push(release(&d, items[2].0, "bob", true));
    ops.push(release(&d, items[0].0, "dave", false));
    ops.push(Op::Release { burn: !burning, item: items[0].0, to: d.ata(&k("bob")), revert: false });

    // sending: all dust, dust on top, exactly the limit with and without dust, above
    let t = |who: &str, o: usize, n: u64, c: u16, q: bool| xfer(&d, who, ob(o), args(n, c, q));
    ops.push(t("alice", 5, 7, 2, false));
    ops.push(t("alice", 5, 405, 2, false));
    ops.push(t("alice", 5, 3009, 2, false));
    ops.push(t("alice", 5, 3010, 2, false));
    ops.push(t("alice", 5, 3010, 2, true));
    ops.push(t("alice", 6, 1999, far, false));
    ops.push(t("alice", 6, 2001, far, true));
    ops.push(t("carol", 7, 1500, 2, true));
    ops.push(t("carol", 7, 6000, 2, true)); // more than carol has
    ops.push(t("alice", 6, 1000, none, true)); // no such peer
    // approved for less, for the rounded amount only, not at all, by a third party
    for (n, a) in [(405u64, Some(399u64)), (405, Some(400)), (405, None)] {
        ops.push(Op::Transfer { burn: burning, payer: k("payer"), owner: k("alice"), from: d.ata(&k("alice")), outbox: ob(8), args: args(n, 2, false), approve: a });
    }
    ops.push(Op::Transfer { burn: burning, payer: k("mallory"), owner: k("mallory"), from: d.ata(&k("alice")), outbox: ob(8), args: args(405, 2, false), approve: None });
    ops.push(Op::Transfer { burn: !burning, payer: k("payer"), owner: k("alice"), from: d.ata(&k("alice")), outbox: ob(8), args: args(405, 2, false), approve: Some(405) });
    ops.push(Op::Approve { owner: k("alice"), from: d.ata(&k("alice")), delegate: session_authority(&k("alice"), &args(405, 2, false)), amount: 405 });
    for o in [0usize, 1, 5] {
        for prog in [MGR, XCVR] {
            ops.push(Op::Publish { prog, outbox: ob(o), revert: o != 1 });
        }
        ops.push(Op::Mark { by: MOCK1, claim: MOCK1, outbox: ob(o) });
    }
    ops.push(Op::Mark { by: EVIL, claim: MOCK1, outbox: ob(0) });
    ops.push(Op::Mark { by: MOCK2, claim: MOCK2, outbox: ob(0) });

    // administration, by the owner, the nominee and nobody in particular
    for s in [own, k("dave"), k("mallory")] {
        ops.push(Op::SetPaused(s, true));
        ops.push(Op::SetPaused(s, false));
        ops.push(Op::SetPeer { signer: s, chain: 2, address: peer_addr(2), limit: 1000, decimals: 9 });
        ops.push(Op::Claim(s));
        ops.push(Op::SetOutLimit(s, 3000));
    }
    ops.push(Op::SetPeer { signer: own, chain: 2, address: peer_addr(far), limit: 700, decimals: 7 });
    ops.push(Op::SetPeer { signer: own, chain: none, address: peer_addr(none), limit: 10, decimals: 18 });
    for l in [500, 5000] {
        ops.push(Op::SetOutLimit(own, l));
        ops.push(Op::SetInLimit(own, 2, l));
    }
    ops.push(Op::SetInLimit(own, 2, 1000));
    ops.push(Op::SetInLimit(own, none, 1000));
    for prog in [MGR, XCVR] {
        ops.push(Op::SetXPeer { prog, signer: own, chain: 2, address: a32("x2") });
        ops.push(Op::SetXPeer { prog, signer: own, chain: none, address: a32("x4") });
        ops.push(Op::BroadcastId { prog, msg: k("id-message") });
        ops.push(Op::BroadcastPeer { prog, msg: k("peer-message"), chain: 2 });
    }
    ops.push(Op::Register { signer: own, t: MOCK1 });
    ops.push(Op::Register { signer: own, t: MOCK2 });
    ops.push(Op::GiveOwnership { one_step: false, signer: own, new: k("dave") });
    ops.push(Op::GiveOwnership { one_step: true, signer: own, new: k("dave") });
    ops.push(Op::Initialize { payer: k("payer"), deployer: own, limit: 7, dep: d.clone() });
    ops.push(Op::Quorum { enabled: 0b011, threshold: thr });
    ops.push(Op::Quorum { enabled: 0b111, threshold: thr });
    for a in [1, DAY / 3, DAY - 1, DAY] {
        ops.push(Op::Advance(a));
    }

    set_quorum(&mut w, 0b111, thr);
    let both = |n: usize| -> Vec<Op> {
        let mut v = vec![Op::Redeem { t: MOCK1, vtm: vtms[n].0 }];
        if thr == 2 {
            v.push(Op::Redeem { t: XCVR, vtm: vtms[n].1 });
        }
        v
    };
    let mut inits = vec![("fresh".to_string(), w.clone())];
    let mut add = |name: &str, base: &World, seq: Vec<Op>| -> Result<World, String> {
        let w = honest(base.clone(), &d, &seq)?;
        inits.push((name.into(), w.clone()));
        Ok(w)
    };
    // outbound limit partly used some hours ago, one transfer waiting
    let mut seq = vec![t("alice", 0, 1234, 2, false), t("alice", 1, 2000, 2, true), Op::Advance(3_601)];
    let used = add("limits used", &w, seq.clone())?;
    // first votes cast
    add("first votes", &w, (0..4).map(|n| both(n)[0].clone()).collect())?;
    // everything approved: one within the limit, one above, one of another chain
    seq.extend(both(0));
    seq.extend(both(2));
    seq.extend(both(3));
    let appr = add("payouts pending", &w, seq)?;
    add("paused", &appr, vec![Op::SetPaused(own, true)])?;
    add("hand-over pending", &used, vec![Op::GiveOwnership { one_step: false, signer: own, new: k("dave") }])?;
    let done = add("handed over", &appr, vec![
        Op::GiveOwnership { one_step: false, signer: own, new: k("dave") },
        Op::Claim(k("dave")),
        release(&d, items[0].0, "bob", false),
        Op::Publish { prog: MGR, outbox: ob(0), revert: true },
    ])?;
    add("a day later", &done, vec![Op::Advance(DAY)])?;
    add("disabled", &appr, vec![Op::Quorum { enabled: 0b011, threshold: thr }])?;
    Ok(Mixed { s, d, inits, ops })
}

pub fn mixed(r: &mut Run) {
    if r.done() {
        return;
    }
    let t = r.thorough;
    for (b, t22, thr) in [(false, false, 2u8), (true, true, 1), (true, false, 2), (false, true, 1)] {
        if !t && t22 != b {
            continue;
        }
        let name = format!("mixed-{}-{}-threshold{thr}", if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
        let Some(m) = r.setup(&name, build(b, t22, thr)) else { return };
        let (ops, ops2) = (m.ops.clone(), m.ops.clone());
        let (dep, starts) = (m.d.clone(), m.inits.clone());
        let s = Scn::new(m.d, m.inits, move |_| ops.clone());
        r.bfs(&name, &s, if t && t22 == b { 4 } else { 3 });
        // anyone may submit and pay, also the sender, a recipient or the owner
        let (d, inits) = (dep, starts);
        let paid: Vec<Op> = ops2.iter().filter(|o| o.ixs(&inits[0].1, &d).iter().any(|i| i.accounts.iter().any(|a| a.pubkey == o.payer()))).cloned().collect();
        let who = [k("alice"), k("bob"), k("dave"), k("owner"), k("mallory")];
        r.sweep(&format!("{name}-submitters"), inits.len() * (ops2.len() + 1) * paid.len() * who.len(), |i| {
            let mut ix = Ix(i);
            let by = *ix.pick(&who);
            let op = Op::By(by, Box::new(ix.pick(&paid).clone()));
            let (start, w) = ix.pick(&inits);
            let first = ix.0.checked_sub(1).map(|n| ops2[n].clone());
            let mut c = Case::new({
                let (start, first, op) = (start.clone(), first.clone(), op.clone());
                move || format!("{start}: {first:?}, then {op:?}")
            });
            let w = match &first {
                Some(f) => match run_op(w, f, &d) {
                    Ok(w) => w,
                    Err(_) => return c,
                },
                None => w.clone(),
            };
            case_step(&mut c, &w, &op, &d);
            c
        });
    }
}
