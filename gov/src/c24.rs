//! C24: the governance program. The oracle is differential: a governance
//! transaction must have exactly the effect of running the encoded instruction
//! directly (placeholders replaced, signed by the governance authority), plus a
//! replay marker paid by the payer; and only for genuine messages.

use anchor_lang::{AnchorDeserialize, AnchorSerialize};
use nttmc::client::*;
use nttmc::explore::*;
use nttmc::model::Div;
use nttmc::programs::*;
use nttmc::setup::*;
use nttmc::subst;
use nttmc::svm::{exec, register, rent_min, Acct, Ctx, Program, World};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::fmt::Debug;
use wormhole_governance::instructions::{Acc, GovernanceAction, GovernanceMessage};
use wormhole_io::{Readable, Writeable};

static GOV: Pubkey = wormhole_governance::ID;
const MODULE: &[u8; 32] = b"\0\0\0\0\0\0\0\0GeneralPurposeGovernance";
const EMITTER: [u8; 32] = {
    let mut a = [0; 32];
    a[31] = 4;
    a
};

fn gov_entry(id: &Pubkey, a: &'static [AccountInfo<'static>], d: &[u8]) -> ProgramResult {
    wormhole_governance::entry(id, a, d)
}

/// Stand-in for a governed program: appends the call it received to its log account.
fn recorder(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    if d.first() == Some(&0xEE) {
        return Err("recorder: refuses".into());
    }
    let id = c.frame().program;
    let mut e = vec![];
    for a in &c.frame().accts {
        e.extend(a.key.to_bytes());
        e.push(a.signer as u8);
        e.push(a.writable as u8);
    }
    e.extend((d.len() as u32).to_le_bytes());
    e.extend(d);
    let log = c.load(&log_of(&id));
    log.data.extend(e);
    log.lamports = 1_000_000_000;
    Ok(())
}

fn rec(i: u8) -> Pubkey {
    k(&format!("recorder-{i}"))
}

fn log_of(p: &Pubkey) -> Pubkey {
    k(&format!("log-{p}"))
}

pub fn install() {
    register(GOV, Program::Native(gov_entry));
    for i in 0..2 {
        register(rec(i), Program::Builtin(recorder));
    }
}

fn governance() -> Pubkey {
    pda(&[b"governance"], &GOV)
}

fn placeholder(s: &str) -> Pubkey {
    let mut a = [0; 32];
    a[..s.len()].copy_from_slice(s.as_bytes());
    Pubkey::new_from_array(a)
}

fn replay_key(chain: u16, emitter: &[u8; 32], seq: u64) -> Pubkey {
    pda(&[b"replay", &chain.to_be_bytes(), emitter, &seq.to_be_bytes()], &GOV)
}

// --------------------------------------------------------------- wire format

fn body_wire(i: &Instruction) -> Vec<u8> {
    let mut d = i.program_id.to_bytes().to_vec();
    d.extend((i.accounts.len() as u16).to_be_bytes());
    for a in &i.accounts {
        d.extend(a.pubkey.to_bytes());
        d.push(a.is_signer as u8);
        d.push(a.is_writable as u8);
    }
    d.extend((i.data.len() as u16).to_be_bytes());
    d.extend(&i.data);
    d
}

/// The complete packet, with a header that can deviate.
#[derive(Clone, Debug)]
struct Packet {
    module: [u8; 32],
    action: u8,
    chain: u16,
    gov: [u8; 32],
    body: Vec<u8>,
}

impl Packet {
    fn honest(i: &Instruction) -> Packet {
        Packet {
            module: *MODULE,
            action: 2,
            chain: 1,
            gov: GOV.to_bytes(),
            body: body_wire(i),
        }
    }
    fn wire(&self) -> Vec<u8> {
        let mut d = self.module.to_vec();
        d.push(self.action);
        d.extend(self.chain.to_be_bytes());
        d.extend(self.gov);
        d.extend(&self.body);
        d
    }
}

#[derive(Clone, Debug)]
struct Msg {
    packet: Packet,
    emitter_chain: u16,
    emitter: [u8; 32],
    seq: u64,
    owner: Pubkey,
    tag: [u8; 3],
}

impl Msg {
    fn honest(i: &Instruction, seq: u64) -> Msg {
        Msg {
            packet: Packet::honest(i),
            emitter_chain: 1,
            emitter: EMITTER,
            seq,
            owner: CORE,
            tag: *b"vaa",
        }
    }
    fn acct(&self) -> Acct {
        let data = Posted {
            finality: 1,
            timestamp: 7,
            nonce: self.seq as u32 ^ 0x55,
            sequence: self.seq,
            emitter_chain: self.emitter_chain,
            emitter: self.emitter,
            payload: self.packet.wire(),
        }
        .to_data(&self.tag);
        Acct {
            lamports: rent_min(data.len()),
            owner: self.owner,
            executable: false,
            data,
        }
    }
    fn replay(&self) -> Pubkey {
        replay_key(self.emitter_chain, &self.emitter, self.seq)
    }
    fn genuine(&self) -> bool {
        self.emitter_chain == 1
            && self.emitter == EMITTER
            && self.owner == CORE
            && self.tag == *b"vaa"
            && self.packet.module == *MODULE
            && self.packet.action == 2
            && self.packet.chain == 1
            && self.packet.gov == GOV.to_bytes()
    }
}

/// The governance transaction: `extra` are the remaining accounts.
fn gov_ix(payer: Pubkey, vaa: Pubkey, program: Pubkey, replay: Pubkey, extra: &[AccountMeta]) -> Instruction {
    let mut a = vec![
        AccountMeta::new(payer, true),
        AccountMeta::new(governance(), false),
        AccountMeta::new_readonly(vaa, false),
        AccountMeta::new_readonly(program, false),
        AccountMeta::new(replay, false),
        AccountMeta::new_readonly(system_program::ID, false),
    ];
    a.extend_from_slice(extra);
    ix(GOV, "governance", &[], a)
}

/// The instruction governance has to run, with its placeholders filled in.
fn resolved(i: &Instruction, payer: Pubkey) -> Instruction {
    let mut i = i.clone();
    for a in i.accounts.iter_mut() {
        if a.pubkey == placeholder("owner") {
            a.pubkey = governance();
        } else if a.pubkey == placeholder("payer") {
            a.pubkey = payer;
        }
    }
    i
}

/// The accounts a submitter attaches: everything the call names.
fn attach(i: &Instruction, payer: Pubkey) -> Vec<AccountMeta> {
    let mut v: Vec<AccountMeta> = vec![];
    for a in resolved(i, payer).accounts {
        if a.pubkey == payer || a.pubkey == governance() {
            continue;
        }
        match v.iter_mut().find(|x| x.pubkey == a.pubkey) {
            Some(x) => x.is_writable |= a.is_writable,
            None => v.push(AccountMeta {
                pubkey: a.pubkey,
                is_signer: false,
                is_writable: a.is_writable,
            }),
        }
    }
    v
}

/// Expected world after a genuine message is executed for the first time.
fn expected(w: &World, i: &Instruction, payer: Pubkey, replay: Pubkey, extra: &[AccountMeta]) -> Option<World> {
    let i = resolved(i, payer);
    // privileges: signers are the authority and the payer, writable what was passed as such
    for a in &i.accounts {
        let own = [payer, governance()].contains(&a.pubkey);
        let passed = extra.iter().find(|x| x.pubkey == a.pubkey);
        if a.is_signer && !own {
            return None;
        }
        if a.is_writable && !own && a.pubkey != replay && !passed.is_some_and(|x| x.is_writable) {
            return None;
        }
        if !own && passed.is_none() && ![i.program_id, replay, system_program::ID].contains(&a.pubkey) {
            return None;
        }
    }
    if w.get(&replay).is_some() {
        return None;
    }
    let rent = rent_min(9);
    let mut n = w.clone();
    if n.lamports(&payer) < rent {
        return None;
    }
    n.edit(&payer, |a| a.lamports -= rent);
    let mut data = disc("account", "ReplayProtection").to_vec();
    data.push(0); // the bump, not compared
    n.set(
        replay,
        Acct {
            lamports: rent,
            owner: GOV,
            executable: false,
            data,
        },
    );
    exec(&n, &[i]).ok().map(|t| t.world)
}

fn differs(want: &World, got: &World) -> Option<String> {
    for key in want.changed(got) {
        let (a, b) = (want.get(&key), got.get(&key));
        if let (Some(a), Some(b)) = (a, b) {
            // marker: compare everything but the bump
            if a.owner == GOV && b.owner == GOV && a.lamports == b.lamports && a.data.len() == b.data.len() && a.data[..8] == b.data[..8] {
                continue;
            }
        }
        return Some(format!("account {key}: expected {a:?}, got {b:?}"));
    }
    None
}

fn submit(c: &mut Case, w: &World, what: &str, tx: &Instruction, want: Option<&World>) -> Option<World> {
    let got = exec(w, &[tx.clone()]).map(|t| t.world);
    c.did(got.as_ref().ok());
    match (&got, want) {
        (Ok(g), Some(x)) => {
            if let Some(d) = differs(x, g) {
                c.fail("governance", "effect", format!("{what}: {d}"));
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => c.fail("governance", "accepted", format!("{what}: executed")),
        (Err(e), Some(_)) => c.fail("governance", "rejected", format!("{what}: {e}")),
    }
    got.ok()
}

fn world() -> World {
    let mut w = World::default();
    w.now = nttmc::svm::START_TIME;
    w.slot = 100;
    for p in ["payer", "payer-2", "mallory"] {
        w.set(k(p), wallet(10_000_000_000));
    }
    w.set(governance(), wallet(5_000_000_000));
    for p in ["acct-w", "acct-r", "acct-x"] {
        w.set(k(p), wallet(3_000_000));
    }
    for i in 0..2 {
        w.set(
            log_of(&rec(i)),
            Acct {
                lamports: 1_000_000_000,
                owner: rec(i),
                executable: false,
                data: vec![],
            },
        );
    }
    w
}

fn call_rec(p: u8, accounts: Vec<AccountMeta>, data: &[u8]) -> Instruction {
    Instruction {
        program_id: rec(p),
        accounts,
        data: data.to_vec(),
    }
}

fn meta(key: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta {
        pubkey: key,
        is_signer: signer,
        is_writable: writable,
    }
}

// --------------------------------------------------------------- histories

#[derive(Clone)]
struct Gs {
    w: World,
    /// how often each message was executed
    done: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Go {
    msg: usize,
    /// which posted copy of the message
    copy: usize,
    payer: Pubkey,
    /// uses the replay marker of this message
    marker: usize,
}

struct Hist {
    start: World,
    calls: Vec<(String, Instruction, Msg)>,
    ops: Vec<Go>,
}

fn vaa_key(m: usize, copy: usize) -> Pubkey {
    k(&format!("gov-vaa-{m}-{copy}"))
}

impl Model for Hist {
    type S = Gs;
    type O = Go;
    type P = Gs;
    fn pack(&self, s: Gs) -> Gs {
        s
    }
    fn unpack(&self, p: &Gs) -> Gs {
        p.clone()
    }
    fn init(&self) -> Vec<(String, Gs)> {
        vec![(
            "start".into(),
            Gs {
                w: self.start.clone(),
                done: vec![0; self.calls.len()],
            },
        )]
    }
    fn ops(&self, _: &Gs) -> Vec<Go> {
        self.ops.clone()
    }
    fn step(&self, s: &Gs, o: &Go) -> (Option<Gs>, Vec<Div>) {
        let (name, call, m) = &self.calls[o.msg];
        let replay = self.calls[o.marker].2.replay();
        let extra = attach(call, o.payer);
        let tx = gov_ix(o.payer, vaa_key(o.msg, o.copy), call.program_id, replay, &extra);
        let want = if m.genuine() && replay == m.replay() {
            expected(&s.w, call, o.payer, replay, &extra)
        } else {
            None
        };
        let mut c = Case::new(String::new);
        let n = submit(&mut c, &s.w, name, &tx, want.as_ref());
        let mut divs = c.divs;
        let n = n.map(|w| {
            let mut done = s.done.clone();
            done[o.msg] += 1;
            // messages with one identity count together
            let id = m.replay();
            let times: u8 = (0..self.calls.len()).filter(|i| self.calls[*i].2.replay() == id).map(|i| done[i]).sum();
            if times > 1 {
                divs.push(Div {
                    op: "governance".into(),
                    aspect: "repeated".into(),
                    detail: format!("{name}: executed {times} times"),
                });
            }
            Gs { w, done }
        });
        (n, divs)
    }
    fn key(&self, s: &Gs) -> u128 {
        let mut h = KeyHasher::new();
        world_key(&mut h, &s.w);
        h.add(&s.done);
        h.finish()
    }
    fn op_name(&self, o: &Go) -> String {
        self.calls[o.msg].0.clone()
    }
}

fn histories(r: &mut Run) {
    // calls to recording programs, incl. one that always fails and ones that deviate
    let own = placeholder("owner");
    let pay = placeholder("payer");
    let mut calls: Vec<(String, Instruction, Msg)> = vec![];
    let add = |calls: &mut Vec<_>, n: &str, i: Instruction, seq: u64| {
        let m = Msg::honest(&i, seq);
        calls.push((n.to_string(), i, m));
    };
    add(&mut calls, "call-a", call_rec(0, vec![meta(own, true, true), meta(k("acct-w"), false, true)], b"a"), 1);
    add(&mut calls, "call-b", call_rec(1, vec![meta(pay, true, true), meta(own, true, false)], b"bb"), 256);
    add(&mut calls, "call-c", call_rec(0, vec![], b""), 0x0100_0000_0000_0001);
    add(&mut calls, "fails", call_rec(0, vec![meta(own, true, false)], &[0xEE]), 2);
    // the same sequence number as call-a but other content: only one of them can run
    add(&mut calls, "twin", call_rec(1, vec![meta(own, true, true)], b"twin"), 1);
    add(&mut calls, "chain", call_rec(0, vec![meta(own, true, true)], b"x"), 3);
    calls.last_mut().unwrap().2.emitter_chain = 2;
    add(&mut calls, "emitter", call_rec(0, vec![meta(own, true, true)], b"y"), 4);
    calls.last_mut().unwrap().2.emitter[31] = 5;
    let mut w = world();
    for (i, c) in calls.iter().enumerate() {
        for copy in 0..2 {
            w.set(vaa_key(i, copy), c.2.acct());
        }
    }
    let mut ops = vec![];
    for msg in 0..calls.len() {
        for copy in 0..2 {
            for payer in [k("payer"), k("payer-2")] {
                ops.push(Go { msg, copy, payer, marker: msg });
            }
        }
        for marker in 0..calls.len() {
            if calls[marker].2.replay() != calls[msg].2.replay() {
                ops.push(Go { msg, copy: 0, payer: k("payer"), marker });
            }
        }
    }
    r.bfs("histories", &Hist { start: w, calls, ops }, 12);

    // governing a real deployment
    let s = Setup::default();
    let Some(mut w) = r.setup("governed deployment", s.build()) else { return };
    w.set(governance(), wallet(5_000_000_000));
    w.set(k("payer"), wallet(10_000_000_000));
    w.set(k("payer-2"), wallet(10_000_000_000));
    let owner = k("owner");
    let start = exec(&w, &[transfer_ownership(true, owner, governance())]).map(|t| t.world);
    let Some(mut w) = r.setup("governed deployment", start) else { return };
    let raw: Vec<(&str, Instruction)> = vec![
        ("pause", set_paused(governance(), true)),
        ("unpause", set_paused(governance(), false)),
        ("out-limit", set_outbound_limit(governance(), 77)),
        ("in-limit", set_inbound_limit(governance(), 2, 99)),
        ("peer", set_peer(k("payer"), governance(), 2, &a32("new-peer"), 12_345, 5)),
        ("nominate", transfer_ownership(false, governance(), owner)),
        ("reclaim", claim_ownership(governance())),
        ("hand-over", transfer_ownership(true, governance(), owner)),
    ];
    let mut calls = vec![];
    for (i, (n, mut ix)) in raw.into_iter().enumerate() {
        for a in ix.accounts.iter_mut() {
            if a.pubkey == governance() {
                a.pubkey = own;
            } else if a.pubkey == k("payer") {
                a.pubkey = pay;
            }
        }
        let m = Msg::honest(&ix, 1000 + i as u64);
        w.set(vaa_key(i, 0), m.acct());
        calls.push((n.to_string(), ix, m));
    }
    let ops = (0..calls.len())
        .flat_map(|m| {
            [k("payer"), k("payer-2")].map(|payer| Go {
                msg: m,
                copy: 0,
                payer,
                marker: m,
            })
        })
        .collect();
    r.bfs("governed-deployment", &Hist { start: w, calls, ops }, if r.thorough { 9 } else { 5 });
}

// --------------------------------------------------------------- inputs

fn inputs(r: &mut Run) {
    let own = placeholder("owner");
    let pay = placeholder("payer");
    let mut near = [0u8; 32];
    near[..5].copy_from_slice(b"owner");
    near[31] = 1;
    let keys: Vec<Pubkey> = vec![
        own,
        pay,
        k("acct-w"),
        k("acct-r"),
        governance(),
        k("payer"),
        Pubkey::new_from_array(near),
        placeholder("payer2"),
        placeholder("Owner"),
    ];
    let flags = [(false, false), (true, false), (false, true), (true, true)];
    let one: Vec<AccountMeta> = keys.iter().flat_map(|k| flags.map(|f| meta(*k, f.0, f.1))).collect();
    let n = one.len();
    let depth = if r.thorough { 4 } else { 3 };
    let sizes: Vec<usize> = (0..=depth).map(|d| n.pow(d as u32)).collect();
    let total: usize = sizes.iter().sum();
    let w0 = world();
    // every account list up to the bound
    r.sweep("account-lists", total, |i| {
        let (mut j, mut len) = (i, 0);
        while j >= sizes[len] {
            j -= sizes[len];
            len += 1;
        }
        let mut ix = Ix(j);
        let accts: Vec<AccountMeta> = (0..len).map(|_| ix.pick(&one).clone()).collect();
        let call = call_rec((i % 2) as u8, accts, &[i as u8 & 0x7f, 1, 2]);
        let m = Msg::honest(&call, i as u64);
        let mut w = w0.clone();
        let vaa = k("gov-vaa");
        w.set(vaa, m.acct());
        let payer = k("payer");
        let extra: Vec<AccountMeta> = keys[2..]
            .iter()
            .filter(|x| **x != governance() && **x != payer)
            .map(|x| AccountMeta {
                pubkey: *x,
                is_signer: false,
                is_writable: *x == k("acct-w"),
            })
            .collect();
        let want = expected(&w, &call, payer, m.replay(), &extra);
        let tx = gov_ix(payer, vaa, call.program_id, m.replay(), &extra);
        let c2 = call.clone();
        let mut c = Case::new(move || format!("{c2:?}"));
        submit(&mut c, &w, &format!("{call:?}"), &tx, want.as_ref());
        c
    });
    // data lengths and contents
    let lens = [0usize, 1, 2, 3, 31, 32, 33, 127, 255, 256, 257, 600, 900];
    r.sweep("data", lens.len() * 256, |i| {
        let len = lens[i % lens.len()];
        let b = (i / lens.len()) as u8;
        let mut data: Vec<u8> = (0..len).map(|x| (x as u8).wrapping_mul(b | 1).wrapping_add(b)).collect();
        if data.first() == Some(&0xEE) {
            data[0] = 0;
        }
        let call = call_rec(b % 2, vec![meta(own, true, true), meta(pay, true, false)], &data);
        let m = Msg::honest(&call, u64::MAX - i as u64);
        let mut w = w0.clone();
        w.set(k("gov-vaa"), m.acct());
        let want = expected(&w, &call, k("payer-2"), m.replay(), &[]);
        let tx = gov_ix(k("payer-2"), k("gov-vaa"), call.program_id, m.replay(), &[]);
        let mut c = Case::new(move || format!("{len} data bytes, first {b}"));
        submit(&mut c, &w, "data", &tx, want.as_ref());
        c
    });
    // whatever executable is passed, the encoded program is the one that runs
    let exes = [rec(0), rec(1), MGR, system_program::ID, EVIL, GOV];
    r.sweep("program-slot", exes.len() * 2, |i| {
        let (p, target) = (exes[i / 2], (i % 2) as u8);
        let call = call_rec(target, vec![meta(own, true, true)], b"target");
        let m = Msg::honest(&call, 5);
        let mut w = w0.clone();
        w.set(k("gov-vaa"), m.acct());
        let extra = vec![meta(rec(0), false, false), meta(rec(1), false, false)];
        let tx = gov_ix(k("payer"), k("gov-vaa"), p, m.replay(), &extra);
        let mut c = Case::new(move || format!("program account {p}, target {target}"));
        let got = exec(&w, &[tx]).ok().map(|t| t.world);
        c.did(got.as_ref());
        // naming another executable may be refused, but must not redirect the call
        let want = expected(&w, &call, k("payer"), m.replay(), &extra).unwrap();
        match got {
            Some(g) => {
                if let Some(d) = differs(&want, &g) {
                    c.fail("governance", "redirected", format!("program account {p}, target {target}: {d}"));
                }
            }
            None if p == rec(target) => c.fail("governance", "rejected", "honest call refused".into()),
            None => {}
        }
        c
    });
    // deviating headers
    let call = call_rec(0, vec![meta(own, true, true), meta(k("acct-w"), false, true)], b"call");
    let honest = Msg::honest(&call, 9);
    let extra = attach(&call, k("payer"));
    let mut devs: Vec<(String, Msg)> = vec![("honest".into(), honest.clone())];
    let mut dev = |n: String, f: &dyn Fn(&mut Msg)| {
        let mut m = honest.clone();
        f(&mut m);
        devs.push((n, m));
    };
    for v in 0..=u16::MAX {
        dev(format!("chain {v}"), &|m| m.packet.chain = v);
    }
    for v in 0..=u16::MAX {
        dev(format!("emitter chain {v}"), &|m| m.emitter_chain = v);
    }
    for v in 0..=255u8 {
        dev(format!("action {v}"), &|m| m.packet.action = v);
        for p in 0..32 {
            dev(format!("emitter byte {p} = {v}"), &|m| m.emitter[p] = v);
            dev(format!("module byte {p} = {v}"), &|m| m.packet.module[p] = v);
            dev(format!("program byte {p} = {v}"), &|m| m.packet.gov[p] = v);
        }
    }
    for o in [GOV, EVIL, system_program::ID, MGR, rec(0), k("payer"), TOKEN] {
        dev(format!("owner {o}"), &|m| m.owner = o);
    }
    for t in [*b"msg", *b"vaz", *b"VAA", [0; 3], *b"vab"] {
        dev(format!("tag {t:?}"), &|m| m.tag = t);
    }
    for g in [rec(0), MGR, governance(), Pubkey::default(), system_program::ID, EVIL] {
        dev(format!("for program {g}"), &|m| m.packet.gov = g.to_bytes());
    }
    for e in [a32("other"), [0; 32], governance().to_bytes(), CORE.to_bytes(), bridge().to_bytes(), [4; 32]] {
        dev(format!("emitter {e:?}"), &|m| m.emitter = e);
    }
    let try_msg = |what: &str, m: &Msg| {
        let mut w = w0.clone();
        w.set(k("gov-vaa"), m.acct());
        let want = if m.genuine() { expected(&w, &call, k("payer"), m.replay(), &extra) } else { None };
        let tx = gov_ix(k("payer"), k("gov-vaa"), call.program_id, m.replay(), &extra);
        let s = what.to_string();
        let mut c = Case::new(move || s.clone());
        submit(&mut c, &w, what, &tx, want.as_ref());
        if !m.genuine() {
            // with the marker an honest message would use
            let tx = gov_ix(k("payer"), k("gov-vaa"), call.program_id, honest.replay(), &extra);
            submit(&mut c, &w, what, &tx, None);
        }
        c
    };
    r.sweep("deviations", devs.len(), |i| try_msg(&devs[i].0, &devs[i].1));
    // pairs of deviations that could cancel out
    let chains = [0u16, 1, 2, 256, 257, 0xffff];
    let actions = [0u8, 1, 2, 3, 255];
    let modules: Vec<[u8; 32]> = vec![*MODULE, *b"GeneralPurposeGovernance\0\0\0\0\0\0\0\0", [0; 32]];
    let ems: Vec<[u8; 32]> = vec![EMITTER, [0; 32], a32("other"), governance().to_bytes()];
    let govs: Vec<[u8; 32]> = vec![GOV.to_bytes(), [0; 32], rec(0).to_bytes()];
    let owners = [CORE, EVIL, GOV];
    let tags = [*b"vaa", *b"msg"];
    let np = chains.len() * chains.len() * actions.len() * modules.len() * ems.len() * govs.len() * owners.len() * tags.len();
    r.sweep("combined-deviations", np, |i| {
        let mut ix = Ix(i);
        let mut m = honest.clone();
        m.packet.chain = *ix.pick(&chains);
        m.emitter_chain = *ix.pick(&chains);
        m.packet.action = *ix.pick(&actions);
        m.packet.module = *ix.pick(&modules);
        m.emitter = *ix.pick(&ems);
        m.packet.gov = *ix.pick(&govs);
        m.owner = *ix.pick(&owners);
        m.tag = *ix.pick(&tags);
        let what = format!("{m:?}");
        try_msg(&what, &m)
    });
    // cut or corrupted bodies never execute anything but what they then encode
    let body = honest.packet.body.clone();
    r.sweep("cut-bodies", body.len(), |i| {
        let mut m = honest.clone();
        m.packet.body.truncate(i);
        let mut w = w0.clone();
        w.set(k("gov-vaa"), m.acct());
        let tx = gov_ix(k("payer"), k("gov-vaa"), call.program_id, m.replay(), &extra);
        let mut c = Case::new(move || format!("body cut to {i} bytes"));
        submit(&mut c, &w, &format!("body cut to {i} bytes"), &tx, None);
        c
    });
    // flags other than 0 and 1
    let flag_at: Vec<usize> = vec![34 + 32, 34 + 33, 34 + 34 + 32, 34 + 34 + 33];
    r.sweep("flags", flag_at.len() * 254, |i| {
        let (p, v) = (flag_at[i % flag_at.len()], (i / flag_at.len()) as u8 + 2);
        let mut m = honest.clone();
        m.packet.body[p] = v;
        let mut w = w0.clone();
        w.set(k("gov-vaa"), m.acct());
        let tx = gov_ix(k("payer"), k("gov-vaa"), call.program_id, m.replay(), &extra);
        let mut c = Case::new(move || format!("flag byte {p} = {v}"));
        submit(&mut c, &w, &format!("flag byte {p} = {v}"), &tx, None);
        c
    });
    // sequence numbers: every message has its own marker
    let seqs: Vec<u64> = (0..64).flat_map(|b| [1u64 << b, (1 << b) - 1]).chain([u64::MAX, u64::MAX - 1]).collect();
    r.sweep("sequences", seqs.len() * seqs.len(), |i| {
        let (a, b) = (seqs[i / seqs.len()], seqs[i % seqs.len()]);
        let mut c = Case::new(move || format!("sequences {a} then {b}"));
        let mut w = w0.clone();
        for (n, q) in [(0, a), (1, b)] {
            let m = Msg::honest(&call, q);
            w.set(k(&format!("gov-vaa-s{n}")), m.acct());
        }
        for (n, q) in [(0, a), (1, b)] {
            let m = Msg::honest(&call, q);
            let want = expected(&w, &call, k("payer"), m.replay(), &extra);
            if n == 1 && (a == b) != want.is_none() {
                c.fail("governance", "identity", format!("sequences {a} and {b} collide"));
            }
            let tx = gov_ix(k("payer"), k(&format!("gov-vaa-s{n}")), call.program_id, m.replay(), &extra);
            if let Some(n) = submit(&mut c, &w, &format!("sequence {q} after {a}"), &tx, want.as_ref()) {
                w = n;
            }
        }
        c
    });
    // substituted accounts
    let mut w = w0.clone();
    w.set(k("gov-vaa"), honest.acct());
    let other = Msg::honest(&call_rec(1, vec![meta(own, true, true)], b"other"), 10);
    w.set(k("gov-vaa-2"), other.acct());
    let mut fake = honest.clone();
    fake.emitter = a32("other");
    w.set(k("gov-vaa-3"), fake.acct());
    let third = Msg::honest(&call, 77);
    let pre = exec(&{
        let mut x = w.clone();
        x.set(k("gov-vaa-4"), third.acct());
        x
    }, &[gov_ix(k("payer"), k("gov-vaa-4"), call.program_id, third.replay(), &extra)])
    .map(|t| t.world);
    let Some(w) = r.setup("accounts", pre) else { return };
    let tx = gov_ix(k("payer"), k("gov-vaa"), call.program_id, honest.replay(), &extra);
    let t = subst::Target {
        name: "governance".into(),
        w,
        ixs: vec![tx],
        at: 0,
        // the payer is free; which account vouches for the program is immaterial as
        // long as the encoded one runs (checked by the histories)
        free: vec![0],
        allowed: vec![],
    };
    subst::singles(r, "accounts", &[t]);
}

// --------------------------------------------------------------- encoding

fn call_safe<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn same<T: Debug>(a: &T, b: &T) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn encoding(r: &mut Run) {
    std::panic::set_hook(Box::new(|_| {}));
    let lens_a = [0usize, 1, 2, 3, 7, 40];
    let lens_d = [0usize, 1, 5, 255, 256, 300];
    let keys = [Pubkey::default(), placeholder("owner"), placeholder("payer"), k("x"), Pubkey::new_from_array([0xff; 32])];
    r.sweep("encoding", lens_a.len() * lens_d.len() * keys.len() * keys.len() * 4, |i| {
        let mut ix = Ix(i);
        let (na, nd, p, q) = (*ix.pick(&lens_a), *ix.pick(&lens_d), *ix.pick(&keys), *ix.pick(&keys));
        let f = ix.0;
        let metas: Vec<AccountMeta> = (0..na)
            .map(|j| meta(if j % 2 == 0 { q } else { keys[j % 5] }, (j + f) % 2 == 0, (j + f / 2) % 3 == 0))
            .collect();
        let data: Vec<u8> = (0..nd).map(|x| (x * 3 + f) as u8).collect();
        let ins = Instruction {
            program_id: p,
            accounts: metas.clone(),
            data: data.clone(),
        };
        let want = Packet::honest(&ins).wire();
        let v = GovernanceMessage {
            governance_program_id: GOV,
            program_id: p,
            accounts: metas
                .iter()
                .map(|a| Acc {
                    pubkey: a.pubkey,
                    is_signer: a.is_signer,
                    is_writable: a.is_writable,
                })
                .collect(),
            data,
        };
        let mut c = Case::new(move || format!("{na} accounts, {nd} data bytes, case {f}"));
        let mut b = vec![];
        let ok = call_safe(|| v.write(&mut b)).is_some_and(|r| r.is_ok());
        c.eval(ok, &b);
        if !ok || b != want {
            c.fail("message", "bytes", format!("{v:?} is written as {b:?}, documented {want:?}"));
        }
        if call_safe(|| v.written_size()) != Some(want.len()) {
            c.fail("message", "size", format!("{v:?} declares {} bytes instead of {}", v.written_size(), want.len()));
        }
        let mut body = vec![];
        if !call_safe(|| v.write_body(&mut body)).is_some_and(|r| r.is_ok()) || body != body_wire(&ins) {
            c.fail("message", "body", format!("body of {v:?} is {body:?}"));
        }
        match call_safe(|| GovernanceMessage::read_body(&mut &body[..], GOV)) {
            Some(Ok(x)) if same(&x, &v) => {}
            x => c.fail("message", "body", format!("body is read as {x:?}, expected {v:?}")),
        }
        let mut long = want.clone();
        long.extend([9, 9]);
        let mut rd = &long[..];
        match call_safe(|| <GovernanceMessage as Readable>::read(&mut rd)) {
            Some(Ok(x)) if same(&x, &v) && rd.len() == 2 => {}
            x => c.fail("message", "decode", format!("read as {x:?} leaving {}, expected {v:?}", rd.len())),
        }
        match (v.try_to_vec(), GovernanceMessage::deserialize(&mut &want[..])) {
            (Ok(b), Ok(x)) if b == want && same(&x, &v) => {}
            x => c.fail("message", "account", format!("{x:?}, expected {v:?}")),
        }
        // to and from an instruction
        let back: GovernanceMessage = ins.clone().into();
        if !same(&back, &v) {
            c.fail("message", "from-instruction", format!("{back:?}, expected {v:?}"));
        }
        match call_safe(|| Instruction::from(v.clone())) {
            Some(x) if x == ins => {}
            x => c.fail("message", "to-instruction", format!("{x:?}, expected {ins:?}")),
        }
        if na <= 3 && nd <= 5 {
            for n in 0..want.len() {
                match call_safe(|| <GovernanceMessage as Readable>::read(&mut &want[..n])) {
                    Some(Err(_)) => {}
                    x => c.fail("message", "truncated", format!("cut to {n} bytes is read as {x:?}")),
                }
                c.steps += 1;
                c.rejected += 1;
            }
        }
        c
    });
    // more than a 16-bit length can describe
    r.sweep("oversize", 4, |i| {
        let mut v: GovernanceMessage = Instruction {
            program_id: k("x"),
            accounts: vec![],
            data: vec![1],
        }
        .into();
        let n = [65535, 65536, 65535, 65536][i];
        if i < 2 {
            v.data = vec![7; n];
        } else {
            v.accounts = vec![
                Acc {
                    pubkey: k("x"),
                    is_signer: false,
                    is_writable: true
                };
                n
            ];
        }
        let mut c = Case::new(move || format!("{n} entries, case {i}"));
        let mut b = vec![];
        let ok = call_safe(|| v.write(&mut b)).is_some_and(|r| r.is_ok());
        c.eval(ok, &i);
        if ok != (n == 65535) {
            c.fail("message", "oversize", format!("{n} entries: written {ok}"));
        }
        if ok && !call_safe(|| <GovernanceMessage as Readable>::read(&mut &b[..])).is_some_and(|x| x.is_ok_and(|x| x == v)) {
            c.fail("message", "oversize", format!("{n} entries do not round-trip"));
        }
        c
    });
    r.sweep("actions", 256, |i| {
        let mut c = Case::new(move || format!("action {i}"));
        let want = match i {
            0 => Some(GovernanceAction::Undefined),
            1 => Some(GovernanceAction::EvmCall),
            2 => Some(GovernanceAction::SolanaCall),
            _ => None,
        };
        let b = [i as u8];
        match (call_safe(|| GovernanceAction::read(&mut &b[..])), want) {
            (Some(Ok(a)), Some(w)) if a == w => c.eval(true, &i),
            (Some(Err(_)), None) => c.eval(false, &i),
            (g, w) => c.fail("action", "decode", format!("{i} is read as {g:?}, expected {w:?}")),
        }
        if let Some(w) = want {
            let mut o = vec![];
            if w.write(&mut o).is_err() || o != b || w.written_size() != 1 {
                c.fail("action", "bytes", format!("{w:?} is written as {o:?}, declaring {}", w.written_size()));
            }
        }
        c
    });
}

pub fn c24(r: &mut Run) {
    r.focus(&["*"]);
    histories(r);
    inputs(r);
    encoding(r);
}
