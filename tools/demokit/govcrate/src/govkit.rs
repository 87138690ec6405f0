//! Governance helpers of the demonstration.
#![allow(dead_code, unused_imports)]
use crate::kit::*;
use crate::svm::{exec, register, rent_min, Acct, Ctx, Program, World};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};

pub static GOV: Pubkey = wormhole_governance::ID;
pub const MODULE: &[u8; 32] = b"\0\0\0\0\0\0\0\0GeneralPurposeGovernance";
pub const EMITTER: [u8; 32] = {
    let mut a = [0; 32];
    a[31] = 4;
    a
};

pub fn gov_entry(id: &Pubkey, a: &'static [AccountInfo<'static>], d: &[u8]) -> ProgramResult {
    wormhole_governance::entry(id, a, d)
}

/// Stand-in for a governed program: appends the call it received to its log account.
pub fn recorder(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    if d.first() == Some(&0xEE) {
        return Err("recorder: refuses".into());
    }
    let id = c.frame().program;
    let mut e = vec![];
    for a in &c.frame().accts {
        e.extend(a.key.to_bytes());
        e.push(a.signer as u8);
        e.push(a.writable as u8);
    }
    e.extend((d.len() as u32).to_le_bytes());
    e.extend(d);
    let log = c.load(&log_of(&id));
    log.data.extend(e);
    log.lamports = 1_000_000_000;
    Ok(())
}

pub fn rec(i: u8) -> Pubkey {
    k(&format!("recorder-{i}"))
}

pub fn log_of(p: &Pubkey) -> Pubkey {
    k(&format!("log-{p}"))
}

pub fn install() {
    register(GOV, Program::Native(gov_entry));
    for i in 0..2 {
        register(rec(i), Program::Builtin(recorder));
    }
}

pub fn governance() -> Pubkey {
    pda(&[b"governance"], &GOV)
}

pub fn placeholder(s: &str) -> Pubkey {
    let mut a = [0; 32];
    a[..s.len()].copy_from_slice(s.as_bytes());
    Pubkey::new_from_array(a)
}

pub fn replay_key(chain: u16, emitter: &[u8; 32], seq: u64) -> Pubkey {
    pda(&[b"replay", &chain.to_be_bytes(), emitter, &seq.to_be_bytes()], &GOV)
}

// --------------------------------------------------------------- wire format

pub fn body_wire(i: &Instruction) -> Vec<u8> {
    let mut d = i.program_id.to_bytes().to_vec();
    d.extend((i.accounts.len() as u16).to_be_bytes());
    for a in &i.accounts {
        d.extend(a.pubkey.to_bytes());
        d.push(a.is_signer as u8);
        d.push(a.is_writable as u8);
    }
    d.extend((i.data.len() as u16).to_be_bytes());
    d.extend(&i.data);
    d
}

/// The complete packet, with a header that can deviate.
#[derive(Clone, Debug)]
pub struct Packet {
    pub module: [u8; 32],
    pub action: u8,
    pub chain: u16,
    pub gov: [u8; 32],
    pub body: Vec<u8>,
}

impl Packet {
    pub fn honest(i: &Instruction) -> Packet {
        Packet {
            module: *MODULE,
            action: 2,
            chain: 1,
            gov: GOV.to_bytes(),
            body: body_wire(i),
        }
    }
    pub fn wire(&self) -> Vec<u8> {
        let mut d = self.module.to_vec();
        d.push(self.action);
        d.extend(self.chain.to_be_bytes());
        d.extend(self.gov);
        d.extend(&self.body);
        d
    }
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub packet: Packet,
    pub emitter_chain: u16,
    pub emitter: [u8; 32],
    pub seq: u64,
    pub owner: Pubkey,
    pub tag: [u8; 3],
}

impl Msg {
    pub fn honest(i: &Instruction, seq: u64) -> Msg {
        Msg {
            packet: Packet::honest(i),
            emitter_chain: 1,
            emitter: EMITTER,
            seq,
            owner: CORE,
            tag: *b"vaa",
        }
    }
    pub fn acct(&self) -> Acct {
        let data = Posted {
            finality: 1,
            timestamp: 7,
            nonce: self.seq as u32 ^ 0x55,
            sequence: self.seq,
            emitter_chain: self.emitter_chain,
            emitter: self.emitter,
            payload: self.packet.wire(),
        }
        .to_data(&self.tag);
        Acct {
            lamports: rent_min(data.len()),
            owner: self.owner,
            executable: false,
            data,
        }
    }
    pub fn replay(&self) -> Pubkey {
        replay_key(self.emitter_chain, &self.emitter, self.seq)
    }
    pub fn genuine(&self) -> bool {
        self.emitter_chain == 1
            && self.emitter == EMITTER
            && self.owner == CORE
            && self.tag == *b"vaa"
            && self.packet.module == *MODULE
            && self.packet.action == 2
            && self.packet.chain == 1
            && self.packet.gov == GOV.to_bytes()
    }
}

/// The governance transaction: `extra` are the remaining accounts.
pub fn gov_ix(payer: Pubkey, vaa: Pubkey, program: Pubkey, replay: Pubkey, extra: &[AccountMeta]) -> Instruction {
    let mut a = vec![
        AccountMeta::new(payer, true),
        AccountMeta::new(governance(), false),
        AccountMeta::new_readonly(vaa, false),
        AccountMeta::new_readonly(program, false),
        AccountMeta::new(replay, false),
        AccountMeta::new_readonly(system_program::ID, false),
    ];
    a.extend_from_slice(extra);
    ix(GOV, "governance", &[], a)
}

/// The instruction governance has to run, with its placeholders filled in.
pub fn resolved(i: &Instruction, payer: Pubkey) -> Instruction {
    let mut i = i.clone();
    for a in i.accounts.iter_mut() {
        if a.pubkey == placeholder("owner") {
            a.pubkey = governance();
        } else if a.pubkey == placeholder("payer") {
            a.pubkey = payer;
        }
    }
    i
}

/// The accounts a submitter attaches: everything the call names.
pub fn attach(i: &Instruction, payer: Pubkey) -> Vec<AccountMeta> {
    let mut v: Vec<AccountMeta> = vec![];
    for a in resolved(i, payer).accounts {
        if a.pubkey == payer || a.pubkey == governance() {
            continue;
        }
        match v.iter_mut().find(|x| x.pubkey == a.pubkey) {
            Some(x) => x.is_writable |= a.is_writable,
            None => v.push(AccountMeta {
                pubkey: a.pubkey,
                is_signer: false,
                is_writable: a.is_writable,
            }),
        }
    }
    v
}


/// Submits `m`, which carries the call `i`.
pub fn submit(w: &World, name: &str, m: &Msg, i: &Instruction) -> Result<World, String> {
    let mut w = w.clone();
    w.set(k(name), m.acct());
    let p = k("payer");
    exec(&w, &[gov_ix(p, k(name), i.program_id, m.replay(), &attach(i, p))]).map(|t| t.world)
}
pub fn log(w: &World, i: u8) -> Vec<u8> {
    w.data(&log_of(&rec(i))).map(|d| d.to_vec()).unwrap_or_default()
}
pub fn gov_world() -> World {
    install();
    let s = Setup::default();
    let mut w = s.genesis();
    w.set(governance(), wallet(5_000_000_000));
    w
}
