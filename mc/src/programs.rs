//! Programs available in the mini-SVM: the repository's programs and the SPL
//! processors (real code), plus stand-ins for the chain's built-in programs
//! and for the Wormhole core bridge.

use crate::svm::{register, rent_min, Acct, Ctx, Program};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey,
    pubkey::Pubkey,
    system_program,
};

pub const CORE: Pubkey = pubkey!("worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth");
pub const ALT: Pubkey = pubkey!("AddressLookupTab1e1111111111111111111111111");
pub const LOADER: Pubkey = solana_program::bpf_loader_upgradeable::ID;
pub const ATA: Pubkey = spl_associated_token_account::ID;
pub const TOKEN: Pubkey = spl_token::ID;
pub const TOKEN22: Pubkey = spl_token_2022::ID;
/// Programs that forward an instruction, signing with their own PDAs: used
/// as additional transceivers and as an attacker's program.
pub const MOCK1: Pubkey = pubkey!("Mock111111111111111111111111111111111111111");
pub const MOCK2: Pubkey = pubkey!("Mock222222222222222222222222222222222222222");
pub const EVIL: Pubkey = pubkey!("Evi1111111111111111111111111111111111111111");

macro_rules! anchor_entry {
    ($name:ident, $f:path) => {
        pub fn $name(
            id: &Pubkey,
            accounts: &'static [AccountInfo<'static>],
            data: &[u8],
        ) -> ProgramResult {
            $f(id, accounts, data)
        }
    };
}

anchor_entry!(manager, example_native_token_transfers::entry);
anchor_entry!(transceiver, ntt_transceiver::entry);
anchor_entry!(quoter, ntt_quoter::entry);
anchor_entry!(hook, dummy_transfer_hook::entry);
anchor_entry!(token, spl_token::processor::Processor::process);
anchor_entry!(token22, spl_token_2022::processor::Processor::process);
anchor_entry!(ata, spl_associated_token_account::processor::process_instruction);

pub fn install() {
    crate::svm::install();
    register(system_program::ID, Program::Builtin(system));
    register(LOADER, Program::Builtin(loader));
    register(ALT, Program::Builtin(alt));
    register(CORE, Program::Builtin(core_bridge));
    register(TOKEN, Program::Native(token));
    register(TOKEN22, Program::Native(token22));
    register(ATA, Program::Native(ata));
    register(example_native_token_transfers::ID, Program::Native(manager));
    register(ntt_transceiver::ID, Program::Native(transceiver));
    register(ntt_quoter::ID, Program::Native(quoter));
    register(dummy_transfer_hook::ID, Program::Native(hook));
    for m in [MOCK1, MOCK2, EVIL] {
        register(m, Program::Native(proxy));
    }
}

fn u32_at(d: &[u8], i: usize) -> Result<u32, String> {
    Ok(u32::from_le_bytes(
        d.get(i..i + 4).ok_or("short ix data")?.try_into().unwrap(),
    ))
}
fn u64_at(d: &[u8], i: usize) -> Result<u64, String> {
    Ok(u64::from_le_bytes(
        d.get(i..i + 8).ok_or("short ix data")?.try_into().unwrap(),
    ))
}
fn key_at(d: &[u8], i: usize) -> Result<Pubkey, String> {
    Ok(Pubkey::try_from(d.get(i..i + 32).ok_or("short ix data")?).unwrap())
}

// ---------------------------------------------------------------- system

fn sys_transfer(c: &mut Ctx, from: &Pubkey, to: &Pubkey, n: u64) -> Result<(), String> {
    if !c.is_writable_key(from) || !c.is_writable_key(to) {
        return Err("system: account not writable".into());
    }
    let f = c.load(from);
    if f.owner != system_program::ID {
        return Err("ExternalAccountLamportSpend".into());
    }
    if !f.data.is_empty() {
        return Err("system: `from` must not carry data".into());
    }
    if f.lamports < n {
        return Err("system: insufficient lamports".into());
    }
    f.lamports -= n;
    c.load(to).lamports += n;
    Ok(())
}

fn sys_allocate(c: &mut Ctx, k: &Pubkey, signed: bool, space: u64) -> Result<(), String> {
    if !signed {
        return Err("system: allocate needs signature".into());
    }
    if !c.is_writable_key(k) {
        return Err("system: account not writable".into());
    }
    let a = c.load(k);
    if !a.data.is_empty() || a.owner != system_program::ID {
        return Err("system: account already in use".into());
    }
    a.data = vec![0; space as usize];
    Ok(())
}

fn sys_assign(c: &mut Ctx, k: &Pubkey, signed: bool, owner: &Pubkey) -> Result<(), String> {
    let a = c.load(k);
    if a.owner == *owner {
        return Ok(());
    }
    if !signed {
        return Err("system: assign needs signature".into());
    }
    if a.owner != system_program::ID {
        return Err("ModifiedProgramId".into());
    }
    if !c.is_writable_key(k) {
        return Err("system: account not writable".into());
    }
    c.load(k).owner = *owner;
    Ok(())
}

fn system(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    match u32_at(d, 0)? {
        0 => {
            let (from, to) = (c.acct_key(0)?, c.acct_key(1)?);
            let (lamports, space, owner) = (u64_at(d, 4)?, u64_at(d, 12)?, key_at(d, 20)?);
            if c.load(&to).lamports > 0 {
                return Err("system: account already in use".into());
            }
            let signed = c.is_signer(1);
            sys_allocate(c, &to, signed, space)?;
            sys_assign(c, &to, signed, &owner)?;
            if !c.is_signer(0) {
                return Err("system: `from` must sign".into());
            }
            sys_transfer(c, &from, &to, lamports)
        }
        1 => {
            let k = c.acct_key(0)?;
            let s = c.is_signer(0);
            sys_assign(c, &k, s, &key_at(d, 4)?)
        }
        2 => {
            let (from, to) = (c.acct_key(0)?, c.acct_key(1)?);
            if !c.is_signer(0) {
                return Err("system: `from` must sign".into());
            }
            sys_transfer(c, &from, &to, u64_at(d, 4)?)
        }
        8 => {
            let k = c.acct_key(0)?;
            let s = c.is_signer(0);
            sys_allocate(c, &k, s, u64_at(d, 4)?)
        }
        n => Err(format!("system: unsupported instruction {n}")),
    }
}

// ---------------------------------------------------------------- loader

/// Program data account of an upgradeable program.
pub fn program_data(authority: Option<Pubkey>) -> Acct {
    let mut data = vec![3, 0, 0, 0];
    data.extend_from_slice(&7u64.to_le_bytes());
    match authority {
        Some(a) => {
            data.push(1);
            data.extend_from_slice(a.as_ref());
        }
        None => {
            data.push(0);
            data.extend_from_slice(&[0; 32]);
        }
    }
    Acct {
        lamports: rent_min(data.len()),
        owner: LOADER,
        executable: false,
        data,
    }
}

pub fn program_data_authority(d: &[u8]) -> Option<Pubkey> {
    (d.len() >= 45 && d[12] == 1).then(|| Pubkey::try_from(&d[13..45]).unwrap())
}

fn loader(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    let tag = u32_at(d, 0)?;
    let (checked, new) = match tag {
        4 => (false, c.acct_key(2).ok()),
        7 => (true, Some(c.acct_key(2)?)),
        n => return Err(format!("loader: unsupported instruction {n}")),
    };
    let (pd, cur) = (c.acct_key(0)?, c.acct_key(1)?);
    let a = c.load(&pd).clone();
    if a.owner != LOADER || a.data.len() < 45 || a.data[0] != 3 {
        return Err("loader: not program data".into());
    }
    let auth = program_data_authority(&a.data).ok_or("loader: immutable")?;
    if auth != cur {
        return Err("loader: incorrect authority".into());
    }
    if !c.is_signer(1) || (checked && !c.is_signer(2)) {
        return Err("loader: missing signature".into());
    }
    if !c.is_writable_key(&pd) {
        return Err("loader: program data not writable".into());
    }
    let n = program_data(new).data;
    c.load(&pd).data[..45].copy_from_slice(&n);
    Ok(())
}

// ---------------------------------------------------------------- lookup tables

fn alt(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    match u32_at(d, 0)? {
        0 => {
            let slot = u64_at(d, 4)?;
            let bump = *d.get(12).ok_or("short ix data")?;
            let (lut, auth, payer) = (c.acct_key(0)?, c.acct_key(1)?, c.acct_key(2)?);
            if slot > c.slot() {
                return Err("alt: not a recent slot".into());
            }
            let want =
                Pubkey::create_program_address(&[auth.as_ref(), &slot.to_le_bytes(), &[bump]], &ALT)
                    .map_err(|_| "alt: bad seeds")?;
            if want != lut {
                return Err("alt: wrong table address".into());
            }
            if c.load(&lut).owner == ALT {
                return Ok(());
            }
            if !c.is_signer(2) {
                return Err("alt: payer must sign".into());
            }
            let rent = rent_min(56);
            let have = c.load(&lut).lamports;
            if have < rent {
                sys_transfer(c, &payer, &lut, rent - have)?;
            }
            let mut data = vec![0u8; 56];
            data[0] = 1;
            data[4..12].copy_from_slice(&u64::MAX.to_le_bytes());
            data[21] = 1;
            data[22..54].copy_from_slice(auth.as_ref());
            let a = c.load(&lut);
            a.owner = ALT;
            a.data = data;
            Ok(())
        }
        2 => {
            let (lut, auth) = (c.acct_key(0)?, c.acct_key(1)?);
            let n = u64_at(d, 4)? as usize;
            let a = c.load(&lut).clone();
            if a.owner != ALT || a.data.len() < 56 {
                return Err("alt: not a table".into());
            }
            if a.data[21] != 1 || a.data[22..54] != *auth.as_ref() || !c.is_signer(1) {
                return Err("alt: wrong authority".into());
            }
            let old = (a.data.len() - 56) / 32;
            if n == 0 || old + n > 256 {
                return Err("alt: table size".into());
            }
            let mut data = a.data.clone();
            for i in 0..n {
                data.extend_from_slice(key_at(d, 12 + 32 * i)?.as_ref());
            }
            let need = rent_min(data.len()).saturating_sub(a.lamports);
            if need > 0 {
                let payer = c.acct_key(2)?;
                if !c.is_signer(2) {
                    return Err("alt: payer must sign".into());
                }
                sys_transfer(c, &payer, &lut, need)?;
            }
            data[12..20].copy_from_slice(&c.slot().to_le_bytes());
            data[20] = old as u8;
            c.load(&lut).data = data;
            Ok(())
        }
        n => Err(format!("alt: unsupported instruction {n}")),
    }
}

pub fn alt_entries(d: &[u8]) -> Vec<Pubkey> {
    d.get(56..)
        .unwrap_or(&[])
        .chunks_exact(32)
        .map(|c| Pubkey::try_from(c).unwrap())
        .collect()
}

// ---------------------------------------------------------------- core bridge

pub fn bridge_data(fee: u64, last_lamports: u64) -> Acct {
    let mut data = vec![];
    data.extend_from_slice(&4u32.to_le_bytes());
    data.extend_from_slice(&last_lamports.to_le_bytes());
    data.extend_from_slice(&86400u32.to_le_bytes());
    data.extend_from_slice(&fee.to_le_bytes());
    Acct {
        lamports: rent_min(data.len()),
        owner: CORE,
        executable: false,
        data,
    }
}

/// Layout shared by posted messages ("msg") and posted VAAs ("vaa").
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Posted {
    pub finality: u8,
    pub timestamp: u32,
    pub nonce: u32,
    pub sequence: u64,
    pub emitter_chain: u16,
    pub emitter: [u8; 32],
    pub payload: Vec<u8>,
}

impl Posted {
    pub fn to_data(&self, tag: &[u8; 3]) -> Vec<u8> {
        let mut d = tag.to_vec();
        d.push(1);
        d.push(self.finality);
        d.extend_from_slice(&self.timestamp.to_le_bytes());
        d.extend_from_slice(&[0; 32]);
        d.extend_from_slice(&self.timestamp.to_le_bytes());
        d.extend_from_slice(&self.nonce.to_le_bytes());
        d.extend_from_slice(&self.sequence.to_le_bytes());
        d.extend_from_slice(&self.emitter_chain.to_le_bytes());
        d.extend_from_slice(&self.emitter);
        d.extend_from_slice(&(self.payload.len() as u32).to_le_bytes());
        d.extend_from_slice(&self.payload);
        d
    }
    pub fn from_data(tag: &[u8; 3], d: &[u8]) -> Option<Posted> {
        if d.len() < 95 || d[..3] != tag[..] {
            return None;
        }
        let n = u32::from_le_bytes(d[91..95].try_into().unwrap()) as usize;
        Some(Posted {
            finality: d[4],
            timestamp: u32::from_le_bytes(d[5..9].try_into().unwrap()),
            nonce: u32::from_le_bytes(d[45..49].try_into().unwrap()),
            sequence: u64::from_le_bytes(d[49..57].try_into().unwrap()),
            emitter_chain: u16::from_le_bytes(d[57..59].try_into().unwrap()),
            emitter: d[59..91].try_into().unwrap(),
            payload: d.get(95..95 + n)?.to_vec(),
        })
    }
}

pub fn vaa_account(p: &Posted) -> Acct {
    let data = p.to_data(b"vaa");
    Acct {
        lamports: rent_min(data.len()),
        owner: CORE,
        executable: false,
        data,
    }
}

fn core_bridge(c: &mut Ctx, d: &[u8]) -> Result<(), String> {
    if *d.first().ok_or("short ix data")? != 1 {
        return Err("core: unsupported instruction".into());
    }
    let nonce = u32_at(d, 1)?;
    let n = u32_at(d, 5)? as usize;
    let payload = d.get(9..9 + n).ok_or("short ix data")?.to_vec();
    let finality = *d.get(9 + n).ok_or("short ix data")?;
    let (cfg, msg, emitter, seq, payer, feec) = (
        c.acct_key(0)?,
        c.acct_key(1)?,
        c.acct_key(2)?,
        c.acct_key(3)?,
        c.acct_key(4)?,
        c.acct_key(5)?,
    );
    let pda = |s: &[&[u8]]| crate::client::pda(s, &CORE);
    if cfg != pda(&[b"Bridge"]) || feec != pda(&[b"fee_collector"]) {
        return Err("core: wrong bridge account".into());
    }
    if seq != pda(&[b"Sequence", emitter.as_ref()]) {
        return Err("core: wrong sequence account".into());
    }
    if !c.is_signer(1) || !c.is_signer(2) || !c.is_signer(4) {
        return Err("core: missing signature".into());
    }
    for k in [&cfg, &msg, &seq, &payer, &feec] {
        if !c.is_writable_key(k) {
            return Err("core: account not writable".into());
        }
    }
    let fee = u64_at(&c.load(&cfg).data, 16)?;
    let last = u64_at(&c.load(&cfg).data, 4)?;
    let have = c.load(&feec).lamports;
    if have.saturating_sub(last) < fee {
        return Err("core: insufficient fees".into());
    }
    c.load(&cfg).data[4..12].copy_from_slice(&have.to_le_bytes());
    if !c.load(&msg).data.is_empty() || c.load(&msg).owner != system_program::ID {
        return Err("core: message account already in use".into());
    }
    let sequence = {
        let s = c.load(&seq).clone();
        if s.owner == CORE {
            u64_at(&s.data, 0)?
        } else {
            let rent = rent_min(8);
            sys_transfer(c, &payer, &seq, rent.saturating_sub(s.lamports))?;
            let a = c.load(&seq);
            a.owner = CORE;
            a.data = vec![0; 8];
            0
        }
    };
    c.load(&seq).data.copy_from_slice(&(sequence + 1).to_le_bytes());
    let now = c.now();
    let p = Posted {
        // the core bridge stores the consistency level, not the enum index
        finality: match finality {
            0 => 1,
            1 => 32,
            _ => return Err("core: bad finality".into()),
        },
        timestamp: now as u32,
        nonce,
        sequence,
        emitter_chain: 1,
        emitter: emitter.to_bytes(),
        payload,
    };
    let data = p.to_data(b"msg");
    let need = rent_min(data.len()).saturating_sub(c.load(&msg).lamports);
    sys_transfer(c, &payer, &msg, need)?;
    let a = c.load(&msg);
    a.owner = CORE;
    a.data = data;
    Ok(())
}

// ---------------------------------------------------------------- proxy

/// `data = [n_seeds, (len, bytes)*, inner data]`; accounts: callee program
/// followed by the callee's accounts. If `n_seeds > 0` the PDA of the seeds signs.
fn proxy(id: &Pubkey, accts: &'static [AccountInfo<'static>], d: &[u8]) -> ProgramResult {
    let bad = ProgramError::InvalidInstructionData;
    let n = *d.first().ok_or(bad.clone())? as usize;
    let mut i = 1;
    let mut seeds: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let l = *d.get(i).ok_or(bad.clone())? as usize;
        seeds.push(d.get(i + 1..i + 1 + l).ok_or(bad.clone())?.to_vec());
        i += 1 + l;
    }
    let s: Vec<&[u8]> = seeds.iter().map(|s| &s[..]).collect();
    let pda = if n > 0 {
        Some(Pubkey::create_program_address(&s, id).map_err(|_| bad)?)
    } else {
        None
    };
    let ix = Instruction {
        program_id: *accts[0].key,
        accounts: accts[1..]
            .iter()
            .map(|a| AccountMeta {
                pubkey: *a.key,
                is_signer: a.is_signer || Some(*a.key) == pda,
                is_writable: a.is_writable,
            })
            .collect(),
        data: d[i..].to_vec(),
    };
    if n > 0 {
        solana_program::program::invoke_signed(&ix, accts, &[&s])
    } else {
        solana_program::program::invoke(&ix, accts)
    }
}
