//! Client side: addresses, instruction builders and account decoders, written
//! against the programs' external interface only (instruction names, account
//! order, argument encoding, account layouts).

use crate::programs::*;
use crate::svm::World;
use solana_program::{
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::{cell::RefCell, collections::HashMap};

pub static MGR: Pubkey = example_native_token_transfers::ID;
pub static XCVR: Pubkey = ntt_transceiver::ID;
pub static QTR: Pubkey = ntt_quoter::ID;
pub static HOOK: Pubkey = dummy_transfer_hook::ID;

/// A key of an ordinary wallet or account, named for readability of traces.
pub fn k(name: &str) -> Pubkey {
    thread_local!(static C: RefCell<HashMap<String, Pubkey>> = RefCell::default());
    C.with(|c| {
        *c.borrow_mut()
            .entry(name.to_string())
            .or_insert_with(|| Pubkey::new_from_array(hashv(&[b"key:", name.as_bytes()]).to_bytes()))
    })
}

pub fn pda_bump(seeds: &[&[u8]], prog: &Pubkey) -> (Pubkey, u8) {
    thread_local!(static C: RefCell<HashMap<Vec<u8>, (Pubkey, u8)>> = RefCell::default());
    let mut key = prog.to_bytes().to_vec();
    for s in seeds {
        key.push(s.len() as u8);
        key.extend_from_slice(s);
    }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry(key)
            .or_insert_with(|| Pubkey::find_program_address(seeds, prog))
    })
}

pub fn pda(seeds: &[&[u8]], prog: &Pubkey) -> Pubkey {
    pda_bump(seeds, prog).0
}

pub fn ata(owner: &Pubkey, mint: &Pubkey, tp: &Pubkey) -> Pubkey {
    pda(&[owner.as_ref(), tp.as_ref(), mint.as_ref()], &ATA)
}

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    thread_local!(static C: RefCell<HashMap<String, [u8; 8]>> = RefCell::default());
    let s = format!("{ns}:{name}");
    C.with(|c| {
        *c.borrow_mut()
            .entry(s.clone())
            .or_insert_with(|| hashv(&[s.as_bytes()]).to_bytes()[..8].try_into().unwrap())
    })
}

fn w(key: Pubkey) -> AccountMeta {
    AccountMeta::new(key, false)
}
fn ws(key: Pubkey) -> AccountMeta {
    AccountMeta::new(key, true)
}
fn r(key: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(key, false)
}
fn rs(key: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(key, true)
}

pub fn ix(prog: Pubkey, name: &str, args: &[&[u8]], accounts: Vec<AccountMeta>) -> Instruction {
    let mut data = disc("global", name).to_vec();
    for a in args {
        data.extend_from_slice(a);
    }
    Instruction {
        program_id: prog,
        accounts,
        data,
    }
}

// ------------------------------------------------------------- addresses

pub fn config() -> Pubkey {
    pda(&[b"config"], &MGR)
}
pub fn outbox_rl() -> Pubkey {
    pda(&[b"outbox_rate_limit"], &MGR)
}
pub fn inbox_rl(chain: u16) -> Pubkey {
    pda(&[b"inbox_rate_limit", &chain.to_be_bytes()], &MGR)
}
pub fn peer(chain: u16) -> Pubkey {
    pda(&[b"peer", &chain.to_be_bytes()], &MGR)
}
pub fn xpeer(prog: &Pubkey, chain: u16) -> Pubkey {
    pda(&[b"transceiver_peer", &chain.to_be_bytes()], prog)
}
pub fn registered(t: &Pubkey) -> Pubkey {
    pda(&[b"registered_transceiver", t.as_ref()], &MGR)
}
pub fn token_authority() -> Pubkey {
    pda(&[b"token_authority"], &MGR)
}
pub fn upgrade_lock() -> Pubkey {
    pda(&[b"upgrade_lock"], &MGR)
}
pub fn program_data_key(prog: &Pubkey) -> Pubkey {
    pda(&[prog.as_ref()], &LOADER)
}
pub fn session_authority(owner: &Pubkey, a: &TransferArgs) -> Pubkey {
    pda(&[b"session_authority", owner.as_ref(), &a.keccak()], &MGR)
}
pub fn inbox_item(chain: u16, m: &NttMsg) -> Pubkey {
    pda(&[b"inbox_item", &m.digest(chain)], &MGR)
}
pub fn vtm(prog: &Pubkey, chain: u16, id: &[u8; 32]) -> Pubkey {
    pda(&[b"transceiver_message", &chain.to_be_bytes(), id], prog)
}
pub fn emitter(prog: &Pubkey) -> Pubkey {
    pda(&[b"emitter"], prog)
}
pub fn wh_message(prog: &Pubkey, outbox: &Pubkey) -> Pubkey {
    pda(&[b"message", outbox.as_ref()], prog)
}
pub fn bridge() -> Pubkey {
    pda(&[b"Bridge"], &CORE)
}
pub fn fee_collector() -> Pubkey {
    pda(&[b"fee_collector"], &CORE)
}
pub fn sequence(emitter: &Pubkey) -> Pubkey {
    pda(&[b"Sequence", emitter.as_ref()], &CORE)
}
pub fn outbox_signer(t: &Pubkey) -> Pubkey {
    pda(&[b"outbox_item_signer"], t)
}

// ------------------------------------------------------------- messages

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TransferArgs {
    pub amount: u64,
    pub chain: u16,
    pub recipient: [u8; 32],
    pub queue: bool,
}

impl TransferArgs {
    pub fn keccak(&self) -> [u8; 32] {
        solana_program::keccak::hashv(&[
            &self.amount.to_be_bytes(),
            &self.chain.to_be_bytes(),
            &self.recipient,
            &[self.queue as u8],
        ])
        .to_bytes()
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut d = self.amount.to_le_bytes().to_vec();
        d.extend_from_slice(&self.chain.to_le_bytes());
        d.extend_from_slice(&self.recipient);
        d.push(self.queue as u8);
        d
    }
}

/// The manager-level message: what is hashed to identify an inbound transfer.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NttMsg {
    pub id: [u8; 32],
    pub sender: [u8; 32],
    pub decimals: u8,
    pub amount: u64,
    pub source_token: [u8; 32],
    pub to: [u8; 32],
    pub to_chain: u16,
}

/// Everything a Wormhole transceiver message carries.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct XMsg {
    pub source_manager: [u8; 32],
    pub recipient_manager: [u8; 32],
    pub msg: NttMsg,
    pub extra: Vec<u8>,
}

impl NttMsg {
    pub fn zero() -> NttMsg {
        NttMsg {
            id: [0; 32],
            sender: [0; 32],
            decimals: 0,
            amount: 0,
            source_token: [0; 32],
            to: [0; 32],
            to_chain: 0,
        }
    }
    /// docs/NttManager.md + docs/Transceiver.md wire format, big endian
    pub fn wire(&self) -> Vec<u8> {
        let mut p = vec![0x99, 0x4E, 0x54, 0x54];
        p.push(self.decimals);
        p.extend_from_slice(&self.amount.to_be_bytes());
        p.extend_from_slice(&self.source_token);
        p.extend_from_slice(&self.to);
        p.extend_from_slice(&self.to_chain.to_be_bytes());
        let mut d = self.id.to_vec();
        d.extend_from_slice(&self.sender);
        d.extend_from_slice(&(p.len() as u16).to_be_bytes());
        d.extend_from_slice(&p);
        d
    }
    pub fn digest(&self, chain: u16) -> [u8; 32] {
        solana_program::keccak::hashv(&[&chain.to_be_bytes(), &self.wire()]).to_bytes()
    }
    /// Account (borsh) layout.
    pub fn borsh(&self) -> Vec<u8> {
        let mut d = self.id.to_vec();
        d.extend_from_slice(&self.sender);
        d.extend_from_slice(&self.amount.to_le_bytes());
        d.push(self.decimals);
        d.extend_from_slice(&self.source_token);
        d.extend_from_slice(&self.to_chain.to_le_bytes());
        d.extend_from_slice(&self.to);
        d
    }
}

impl XMsg {
    pub fn wire(&self) -> Vec<u8> {
        let mut d = vec![0x99, 0x45, 0xFF, 0x10];
        d.extend_from_slice(&self.source_manager);
        d.extend_from_slice(&self.recipient_manager);
        let m = self.msg.wire();
        d.extend_from_slice(&(m.len() as u16).to_be_bytes());
        d.extend_from_slice(&m);
        d.extend_from_slice(&(self.extra.len() as u16).to_be_bytes());
        d.extend_from_slice(&self.extra);
        d
    }
    /// Strict parse: consistent lengths, nothing left over.
    pub fn parse(d: &[u8]) -> Option<XMsg> {
        let x = Self::parse_prefix(d)?;
        (x.wire() == d).then_some(x)
    }
    /// Parses a message at the start of `d` (length fields of nested
    /// fixed-size parts are redundant and not interpreted).
    pub fn parse_prefix(d: &[u8]) -> Option<XMsg> {
        let mut i = 0;
        let mut take = |n: usize| -> Option<&[u8]> {
            let r = d.get(i..i + n)?;
            i += n;
            Some(r)
        };
        if take(4)? != [0x99, 0x45, 0xFF, 0x10] {
            return None;
        }
        let a32 = |x: &[u8]| -> [u8; 32] { x.try_into().unwrap() };
        let source_manager = a32(take(32)?);
        let recipient_manager = a32(take(32)?);
        take(2)?;
        let id = a32(take(32)?);
        let sender = a32(take(32)?);
        take(2)?;
        if take(4)? != [0x99, 0x4E, 0x54, 0x54] {
            return None;
        }
        let decimals = take(1)?[0];
        let amount = u64::from_be_bytes(take(8)?.try_into().unwrap());
        let source_token = a32(take(32)?);
        let to = a32(take(32)?);
        let to_chain = u16::from_be_bytes(take(2)?.try_into().unwrap());
        let el = u16::from_be_bytes(take(2)?.try_into().unwrap());
        let extra = take(el as usize)?.to_vec();
        Some(XMsg {
            source_manager,
            recipient_manager,
            msg: NttMsg {
                id,
                sender,
                decimals,
                amount,
                source_token,
                to,
                to_chain,
            },
            extra,
        })
    }
}

// ------------------------------------------------------------- deployment

/// The addresses a client needs to talk to one deployment.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dep {
    pub burning: bool,
    pub tp: Pubkey,
    pub mint: Pubkey,
    pub chain: u16,
}

impl Dep {
    pub fn custody(&self) -> Pubkey {
        ata(&token_authority(), &self.mint, &self.tp)
    }
    pub fn ata(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.mint, &self.tp)
    }

    pub fn initialize(&self, payer: Pubkey, deployer: Pubkey, limit: u64) -> Instruction {
        ix(
            MGR,
            "initialize",
            &[
                &self.chain.to_le_bytes(),
                &limit.to_le_bytes(),
                &[self.burning as u8],
            ],
            vec![
                ws(payer),
                rs(deployer),
                r(program_data_key(&MGR)),
                w(config()),
                r(self.mint),
                w(outbox_rl()),
                r(token_authority()),
                w(self.custody()),
                r(self.tp),
                r(ATA),
                r(LOADER),
                r(system_program::ID),
            ],
        )
    }

    /// `burn_ix` selects the instruction independently of the deployment's mode.
    pub fn transfer_raw(
        &self,
        burn_ix: bool,
        payer: Pubkey,
        from: Pubkey,
        from_owner: &Pubkey,
        outbox: Pubkey,
        a: &TransferArgs,
        extra: &[AccountMeta],
    ) -> Instruction {
        let mut acc = vec![
            ws(payer),
            r(config()),
            w(self.mint),
            w(from),
            r(self.tp),
            ws(outbox),
            w(outbox_rl()),
            w(self.custody()),
            r(system_program::ID),
            w(inbox_rl(a.chain)),
            r(peer(a.chain)),
            r(session_authority(from_owner, a)),
        ];
        if burn_ix {
            acc.push(r(token_authority()));
        }
        acc.extend_from_slice(extra);
        ix(
            MGR,
            if burn_ix { "transfer_burn" } else { "transfer_lock" },
            &[&a.encode()],
            acc,
        )
    }

    pub fn approve(&self, from: Pubkey, owner: Pubkey, delegate: Pubkey, amount: u64) -> Instruction {
        // spl-token Approve = 4 (same in token-2022)
        let mut data = vec![4u8];
        data.extend_from_slice(&amount.to_le_bytes());
        Instruction {
            program_id: self.tp,
            accounts: vec![w(from), r(delegate), rs(owner)],
            data,
        }
    }

    pub fn redeem(&self, payer: Pubkey, t: &Pubkey, chain: u16, vtm: Pubkey, m: &NttMsg) -> Instruction {
        ix(
            MGR,
            "redeem",
            &[],
            vec![
                ws(payer),
                r(config()),
                r(peer(chain)),
                r(vtm),
                r(registered(t)),
                r(self.mint),
                w(inbox_item(chain, m)),
                w(inbox_rl(chain)),
                w(outbox_rl()),
                r(system_program::ID),
            ],
        )
    }

    pub fn release_inbound(
        &self,
        burn_ix: bool,
        payer: Pubkey,
        item: Pubkey,
        recipient_ata: Pubkey,
        revert: bool,
        extra: &[AccountMeta],
    ) -> Instruction {
        let mut acc = vec![
            ws(payer),
            r(config()),
            w(item),
            w(recipient_ata),
            r(token_authority()),
            w(self.mint),
            r(self.tp),
            w(self.custody()),
        ];
        acc.extend_from_slice(extra);
        ix(
            MGR,
            if burn_ix {
                "release_inbound_mint"
            } else {
                "release_inbound_unlock"
            },
            &[&[revert as u8]],
            acc,
        )
    }

    pub fn broadcast_id(&self, prog: &Pubkey, payer: Pubkey, message: Pubkey) -> Instruction {
        let mut acc = vec![
            ws(payer),
            r(config()),
            r(self.mint),
            ws(message),
            r(emitter(prog)),
        ];
        acc.extend(wormhole_accounts(prog));
        ix(*prog, "broadcast_wormhole_id", &[], acc)
    }

    pub fn initialize_lut(&self, payer: Pubkey, slot: u64) -> Instruction {
        let auth = lut_authority();
        let mut acc = vec![
            ws(payer),
            r(auth),
            w(lut_address(slot)),
            w(lut_account()),
            r(ALT),
            r(system_program::ID),
            r(config()),
            r(self.custody()),
            r(self.tp),
            r(self.mint),
            r(token_authority()),
            r(outbox_rl()),
        ];
        acc.extend(wormhole_accounts(&MGR));
        ix(MGR, "initialize_lut", &[&slot.to_le_bytes()], acc)
    }
}

pub fn lut_authority() -> Pubkey {
    pda(&[b"lut_authority"], &MGR)
}
pub fn lut_account() -> Pubkey {
    pda(&[b"lut"], &MGR)
}
pub fn lut_address(slot: u64) -> Pubkey {
    pda(&[lut_authority().as_ref(), &slot.to_le_bytes()], &ALT)
}

pub fn wormhole_accounts(prog: &Pubkey) -> Vec<AccountMeta> {
    vec![
        w(bridge()),
        w(fee_collector()),
        w(sequence(&emitter(prog))),
        r(CORE),
        r(system_program::ID),
        r(sysvar::clock::ID),
        r(sysvar::rent::ID),
    ]
}

/// `prog` is the manager (built-in transceiver) or the standalone transceiver.
pub fn release_outbound(prog: &Pubkey, payer: Pubkey, outbox: Pubkey, revert: bool) -> Instruction {
    let mut acc = vec![
        ws(payer),
        r(config()),
        w(outbox),
        r(registered(prog)),
        w(wh_message(prog, &outbox)),
        r(emitter(prog)),
    ];
    acc.extend(wormhole_accounts(prog));
    if *prog == XCVR {
        acc.push(r(MGR));
        acc.push(r(outbox_signer(&XCVR)));
    }
    ix(*prog, "release_wormhole_outbound", &[&[revert as u8]], acc)
}

pub fn mark_released(signer: Pubkey, t: &Pubkey, outbox: Pubkey) -> Instruction {
    ix(
        MGR,
        "mark_outbox_item_as_released",
        &[],
        vec![rs(signer), r(config()), w(outbox), r(registered(t))],
    )
}

/// The same call made by transceiver program `t` (one of the proxies) with its PDA signing.
pub fn mark_released_via(t: &Pubkey, claim: &Pubkey, outbox: Pubkey) -> Instruction {
    let (signer, bump) = pda_bump(&[b"outbox_item_signer"], t);
    let inner = mark_released(signer, claim, outbox);
    proxy_ix(t, &[b"outbox_item_signer", &[bump]], inner)
}

/// Wraps `inner` into a call of proxy program `t`, which signs for the PDA of `seeds`.
pub fn proxy_ix(t: &Pubkey, seeds: &[&[u8]], inner: Instruction) -> Instruction {
    let mut data = vec![seeds.len() as u8];
    for s in seeds {
        data.push(s.len() as u8);
        data.extend_from_slice(s);
    }
    data.extend_from_slice(&inner.data);
    let pda = if seeds.is_empty() {
        None
    } else {
        Pubkey::create_program_address(seeds, t).ok()
    };
    let mut accounts = vec![r(inner.program_id)];
    accounts.extend(inner.accounts.into_iter().map(|mut m| {
        if Some(m.pubkey) == pda {
            m.is_signer = false;
        }
        m
    }));
    Instruction {
        program_id: *t,
        accounts,
        data,
    }
}

pub fn receive(prog: &Pubkey, payer: Pubkey, vaa: Pubkey, chain: u16, id: &[u8; 32]) -> Instruction {
    ix(
        *prog,
        "receive_wormhole_message",
        &[],
        vec![
            ws(payer),
            r(config()),
            r(xpeer(prog, chain)),
            r(vaa),
            w(vtm(prog, chain, id)),
            r(system_program::ID),
        ],
    )
}

pub fn broadcast_peer(prog: &Pubkey, payer: Pubkey, message: Pubkey, chain: u16) -> Instruction {
    let mut acc = vec![
        ws(payer),
        r(config()),
        r(xpeer(prog, chain)),
        ws(message),
        r(emitter(prog)),
    ];
    acc.extend(wormhole_accounts(prog));
    ix(*prog, "broadcast_wormhole_peer", &[&chain.to_le_bytes()], acc)
}

// admin

pub fn set_paused(owner: Pubkey, p: bool) -> Instruction {
    ix(MGR, "set_paused", &[&[p as u8]], vec![rs(owner), w(config())])
}
pub fn set_peer(
    payer: Pubkey,
    owner: Pubkey,
    chain: u16,
    addr: &[u8; 32],
    limit: u64,
    dec: u8,
) -> Instruction {
    ix(
        MGR,
        "set_peer",
        &[&chain.to_le_bytes(), addr, &limit.to_le_bytes(), &[dec]],
        vec![
            ws(payer),
            rs(owner),
            r(config()),
            w(peer(chain)),
            w(inbox_rl(chain)),
            r(system_program::ID),
        ],
    )
}
pub fn set_xpeer(prog: &Pubkey, payer: Pubkey, owner: Pubkey, chain: u16, addr: &[u8; 32]) -> Instruction {
    ix(
        *prog,
        "set_wormhole_peer",
        &[&chain.to_le_bytes(), addr],
        vec![
            r(config()),
            rs(owner),
            ws(payer),
            w(xpeer(prog, chain)),
            r(system_program::ID),
        ],
    )
}
pub fn register_transceiver(payer: Pubkey, owner: Pubkey, t: &Pubkey) -> Instruction {
    ix(
        MGR,
        "register_transceiver",
        &[],
        vec![
            w(config()),
            rs(owner),
            ws(payer),
            r(*t),
            w(registered(t)),
            r(system_program::ID),
        ],
    )
}
pub fn set_outbound_limit(owner: Pubkey, limit: u64) -> Instruction {
    ix(
        MGR,
        "set_outbound_limit",
        &[&limit.to_le_bytes()],
        vec![r(config()), rs(owner), w(outbox_rl())],
    )
}
pub fn set_inbound_limit(owner: Pubkey, chain: u16, limit: u64) -> Instruction {
    ix(
        MGR,
        "set_inbound_limit",
        &[&limit.to_le_bytes(), &chain.to_le_bytes()],
        vec![r(config()), rs(owner), w(inbox_rl(chain))],
    )
}
pub fn transfer_ownership(one_step: bool, owner: Pubkey, new: Pubkey) -> Instruction {
    ix(
        MGR,
        if one_step {
            "transfer_ownership_one_step_unchecked"
        } else {
            "transfer_ownership"
        },
        &[],
        vec![
            w(config()),
            rs(owner),
            r(new),
            r(upgrade_lock()),
            w(program_data_key(&MGR)),
            r(LOADER),
        ],
    )
}
pub fn claim_ownership(new: Pubkey) -> Instruction {
    ix(
        MGR,
        "claim_ownership",
        &[],
        vec![
            w(config()),
            r(upgrade_lock()),
            rs(new),
            w(program_data_key(&MGR)),
            r(LOADER),
        ],
    )
}

// ------------------------------------------------------------- decoders

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> Option<i64> {
        Some(i64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    pub fn b32(&mut self) -> Option<[u8; 32]> {
        Some(self.take(32)?.try_into().unwrap())
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.b32()?))
    }
    pub fn disc(&mut self, name: &str) -> Option<()> {
        (self.take(8)? == disc("account", name)).then_some(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Config {
    pub owner: Pubkey,
    pub pending: Option<Pubkey>,
    pub mint: Pubkey,
    pub token_program: Pubkey,
    pub burning: bool,
    pub chain: u16,
    pub next_id: u8,
    pub threshold: u8,
    pub enabled: u128,
    pub paused: bool,
    pub custody: Pubkey,
}

impl Config {
    pub fn decode(d: &[u8]) -> Option<Config> {
        let mut r = Rd(d);
        r.disc("Config")?;
        r.u8()?;
        Some(Config {
            owner: r.key()?,
            pending: match r.u8()? {
                0 => None,
                _ => Some(r.key()?),
            },
            mint: r.key()?,
            token_program: r.key()?,
            burning: r.u8()? == 1,
            chain: r.u16()?,
            next_id: r.u8()?,
            threshold: r.u8()?,
            enabled: r.u128()?,
            paused: r.u8()? != 0,
            custody: r.key()?,
        })
    }
    /// Writes the configuration back, for injected starting states
    /// (thresholds above 1 and disabled transceivers have no instruction yet).
    pub fn encode_into(&self, d: &mut Vec<u8>) {
        let bump = d[8];
        let n = d.len();
        let mut o = disc("account", "Config").to_vec();
        o.push(bump);
        o.extend_from_slice(self.owner.as_ref());
        match self.pending {
            None => o.push(0),
            Some(p) => {
                o.push(1);
                o.extend_from_slice(p.as_ref())
            }
        }
        o.extend_from_slice(self.mint.as_ref());
        o.extend_from_slice(self.token_program.as_ref());
        o.push(self.burning as u8);
        o.extend_from_slice(&self.chain.to_le_bytes());
        o.push(self.next_id);
        o.push(self.threshold);
        o.extend_from_slice(&self.enabled.to_le_bytes());
        o.push(self.paused as u8);
        o.extend_from_slice(self.custody.as_ref());
        o.resize(n, 0);
        *d = o;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rl {
    pub limit: u64,
    pub cap: u64,
    pub last: i64,
}

impl Rl {
    pub fn decode_outbox(d: &[u8]) -> Option<Rl> {
        let mut r = Rd(d);
        r.disc("OutboxRateLimit")?;
        Some(Rl {
            limit: r.u64()?,
            cap: r.u64()?,
            last: r.i64()?,
        })
    }
    pub fn decode_inbox(d: &[u8]) -> Option<Rl> {
        let mut r = Rd(d);
        r.disc("InboxRateLimit")?;
        r.u8()?;
        Some(Rl {
            limit: r.u64()?,
            cap: r.u64()?,
            last: r.i64()?,
        })
    }
    pub fn bytes(&self) -> [u8; 24] {
        let mut b = [0; 24];
        b[..8].copy_from_slice(&self.limit.to_le_bytes());
        b[8..16].copy_from_slice(&self.cap.to_le_bytes());
        b[16..].copy_from_slice(&self.last.to_le_bytes());
        b
    }
    pub fn inject_outbox(&self, w: &mut World) {
        let b = self.bytes();
        w.edit(&outbox_rl(), |a| a.data[8..32].copy_from_slice(&b));
    }
    pub fn inject_inbox(&self, w: &mut World, chain: u16) {
        let b = self.bytes();
        w.edit(&inbox_rl(chain), |a| a.data[9..33].copy_from_slice(&b));
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Outbox {
    pub amount: u64,
    pub decimals: u8,
    pub sender: Pubkey,
    pub chain: u16,
    pub manager: [u8; 32],
    pub recipient: [u8; 32],
    pub release: i64,
    pub released: u128,
}

impl Outbox {
    pub fn decode(d: &[u8]) -> Option<Outbox> {
        let mut r = Rd(d);
        r.disc("OutboxItem")?;
        Some(Outbox {
            amount: r.u64()?,
            decimals: r.u8()?,
            sender: r.key()?,
            chain: r.u16()?,
            manager: r.b32()?,
            recipient: r.b32()?,
            release: r.i64()?,
            released: r.u128()?,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Status {
    NotApproved,
    ReleaseAfter(i64),
    Released,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Inbox {
    pub init: bool,
    pub amount: u64,
    pub recipient: Pubkey,
    pub votes: u128,
    pub status: Status,
}

impl Inbox {
    pub fn decode(d: &[u8]) -> Option<Inbox> {
        let mut r = Rd(d);
        r.disc("InboxItem")?;
        let init = r.u8()? != 0;
        r.u8()?;
        Some(Inbox {
            init,
            amount: r.u64()?,
            recipient: r.key()?,
            votes: r.u128()?,
            status: match r.u8()? {
                0 => Status::NotApproved,
                1 => Status::ReleaseAfter(r.i64()?),
                _ => Status::Released,
            },
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Peer {
    pub address: [u8; 32],
    pub decimals: u8,
}

impl Peer {
    pub fn decode(d: &[u8]) -> Option<Peer> {
        let mut r = Rd(d);
        r.disc("NttManagerPeer")?;
        r.u8()?;
        Some(Peer {
            address: r.b32()?,
            decimals: r.u8()?,
        })
    }
}

pub fn decode_xpeer(d: &[u8]) -> Option<[u8; 32]> {
    let mut r = Rd(d);
    r.disc("TransceiverPeer")?;
    r.u8()?;
    r.b32()
}

pub fn decode_registered(d: &[u8]) -> Option<(u8, Pubkey)> {
    let mut r = Rd(d);
    r.disc("RegisteredTransceiver")?;
    r.u8()?;
    Some((r.u8()?, r.key()?))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Vtm {
    pub chain: u16,
    pub msg: XMsg,
}

impl Vtm {
    pub fn decode(d: &[u8]) -> Option<Vtm> {
        let mut r = Rd(d);
        r.disc("ValidatedTransceiverMessage")?;
        let chain = r.u16()?;
        let source_manager = r.b32()?;
        let recipient_manager = r.b32()?;
        let id = r.b32()?;
        let sender = r.b32()?;
        let amount = r.u64()?;
        let decimals = r.u8()?;
        let source_token = r.b32()?;
        let to_chain = r.u16()?;
        let to = r.b32()?;
        Some(Vtm {
            chain,
            msg: XMsg {
                source_manager,
                recipient_manager,
                msg: NttMsg {
                    id,
                    sender,
                    decimals,
                    amount,
                    source_token,
                    to,
                    to_chain,
                },
                extra: vec![],
            },
        })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut d = disc("account", "ValidatedTransceiverMessage").to_vec();
        d.extend_from_slice(&self.chain.to_le_bytes());
        d.extend_from_slice(&self.msg.source_manager);
        d.extend_from_slice(&self.msg.recipient_manager);
        d.extend_from_slice(&self.msg.msg.borsh());
        d
    }
}

/// (amount, delegate, delegated amount) of a token account of either program.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TokAcct {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
}

pub fn decode_token(d: &[u8]) -> Option<TokAcct> {
    if d.len() < 165 || (d.len() > 165 && d[165] != 2) {
        return None;
    }
    let mut r = Rd(d);
    let mint = r.key()?;
    let owner = r.key()?;
    let amount = r.u64()?;
    let del = r.u32()?;
    let dk = r.key()?;
    r.take(1 + 12)?;
    let delegated = r.u64()?;
    Some(TokAcct {
        mint,
        owner,
        amount,
        delegate: (del == 1).then_some(dk),
        delegated,
    })
}

pub fn decode_mint(d: &[u8]) -> Option<(Option<Pubkey>, u64, u8)> {
    if d.len() < 82 || d.len() == 165 || (d.len() > 165 && d[165] != 1) {
        return None;
    }
    let mut r = Rd(d);
    let has = r.u32()?;
    let auth = r.key()?;
    Some(((has == 1).then_some(auth), r.u64()?, r.u8()?))
}
