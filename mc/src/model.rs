//! The reference model: an abstract observation of a deployment (`Obs`), the
//! operations anyone can attempt (`Op`), and for every operation the one
//! allowed outcome (`predict`): rejected, or accepted with exactly one
//! successor observation. The model is written from the documentation and the
//! property statements; every transition explored is executed on the real
//! programs in the mini-SVM and compared with it, field by field.

use crate::client::*;
use crate::programs::*;
use crate::svm::{exec, World};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

pub const DAY: i64 = 86_400;

/// Everything observable about a chain that the properties talk about.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obs {
    pub now: i64,
    pub config: Option<Config>,
    pub out_rl: BTreeMap<Pubkey, Rl>,
    pub in_rl: BTreeMap<Pubkey, Rl>,
    pub peers: BTreeMap<Pubkey, Peer>,
    /// key: account; value: owning transceiver program, peer address
    pub xpeers: BTreeMap<Pubkey, (Pubkey, [u8; 32])>,
    pub registered: BTreeMap<Pubkey, (u8, Pubkey)>,
    pub outbox: BTreeMap<Pubkey, Outbox>,
    pub inbox: BTreeMap<Pubkey, Inbox>,
    pub vtms: BTreeMap<Pubkey, (Pubkey, Vtm)>,
    pub tokens: BTreeMap<Pubkey, TokAcct>,
    pub mints: BTreeMap<Pubkey, (Option<Pubkey>, u64, u8)>,
    pub emitted: BTreeMap<Pubkey, Posted>,
    pub vaas: BTreeMap<Pubkey, Posted>,
    pub seqs: BTreeMap<Pubkey, u64>,
    pub authority: BTreeMap<Pubkey, Option<Pubkey>>,
    pub lut: Option<Pubkey>,
    pub tables: BTreeMap<Pubkey, (Option<Pubkey>, Vec<Pubkey>)>,
    pub fee: u64,
    /// lamports of plain wallets (payers of fees excepted when comparing)
    pub wallets: BTreeMap<Pubkey, u64>,
    /// accounts of the programs under test with unknown contents
    pub other: BTreeMap<Pubkey, Vec<u8>>,
}

pub fn observe(w: &World) -> Obs {
    let mut o = Obs {
        now: w.now,
        ..Obs::default()
    };
    for (k, a) in w.iter() {
        let d = &a.data[..];
        if a.owner == MGR || a.owner == XCVR {
            let mine = a.owner == MGR;
            if mine && *k == config() {
                if let Some(c) = Config::decode(d) {
                    o.config = Some(c);
                    continue;
                }
            }
            if mine {
                if let Some(x) = Rl::decode_outbox(d) {
                    o.out_rl.insert(*k, x);
                    continue;
                }
                if let Some(x) = Rl::decode_inbox(d) {
                    o.in_rl.insert(*k, x);
                    continue;
                }
                if let Some(x) = Peer::decode(d) {
                    o.peers.insert(*k, x);
                    continue;
                }
                if let Some(x) = decode_registered(d) {
                    o.registered.insert(*k, x);
                    continue;
                }
                if let Some(x) = Outbox::decode(d) {
                    o.outbox.insert(*k, x);
                    continue;
                }
                if let Some(x) = Inbox::decode(d) {
                    o.inbox.insert(*k, x);
                    continue;
                }
                if *k == lut_account() {
                    let mut r = Rd(d);
                    if r.disc("LUT").is_some() && r.u8().is_some() {
                        o.lut = r.key();
                        continue;
                    }
                }
            }
            if let Some(x) = decode_xpeer(d) {
                o.xpeers.insert(*k, (a.owner, x));
                continue;
            }
            if let Some(x) = Vtm::decode(d) {
                o.vtms.insert(*k, (a.owner, x));
                continue;
            }
            o.other.insert(*k, d.to_vec());
        } else if a.owner == TOKEN || a.owner == TOKEN22 {
            if let Some(t) = decode_token(d) {
                o.tokens.insert(*k, t);
            } else if let Some(m) = decode_mint(d) {
                o.mints.insert(*k, m);
            }
        } else if a.owner == CORE {
            if *k == bridge() {
                o.fee = u64::from_le_bytes(d[16..24].try_into().unwrap());
            } else if let Some(p) = Posted::from_data(b"msg", d) {
                o.emitted.insert(*k, p);
            } else if let Some(p) = Posted::from_data(b"vaa", d) {
                o.vaas.insert(*k, p);
            } else if d.len() == 8 {
                o.seqs.insert(*k, u64::from_le_bytes(d.try_into().unwrap()));
            }
        } else if a.owner == LOADER {
            o.authority.insert(*k, program_data_authority(d));
        } else if a.owner == ALT {
            let auth = (d.len() >= 56 && d[21] == 1).then(|| Pubkey::try_from(&d[22..54]).unwrap());
            let mut e = alt_entries(d);
            e.sort();
            e.dedup();
            o.tables.insert(*k, (auth, e));
        } else if a.owner == system_program::ID && d.is_empty() {
            o.wallets.insert(*k, a.lamports);
        } else if let Some(x) = Vtm::decode(d) {
            // delivered by some other transceiver program
            o.vtms.insert(*k, (a.owner, x));
        }
    }
    o
}

/// A divergence between the implementation and what is allowed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Div {
    pub op: String,
    /// "post:<field>", "accepted-despite:<reason>", "rejected", "effect-of-rejected", "inv:<name>"
    pub aspect: String,
    pub detail: String,
}

macro_rules! cmp_fields {
    ($out:ident, $op:expr, $want:ident, $got:ident, $($f:ident),*) => {
        $(if $want.$f != $got.$f {
            $out.push(Div {
                op: $op.to_string(),
                aspect: format!("post:{}", stringify!($f)),
                detail: diff(&$want.$f, &$got.$f),
            });
        })*
    };
}

fn diff<T: std::fmt::Debug>(want: &T, got: &T) -> String {
    format!("expected {want:?} but got {got:?}")
}

/// Compares observations, ignoring the lamports of `payer`.
pub fn compare(op: &str, want: &Obs, got: &Obs, payer: Option<Pubkey>) -> Vec<Div> {
    let mut out = vec![];
    let (mut want, mut got) = (want.clone(), got.clone());
    if let Some(p) = payer {
        want.wallets.remove(&p);
        got.wallets.remove(&p);
    }
    // a full limiter stays full: when it was last used does not matter
    for o in [&mut want, &mut got] {
        let now = o.now;
        for r in o.out_rl.values_mut().chain(o.in_rl.values_mut()) {
            if capacity(r, now) == Some(r.limit) {
                r.cap = r.limit;
                r.last = 0;
            }
        }
    }
    cmp_fields!(
        out, op, want, got, now, config, out_rl, in_rl, peers, xpeers, registered, outbox, inbox,
        vtms, tokens, mints, emitted, vaas, seqs, authority, lut, tables, fee, wallets, other
    );
    out
}

// ------------------------------------------------------------- operations

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    /// the same operation, submitted and paid for by this wallet
    By(Pubkey, Box<Op>),
    /// let time pass
    Advance(i64),
    /// environment: enabled transceivers and threshold as some other version of
    /// the deployment could have left them (no instruction changes them down)
    Quorum { enabled: u128, threshold: u8 },
    /// owner of a token account approves the session key of `args` for `amount`
    Approve {
        owner: Pubkey,
        from: Pubkey,
        delegate: Pubkey,
        amount: u64,
    },
    Transfer {
        burn: bool,
        payer: Pubkey,
        owner: Pubkey,
        from: Pubkey,
        outbox: Pubkey,
        args: TransferArgs,
        /// bundle an approval of this amount, signed by the owner
        approve: Option<u64>,
    },
    Publish {
        prog: Pubkey,
        outbox: Pubkey,
        revert: bool,
    },
    Mark {
        by: Pubkey,
        claim: Pubkey,
        outbox: Pubkey,
    },
    Receive {
        prog: Pubkey,
        vaa: Pubkey,
    },
    Redeem {
        t: Pubkey,
        vtm: Pubkey,
    },
    Release {
        burn: bool,
        item: Pubkey,
        to: Pubkey,
        revert: bool,
    },
    SetPaused(Pubkey, bool),
    SetPeer {
        signer: Pubkey,
        chain: u16,
        address: [u8; 32],
        limit: u64,
        decimals: u8,
    },
    SetXPeer {
        prog: Pubkey,
        signer: Pubkey,
        chain: u16,
        address: [u8; 32],
    },
    Register {
        signer: Pubkey,
        t: Pubkey,
    },
    SetOutLimit(Pubkey, u64),
    SetInLimit(Pubkey, u16, u64),
    GiveOwnership {
        one_step: bool,
        signer: Pubkey,
        new: Pubkey,
    },
    Claim(Pubkey),
    BroadcastId {
        prog: Pubkey,
        msg: Pubkey,
    },
    BroadcastPeer {
        prog: Pubkey,
        msg: Pubkey,
        chain: u16,
    },
    InitLut {
        payer: Pubkey,
        slot: u64,
    },
    Initialize {
        payer: Pubkey,
        deployer: Pubkey,
        limit: u64,
        dep: Dep,
    },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::By(_, o) => o.name(),
            Op::Advance(_) => "advance",
            Op::Quorum { .. } => "quorum",
            Op::Approve { .. } => "approve",
            Op::Transfer { .. } => "transfer",
            Op::Publish { .. } => "publish",
            Op::Mark { .. } => "mark",
            Op::Receive { .. } => "receive",
            Op::Redeem { .. } => "redeem",
            Op::Release { .. } => "release",
            Op::SetPaused(..) => "set_paused",
            Op::SetPeer { .. } => "set_peer",
            Op::SetXPeer { .. } => "set_xpeer",
            Op::Register { .. } => "register",
            Op::SetOutLimit(..) => "set_out_limit",
            Op::SetInLimit(..) => "set_in_limit",
            Op::GiveOwnership { .. } => "give_ownership",
            Op::Claim(_) => "claim",
            Op::BroadcastId { .. } => "broadcast_id",
            Op::BroadcastPeer { .. } => "broadcast_peer",
            Op::InitLut { .. } => "init_lut",
            Op::Initialize { .. } => "initialize",
        }
    }
    pub fn payer(&self) -> Pubkey {
        match self {
            Op::By(p, _) => *p,
            Op::Transfer { payer, .. }
            | Op::InitLut { payer, .. }
            | Op::Initialize { payer, .. } => *payer,
            _ => k("payer"),
        }
    }

    /// The instructions a client would submit for this operation.
    pub fn ixs(&self, w: &World, d: &Dep) -> Vec<Instruction> {
        let payer = k("payer");
        match self {
            Op::By(p, o) => {
                let old = o.payer();
                let mut v = o.ixs(w, d);
                for m in v.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
                    if m.pubkey == old {
                        m.pubkey = *p;
                    }
                }
                v
            }
            Op::Advance(_) | Op::Quorum { .. } => vec![],
            Op::Approve {
                owner,
                from,
                delegate,
                amount,
            } => vec![d.approve(*from, *owner, *delegate, *amount)],
            Op::Transfer {
                burn,
                payer,
                owner,
                from,
                outbox,
                args,
                approve,
            } => {
                let mut v = vec![];
                if let Some(n) = approve {
                    v.push(d.approve(*from, *owner, session_authority(owner, args), *n));
                }
                v.push(d.transfer_raw(*burn, *payer, *from, owner, *outbox, args, &[]));
                v
            }
            Op::Publish {
                prog,
                outbox,
                revert,
            } => vec![release_outbound(prog, payer, *outbox, *revert)],
            Op::Mark { by, claim, outbox } => vec![mark_released_via(by, claim, *outbox)],
            Op::Receive { prog, vaa } => {
                let (chain, id) = w
                    .data(vaa)
                    .and_then(|x| Posted::from_data(b"vaa", x))
                    .map(|p| {
                        let id = p
                            .payload
                            .get(70..102)
                            .map(|x| x.try_into().unwrap())
                            .unwrap_or([0; 32]);
                        (p.emitter_chain, id)
                    })
                    .unwrap_or((0, [0; 32]));
                vec![receive(prog, payer, *vaa, chain, &id)]
            }
            Op::Redeem { t, vtm } => {
                let v = w.data(vtm).and_then(Vtm::decode);
                let (chain, m) = match v {
                    Some(v) => (v.chain, v.msg.msg),
                    None => (0, NttMsg::zero()),
                };
                vec![d.redeem(payer, t, chain, *vtm, &m)]
            }
            Op::Release {
                burn,
                item,
                to,
                revert,
            } => vec![d.release_inbound(*burn, payer, *item, *to, *revert, &[])],
            Op::SetPaused(s, p) => vec![set_paused(*s, *p)],
            Op::SetPeer {
                signer,
                chain,
                address,
                limit,
                decimals,
            } => vec![set_peer(payer, *signer, *chain, address, *limit, *decimals)],
            Op::SetXPeer {
                prog,
                signer,
                chain,
                address,
            } => vec![set_xpeer(prog, payer, *signer, *chain, address)],
            Op::Register { signer, t } => vec![register_transceiver(payer, *signer, t)],
            Op::SetOutLimit(s, l) => vec![set_outbound_limit(*s, *l)],
            Op::SetInLimit(s, c, l) => vec![set_inbound_limit(*s, *c, *l)],
            Op::GiveOwnership {
                one_step,
                signer,
                new,
            } => vec![transfer_ownership(*one_step, *signer, *new)],
            Op::Claim(s) => vec![claim_ownership(*s)],
            Op::BroadcastId { prog, msg } => vec![d.broadcast_id(prog, payer, *msg)],
            Op::BroadcastPeer { prog, msg, chain } => {
                vec![broadcast_peer(prog, payer, *msg, *chain)]
            }
            Op::InitLut { payer, slot } => vec![d.initialize_lut(*payer, *slot)],
            Op::Initialize {
                payer,
                deployer,
                limit,
                dep,
            } => vec![dep.initialize(*payer, *deployer, *limit)],
        }
    }
}

// ------------------------------------------------------------- reference

/// Capacity of a limiter at `now`: linear refill over a day up to the limit.
pub fn capacity(r: &Rl, now: i64) -> Option<u64> {
    if r.last > now {
        return None;
    }
    let grown = (r.limit as u128) * ((now as i128 - r.last as i128) as u128) / (DAY as u128);
    Some((r.cap as u128 + grown).min(r.limit as u128) as u64)
}

/// `Some(Some(state))` consumed, `Some(None)` delayed, `None` impossible (clock went backwards)
pub fn consume(r: &Rl, now: i64, amount: u64) -> Option<Option<Rl>> {
    let c = capacity(r, now)?;
    Some((c >= amount).then(|| Rl {
        limit: r.limit,
        cap: c - amount,
        last: now,
    }))
}

pub fn refill(r: &Rl, now: i64, amount: u64) -> Option<Rl> {
    let c = capacity(r, now)?;
    Some(Rl {
        limit: r.limit,
        cap: (c as u128 + amount as u128).min(r.limit as u128) as u64,
        last: now,
    })
}

pub fn set_limit(r: &Rl, now: i64, limit: u64) -> Option<Rl> {
    let c = capacity(r, now)? as i128;
    let n = (c + limit as i128 - r.limit as i128).clamp(0, limit as i128);
    Some(Rl {
        limit,
        cap: n as u64,
        last: now,
    })
}

fn pow10(n: u32) -> Option<u128> {
    (n <= 38).then(|| 10u128.pow(n))
}

/// (trimmed amount, decimals, amount without dust) or None if it does not fit.
/// Decimals differences whose scale factor exceeds 64 bits are refused.
pub fn trim(amount: u64, from: u8, to: u8) -> Option<(u64, u8, u64)> {
    let d = 8.min(from).min(to);
    let f = pow10((from - d) as u32).filter(|f| *f <= u64::MAX as u128)?;
    let t = amount as u128 / f;
    Some((t as u64, d, (t * f) as u64))
}

pub fn untrim(amount: u64, from: u8, to: u8) -> Option<u64> {
    let diff = from.abs_diff(to) as u32;
    let f = pow10(diff).filter(|f| *f <= u64::MAX as u128)?;
    if to >= from {
        u64::try_from(amount as u128 * f).ok()
    } else {
        Some((amount as u128 / f) as u64)
    }
}

fn bit(m: u128, i: u8) -> bool {
    i < 128 && (m >> i) & 1 == 1
}

/// What must happen: rejected for (at least one of) the given reasons, or this.
pub type Pred = Result<Obs, Vec<&'static str>>;

struct Why(Vec<&'static str>);
impl Why {
    fn need(&mut self, c: bool, r: &'static str) {
        if !c {
            self.0.push(r)
        }
    }
}

fn emit(
    o: &mut Obs,
    prog: &Pubkey,
    account: Pubkey,
    payload: Vec<u8>,
) {
    let em = emitter(prog);
    let seq = o.seqs.get(&sequence(&em)).copied().unwrap_or(0);
    o.seqs.insert(sequence(&em), seq + 1);
    o.emitted.insert(
        account,
        Posted {
            finality: 32,
            timestamp: o.now as u32,
            nonce: 0,
            sequence: seq,
            emitter_chain: 1,
            emitter: em.to_bytes(),
            payload,
        },
    );
    let fee = o.fee;
    *o.wallets.entry(fee_collector()).or_insert(0) += fee;
}

pub fn predict(o: &Obs, op: &Op, d: &Dep) -> Pred {
    if let Op::By(_, op) = op {
        return predict(o, op, d);
    }
    let mut y = Why(vec![]);
    let mut n = o.clone();
    if let Op::Advance(s) = op {
        n.now += s;
        return Ok(n);
    }
    if let Op::Quorum { enabled, threshold } = op {
        let c = n.config.as_mut().unwrap();
        c.enabled = *enabled;
        c.threshold = *threshold;
        return Ok(n);
    }
    if let Op::Approve {
        owner,
        from,
        delegate,
        amount,
    } = op
    {
        return match n.tokens.get_mut(from) {
            Some(t) if t.owner == *owner => {
                t.delegate = Some(*delegate);
                t.delegated = *amount;
                Ok(n)
            }
            _ => Err(vec!["not-owner"]),
        };
    }
    if let Op::Initialize {
        deployer,
        limit,
        dep,
        ..
    } = op
    {
        return predict_init(o, deployer, *limit, dep);
    }
    let Some(c) = o.config.clone() else {
        return Err(vec!["not-initialized"]);
    };
    let now = o.now;
    match op {
        Op::By(..) => unreachable!(),
        Op::Advance(_) | Op::Quorum { .. } | Op::Approve { .. } | Op::Initialize { .. } => unreachable!(),
        Op::Transfer {
            burn,
            owner,
            from,
            outbox,
            args,
            approve,
            ..
        } => {
            y.need(!c.paused, "paused");
            y.need(c.burning == *burn, "mode");
            y.need(c.enabled != 0, "no-transceivers");
            y.need(!o.outbox.contains_key(outbox), "outbox-exists");
            let p = o.peers.get(&peer(args.chain));
            let irl = o.in_rl.get(&inbox_rl(args.chain)).copied();
            let orl = o.out_rl.get(&outbox_rl()).copied();
            let src = o.tokens.get(from);
            y.need(p.is_some() && irl.is_some(), "no-peer");
            y.need(src.map_or(false, |t| t.mint == c.mint), "token-account");
            let dec = o.mints.get(&c.mint).map_or(0, |m| m.2);
            let tr = p.and_then(|p| trim(args.amount, dec, p.decimals));
            y.need(tr.is_some(), "trim");
            let session = session_authority(owner, args);
            y.need(src.map_or(true, |t| t.owner == *owner), "session-owner");
            if let (Some(t), Some((_, _, amt))) = (src, tr) {
                let (del, lim) = match approve {
                    Some(a) => (Some(session), *a),
                    None => (t.delegate, t.delegated),
                };
                y.need(del == Some(session) && lim >= amt, "approval");
                y.need(t.amount >= amt, "balance");
            }
            if let (Some((_, _, amt)), Some(orl)) = (tr, orl) {
                match consume(&orl, now, amt) {
                    None => y.need(false, "clock"),
                    Some(None) => y.need(args.queue, "rate-limit"),
                    Some(Some(_)) => y.need(irl.map_or(true, |r| r.last <= now), "clock"),
                }
            }
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let (p, irl, orl, (tamt, tdec, amt)) =
                (p.unwrap(), irl.unwrap(), orl.unwrap(), tr.unwrap());
            let t = n.tokens.get_mut(from).unwrap();
            if let Some(a) = approve {
                t.delegate = Some(session);
                t.delegated = *a;
            }
            t.amount -= amt;
            t.delegated -= amt;
            if t.delegated == 0 {
                t.delegate = None;
            }
            let sender = t.owner;
            if *burn {
                n.mints.get_mut(&c.mint).unwrap().1 -= amt;
            } else {
                n.tokens.get_mut(&c.custody).unwrap().amount += amt;
            }
            let release = match consume(&orl, now, amt).unwrap() {
                Some(r) => {
                    n.out_rl.insert(outbox_rl(), r);
                    n.in_rl
                        .insert(inbox_rl(args.chain), refill(&irl, now, amt).unwrap());
                    now
                }
                None => now + DAY,
            };
            n.outbox.insert(
                *outbox,
                Outbox {
                    amount: tamt,
                    decimals: tdec,
                    sender,
                    chain: args.chain,
                    manager: p.address,
                    recipient: args.recipient,
                    release,
                    released: 0,
                },
            );
            Ok(n)
        }
        Op::Publish {
            prog,
            outbox,
            revert,
        } => {
            y.need(!c.paused, "paused");
            let it = o.outbox.get(outbox);
            let reg = o.registered.get(&registered(prog));
            y.need(it.is_some(), "no-item");
            y.need(reg.is_some(), "unregistered");
            let id = reg.map_or(255, |r| r.0);
            y.need(reg.is_none() || bit(c.enabled, id), "disabled");
            y.need(
                it.map_or(true, |i| !bit(i.released, id)),
                "already-published",
            );
            let due = it.map_or(true, |i| i.release <= now);
            y.need(due || !revert, "too-early");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            if !due {
                return Ok(n);
            }
            let it = it.unwrap();
            n.outbox.get_mut(outbox).unwrap().released |= 1 << id;
            let x = XMsg {
                source_manager: MGR.to_bytes(),
                recipient_manager: it.manager,
                msg: NttMsg {
                    id: outbox.to_bytes(),
                    sender: it.sender.to_bytes(),
                    decimals: it.decimals,
                    amount: it.amount,
                    source_token: c.mint.to_bytes(),
                    to: it.recipient,
                    to_chain: it.chain,
                },
                extra: vec![],
            };
            emit(&mut n, prog, wh_message(prog, outbox), x.wire());
            Ok(n)
        }
        Op::Mark { by, claim, outbox } => {
            y.need(!c.paused, "paused");
            let it = o.outbox.get(outbox);
            let reg = o.registered.get(&registered(claim));
            y.need(it.is_some(), "no-item");
            y.need(reg.is_some(), "unregistered");
            y.need(by == claim, "not-signed-by-transceiver");
            let id = reg.map_or(255, |r| r.0);
            y.need(reg.is_none() || bit(c.enabled, id), "disabled");
            y.need(
                it.map_or(true, |i| !bit(i.released, id)),
                "already-published",
            );
            if !y.0.is_empty() {
                return Err(y.0);
            }
            if it.unwrap().release <= now {
                n.outbox.get_mut(outbox).unwrap().released |= 1 << id;
            }
            Ok(n)
        }
        Op::Receive { prog, vaa } => {
            y.need(!c.paused, "paused");
            let Some(v) = o.vaas.get(vaa) else {
                y.need(false, "not-a-vaa");
                return Err(y.0);
            };
            let pa = o.xpeers.get(&xpeer(prog, v.emitter_chain));
            y.need(
                pa.map_or(false, |p| p.0 == *prog && p.1 == v.emitter),
                "not-from-peer",
            );
            let x = XMsg::parse_prefix(&v.payload);
            y.need(x.is_some(), "malformed");
            if let Some(x) = &x {
                y.need(x.msg.to_chain == c.chain, "wrong-chain");
                y.need(
                    !o.vtms.contains_key(&vtm(prog, v.emitter_chain, &x.msg.id)),
                    "already-received",
                );
            }
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let x = x.unwrap();
            n.vtms.insert(
                vtm(prog, v.emitter_chain, &x.msg.id),
                (
                    *prog,
                    Vtm {
                        chain: v.emitter_chain,
                        msg: XMsg { extra: vec![], ..x },
                    },
                ),
            );
            Ok(n)
        }
        Op::Redeem { t, vtm } => {
            let Some((vowner, v)) = o.vtms.get(vtm) else {
                y.need(false, "not-delivered");
                return Err(y.0);
            };
            let reg = o.registered.get(&registered(t));
            y.need(reg.is_some(), "unregistered");
            y.need(reg.map_or(true, |r| r.1 == *vowner), "foreign-message");
            let id = reg.map_or(255, |r| r.0);
            y.need(reg.is_none() || bit(c.enabled, id), "disabled");
            y.need(c.threshold > 0, "zero-threshold");
            let p = o.peers.get(&peer(v.chain));
            y.need(
                p.map_or(false, |p| p.address == v.msg.source_manager),
                "not-from-peer",
            );
            y.need(v.msg.recipient_manager == MGR.to_bytes(), "wrong-manager");
            y.need(v.msg.msg.to_chain == c.chain, "wrong-chain");
            let dec = o.mints.get(&c.mint).map_or(0, |m| m.2);
            let amt = untrim(v.msg.msg.amount, v.msg.msg.decimals, dec);
            y.need(amt.is_some(), "amount");
            let irl = o.in_rl.get(&inbox_rl(v.chain)).copied();
            y.need(irl.is_some(), "no-peer");
            let key = inbox_item(v.chain, &v.msg.msg);
            let mut it = o.inbox.get(&key).cloned();
            if it.is_none() {
                it = amt.map(|amount| Inbox {
                    init: true,
                    amount,
                    recipient: Pubkey::new_from_array(v.msg.msg.to),
                    votes: 0,
                    status: Status::NotApproved,
                });
            }
            let mut quorum = false;
            if let (Some(it), true) = (it.as_mut(), id < 128) {
                it.votes |= 1 << id;
                quorum = (it.votes & c.enabled).count_ones() >= c.threshold as u32;
                y.need(!quorum || it.status == Status::NotApproved, "already-approved");
                if quorum {
                    let orl = o.out_rl.get(&outbox_rl());
                    y.need(
                        irl.map_or(true, |r| r.last <= now)
                            && orl.map_or(true, |r| r.last <= now),
                        "clock",
                    );
                }
            }
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let mut it = it.unwrap();
            if quorum {
                let amt = amt.unwrap();
                let at = match consume(&irl.unwrap(), now, amt).unwrap() {
                    Some(r) => {
                        n.in_rl.insert(inbox_rl(v.chain), r);
                        let orl = o.out_rl[&outbox_rl()];
                        n.out_rl
                            .insert(outbox_rl(), refill(&orl, now, amt).unwrap());
                        now
                    }
                    None => now + DAY,
                };
                it.status = Status::ReleaseAfter(at);
            }
            n.inbox.insert(key, it);
            Ok(n)
        }
        Op::Release {
            burn,
            item,
            to,
            revert,
        } => {
            y.need(!c.paused, "paused");
            y.need(c.burning == *burn, "mode");
            let Some(it) = o.inbox.get(item) else {
                y.need(false, "no-item");
                return Err(y.0);
            };
            y.need(
                *to == d.ata(&it.recipient) && o.tokens.contains_key(to),
                "wrong-recipient",
            );
            y.need(it.status != Status::Released, "already-released");
            let due = matches!(it.status, Status::ReleaseAfter(t) if t <= now);
            y.need(
                due || !revert || it.status == Status::Released,
                "too-early",
            );
            if due {
                if *burn {
                    let s = o.mints[&c.mint].1;
                    y.need(s.checked_add(it.amount).is_some(), "supply-overflow");
                } else {
                    y.need(o.tokens[&c.custody].amount >= it.amount, "custody-empty");
                    y.need(
                        o.tokens
                            .get(to)
                            .map_or(true, |t| t.amount.checked_add(it.amount).is_some()),
                        "balance-overflow",
                    );
                }
            }
            if !y.0.is_empty() {
                return Err(y.0);
            }
            if !due {
                return Ok(n);
            }
            if *burn {
                n.mints.get_mut(&c.mint).unwrap().1 += it.amount;
            } else {
                n.tokens.get_mut(&c.custody).unwrap().amount -= it.amount;
            }
            n.tokens.get_mut(to).unwrap().amount += it.amount;
            n.inbox.get_mut(item).unwrap().status = Status::Released;
            Ok(n)
        }
        Op::SetPaused(s, p) => {
            y.need(*s == c.owner, "not-owner");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.config.as_mut().unwrap().paused = *p;
            Ok(n)
        }
        Op::SetPeer {
            signer,
            chain,
            address,
            limit,
            decimals,
        } => {
            y.need(*signer == c.owner, "not-owner");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.peers.insert(
                peer(*chain),
                Peer {
                    address: *address,
                    decimals: *decimals,
                },
            );
            n.in_rl.insert(
                inbox_rl(*chain),
                Rl {
                    limit: *limit,
                    cap: *limit,
                    last: 0,
                },
            );
            Ok(n)
        }
        Op::SetXPeer {
            prog,
            signer,
            chain,
            address,
        } => {
            y.need(*signer == c.owner, "not-owner");
            y.need(!o.xpeers.contains_key(&xpeer(prog, *chain)), "already-set");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.xpeers.insert(xpeer(prog, *chain), (*prog, *address));
            Ok(n)
        }
        Op::Register { signer, t } => {
            y.need(*signer == c.owner, "not-owner");
            y.need(!o.registered.contains_key(&registered(t)), "already-registered");
            y.need(c.next_id < 128, "registry-full");
            y.need(crate::svm::is_program(t), "not-executable");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.registered.insert(registered(t), (c.next_id, *t));
            let nc = n.config.as_mut().unwrap();
            nc.enabled |= 1 << c.next_id;
            nc.next_id += 1;
            Ok(n)
        }
        Op::SetOutLimit(s, l) => {
            y.need(*s == c.owner, "not-owner");
            let r = o.out_rl.get(&outbox_rl()).and_then(|r| set_limit(r, now, *l));
            y.need(r.is_some(), "clock");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.out_rl.insert(outbox_rl(), r.unwrap());
            Ok(n)
        }
        Op::SetInLimit(s, ch, l) => {
            y.need(*s == c.owner, "not-owner");
            let r = o.in_rl.get(&inbox_rl(*ch));
            y.need(r.is_some(), "no-peer");
            let r = r.and_then(|r| set_limit(r, now, *l));
            y.need(r.is_some(), "clock");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            n.in_rl.insert(inbox_rl(*ch), r.unwrap());
            Ok(n)
        }
        Op::GiveOwnership {
            one_step,
            signer,
            new,
        } => {
            y.need(*signer == c.owner, "not-owner");
            let pd = program_data_key(&MGR);
            y.need(
                o.authority.get(&pd) == Some(&Some(*signer)),
                "no-upgrade-authority",
            );
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let nc = n.config.as_mut().unwrap();
            if *one_step {
                nc.owner = *new;
                nc.pending = None;
                n.authority.insert(pd, Some(*new));
            } else {
                nc.pending = Some(*new);
                n.authority.insert(pd, Some(upgrade_lock()));
            }
            Ok(n)
        }
        Op::Claim(s) => {
            y.need(c.pending == Some(*s) || c.owner == *s, "not-nominated");
            let pd = program_data_key(&MGR);
            y.need(
                o.authority.get(&pd) == Some(&Some(upgrade_lock())),
                "no-upgrade-authority",
            );
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let nc = n.config.as_mut().unwrap();
            nc.owner = *s;
            nc.pending = None;
            n.authority.insert(pd, Some(*s));
            Ok(n)
        }
        Op::BroadcastId { prog, msg } => {
            y.need(!o.emitted.contains_key(msg), "message-exists");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let mut p = vec![0x9c, 0x23, 0xbd, 0x3b];
            p.extend_from_slice(MGR.as_ref());
            p.push(c.burning as u8);
            p.extend_from_slice(c.mint.as_ref());
            p.push(o.mints[&c.mint].2);
            emit(&mut n, prog, *msg, p);
            Ok(n)
        }
        Op::BroadcastPeer { prog, msg, chain } => {
            let pa = o.xpeers.get(&xpeer(prog, *chain));
            y.need(pa.is_some(), "no-peer");
            y.need(!o.emitted.contains_key(msg), "message-exists");
            if !y.0.is_empty() {
                return Err(y.0);
            }
            let mut p = vec![0x18, 0xfc, 0x67, 0xc2];
            p.extend_from_slice(&chain.to_be_bytes());
            p.extend_from_slice(&pa.unwrap().1);
            emit(&mut n, prog, *msg, p);
            Ok(n)
        }
        Op::InitLut { slot, .. } => {
            let t = lut_address(*slot);
            let mut e = o
                .tables
                .get(&t)
                .map(|x| x.1.clone())
                .unwrap_or_default();
            let add = lut_contents(&c);
            e.extend(add);
            e.sort();
            e.dedup();
            n.tables.insert(t, (Some(lut_authority()), e));
            n.lut = Some(t);
            Ok(n)
        }
    }
}

/// The entries of a deployment's lookup table, in order.
pub fn lut_contents(c: &Config) -> Vec<Pubkey> {
    vec![
        MGR,
        config(),
        c.custody,
        c.token_program,
        c.mint,
        token_authority(),
        outbox_rl(),
        bridge(),
        fee_collector(),
        sequence(&emitter(&MGR)),
        CORE,
        system_program::ID,
        solana_program::sysvar::clock::ID,
        solana_program::sysvar::rent::ID,
    ]
}

fn predict_init(o: &Obs, deployer: &Pubkey, limit: u64, dep: &Dep) -> Pred {
    let mut y = Why(vec![]);
    y.need(o.config.is_none(), "already-initialized");
    y.need(
        o.authority.get(&program_data_key(&MGR)) == Some(&Some(*deployer)),
        "not-deployer",
    );
    let m = o.mints.get(&dep.mint);
    y.need(m.is_some(), "no-mint");
    y.need(
        !dep.burning || m.map_or(true, |m| m.0 == Some(token_authority())),
        "mint-not-controlled",
    );
    if !y.0.is_empty() {
        return Err(y.0);
    }
    let mut n = o.clone();
    n.config = Some(Config {
        owner: *deployer,
        pending: None,
        mint: dep.mint,
        token_program: dep.tp,
        burning: dep.burning,
        chain: dep.chain,
        next_id: 0,
        threshold: 1,
        enabled: 0,
        paused: false,
        custody: dep.custody(),
    });
    n.out_rl.insert(
        outbox_rl(),
        Rl {
            limit,
            cap: limit,
            last: 0,
        },
    );
    n.tokens.entry(dep.custody()).or_insert(TokAcct {
        mint: dep.mint,
        owner: token_authority(),
        amount: 0,
        delegate: None,
        delegated: 0,
    });
    Ok(n)
}

/// Rewrites the enabled bitmap and threshold in the configuration account.
pub fn set_quorum(w: &mut World, enabled: u128, threshold: u8) {
    let mut c = Config::decode(w.data(&config()).unwrap()).unwrap();
    c.enabled = enabled;
    c.threshold = threshold;
    w.edit(&config(), |a| c.encode_into(&mut a.data));
}

/// Executes an operation on the real programs.
pub fn run_op(w: &World, op: &Op, d: &Dep) -> Result<World, String> {
    if let Op::By(_, o) = op {
        if matches!(**o, Op::Advance(_) | Op::Quorum { .. }) {
            return run_op(w, o, d);
        }
    }
    if let Op::Advance(s) = op {
        let mut n = w.clone();
        n.now += s;
        n.slot += (*s as u64).max(1);
        return Ok(n);
    }
    if let Op::Quorum { enabled, threshold } = op {
        let mut n = w.clone();
        set_quorum(&mut n, *enabled, *threshold);
        return Ok(n);
    }
    exec(w, &op.ixs(w, d)).map(|t| t.world)
}

/// Executes an operation and compares the outcome with the reference.
pub fn step(w: &World, op: &Op, d: &Dep) -> (Option<World>, Vec<Div>) {
    step_obs(w, &observe(w), op, d)
}

pub fn step_obs(w: &World, pre: &Obs, op: &Op, d: &Dep) -> (Option<World>, Vec<Div>) {
    let (n, _, divs) = step_full(w, pre, op, d);
    (n, divs)
}

pub fn step_full(
    w: &World,
    pre: &Obs,
    op: &Op,
    d: &Dep,
) -> (Option<World>, Option<Obs>, Vec<Div>) {
    judge(op, predict(pre, op, d), run_op(w, op, d))
}

/// Compares what was allowed with what happened.
pub fn judge(op: &Op, pred: Pred, real: Result<World, String>) -> (Option<World>, Option<Obs>, Vec<Div>) {
    let name = op.name();
    match (pred, real) {
        (Err(_), Err(_)) => (None, None, vec![]),
        (Ok(want), Ok(n)) => {
            let got = observe(&n);
            let divs = compare(name, &want, &got, Some(op.payer()));
            (Some(n), Some(got), divs)
        }
        (Err(why), Ok(n)) => {
            let divs = why
                .iter()
                .map(|r| Div {
                    op: name.into(),
                    aspect: format!("accepted-despite:{r}"),
                    detail: format!("{op:?} must be rejected ({}) but was accepted", why.join(", ")),
                })
                .collect();
            let got = observe(&n);
            (Some(n), Some(got), divs)
        }
        (Ok(_), Err(e)) => (
            None,
            None,
            vec![Div {
                op: name.into(),
                aspect: "rejected".into(),
                detail: format!("{op:?} must succeed but failed: {e}"),
            }],
        ),
    }
}
