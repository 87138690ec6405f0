//! Starting states: a deployment on one chain, set up through its own
//! instructions, plus tokens, wallets and the core bridge.

use crate::client::*;
use crate::model::{run_op, Op};
use crate::programs::*;
use crate::svm::{rent_min, Acct, World, START_TIME};
use solana_program::{pubkey::Pubkey, system_program};

#[derive(Clone, Debug)]
pub struct Setup {
    pub burning: bool,
    pub t22: bool,
    pub decimals: u8,
    pub chain: u16,
    /// chain, token decimals, inbound limit
    pub peers: Vec<(u16, u8, u64)>,
    pub out_limit: u64,
    /// token balances of users' associated accounts
    pub users: Vec<(&'static str, u64)>,
    /// tokens already locked (locking mode)
    pub custody: u64,
    /// tokens somebody sent to the custody account (burning mode)
    pub stray: u64,
    pub transceivers: Vec<Pubkey>,
    pub fee: u64,
}

impl Default for Setup {
    fn default() -> Self {
        Setup {
            burning: false,
            t22: false,
            decimals: 9,
            chain: 1,
            peers: vec![(2, 9, 1000)],
            out_limit: 1000,
            users: vec![("alice", 100_000), ("bob", 0)],
            custody: 50_000,
            stray: 71,
            transceivers: vec![MGR],
            fee: 0,
        }
    }
}

pub fn a32(name: &str) -> [u8; 32] {
    k(name).to_bytes()
}

/// Address of the peer manager on `chain`.
pub fn peer_addr(chain: u16) -> [u8; 32] {
    a32(&format!("manager-on-{chain}"))
}
/// Address of the peer transceiver of `prog` on `chain`.
pub fn xpeer_addr(prog: &Pubkey, chain: u16) -> [u8; 32] {
    a32(&format!("xcvr-{}-on-{chain}", *prog == MGR))
}

pub fn wallet(lamports: u64) -> Acct {
    Acct {
        lamports,
        owner: system_program::ID,
        executable: false,
        data: vec![],
    }
}

pub fn token_acct(tp: Pubkey, mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Acct {
        lamports: rent_min(165),
        owner: tp,
        executable: false,
        data: d,
    }
}

pub fn mint_acct(tp: Pubkey, authority: Option<Pubkey>, supply: u64, decimals: u8) -> Acct {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    Acct {
        lamports: rent_min(82),
        owner: tp,
        executable: false,
        data: d,
    }
}

impl Setup {
    pub fn in_custody(&self) -> u64 {
        if self.burning {
            self.stray
        } else {
            self.custody
        }
    }

    pub fn dep(&self) -> Dep {
        Dep {
            burning: self.burning,
            tp: if self.t22 { TOKEN22 } else { TOKEN },
            mint: k(&format!("mint-{}", self.chain)),
            chain: self.chain,
        }
    }

    /// The chain before the program is initialized.
    pub fn genesis(&self) -> World {
        let d = self.dep();
        let mut w = World::default();
        w.now = START_TIME;
        w.slot = 1000;
        for n in ["payer", "owner", "alice", "bob", "carol", "mallory", "dave"] {
            w.set(k(n), wallet(1_000_000_000_000));
        }
        w.set(fee_collector(), wallet(rent_min(0)));
        w.set(bridge(), bridge_data(self.fee, rent_min(0)));
        for p in [MGR, QTR, XCVR] {
            w.set(program_data_key(&p), program_data(Some(k("owner"))));
        }
        let supply = self.users.iter().map(|u| u.1).sum::<u64>()
            + self.in_custody();
        let auth = if self.burning {
            token_authority()
        } else {
            k("minter")
        };
        w.set(d.mint, mint_acct(d.tp, Some(auth), supply, self.decimals));
        for (u, n) in &self.users {
            w.set(d.ata(&k(u)), token_acct(d.tp, &d.mint, &k(u), *n));
        }
        w
    }

    pub fn ops(&self) -> Vec<Op> {
        let owner = k("owner");
        let mut v = vec![Op::Initialize {
            payer: k("payer"),
            deployer: owner,
            limit: self.out_limit,
            dep: self.dep(),
        }];
        for t in &self.transceivers {
            v.push(Op::Register {
                signer: owner,
                t: *t,
            });
        }
        for (c, dec, lim) in &self.peers {
            v.push(Op::SetPeer {
                signer: owner,
                chain: *c,
                address: peer_addr(*c),
                limit: *lim,
                decimals: *dec,
            });
            for t in [MGR, XCVR] {
                if self.transceivers.contains(&t) {
                    v.push(Op::SetXPeer {
                        prog: t,
                        signer: owner,
                        chain: *c,
                        address: xpeer_addr(&t, *c),
                    });
                }
            }
        }
        v
    }

    /// The deployment, initialized and connected through its own instructions.
    pub fn build(&self) -> Result<World, String> {
        let d = self.dep();
        let mut w = self.genesis();
        for op in self.ops() {
            w = run_op(&w, &op, &d).map_err(|e| format!("setup: {op:?} failed: {e}"))?;
        }
        let n = self.in_custody();
        if n > 0 {
            w.edit(&d.custody(), |a| {
                a.data[64..72].copy_from_slice(&n.to_le_bytes())
            });
        }
        Ok(w)
    }

    /// A message from the peer on `chain`.
    pub fn inbound(&self, chain: u16, id: u8, amount: u64, dec: u8, to: &Pubkey) -> XMsg {
        XMsg {
            source_manager: peer_addr(chain),
            recipient_manager: MGR.to_bytes(),
            msg: NttMsg {
                id: {
                    let mut x = [0u8; 32];
                    x[31] = id;
                    x
                },
                sender: a32("remote-sender"),
                decimals: dec,
                amount,
                source_token: a32("remote-token"),
                to: to.to_bytes(),
                to_chain: self.chain,
            },
            extra: vec![],
        }
    }
}

/// Posts a VAA carrying `x`, as emitted by `prog`'s peer on `chain`.
pub fn post_vaa(w: &mut World, name: &str, prog: &Pubkey, chain: u16, x: &XMsg) -> Pubkey {
    let key = k(name);
    w.set(
        key,
        vaa_account(&Posted {
            finality: 32,
            timestamp: START_TIME as u32,
            nonce: 0,
            sequence: 0,
            emitter_chain: chain,
            emitter: xpeer_addr(prog, chain),
            payload: x.wire(),
        }),
    );
    key
}

/// A message delivered by transceiver program `t` (one of the stand-ins).
pub fn inject_vtm(w: &mut World, t: &Pubkey, chain: u16, x: &XMsg) -> Pubkey {
    let key = vtm(t, chain, &x.msg.id);
    let data = Vtm {
        chain,
        msg: x.clone(),
    }
    .encode();
    w.set(
        key,
        Acct {
            lamports: rent_min(data.len()),
            owner: *t,
            executable: false,
            data,
        },
    );
    key
}
