//! Quoter instructions for the demonstration.
use crate::kit::*;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};

pub fn w_(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn r_(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

pub fn instance() -> Pubkey {
    pda(&[b"instance"], &QTR)
}
pub fn chain_key(c: u16) -> Pubkey {
    pda(&[b"registered_chain", &c.to_be_bytes()], &QTR)
}
pub fn ntt_key(p: &Pubkey) -> Pubkey {
    pda(&[b"registered_ntt", p.as_ref()], &QTR)
}
pub fn relay_key(o: &Pubkey) -> Pubkey {
    pda(&[b"relay_request", o.as_ref()], &QTR)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Q {
    Init { owner: Pubkey, fee: Pubkey },
    SetFee { owner: Pubkey, fee: Pubkey },
    SetAssistant { owner: Pubkey, to: Option<Pubkey> },
    RegChain { by: Pubkey, chain: u16 },
    RegNtt { by: Pubkey, id: Pubkey, idx: u8, cost: u32 },
    DeregNtt { by: Pubkey, id: Pubkey },
    Sol { by: Pubkey, price: u64 },
    Prices { by: Pubkey, chain: u16, native: u64, gas: u64 },
    Params { by: Pubkey, chain: u16, max: u64, base: u64 },
    Request { payer: Pubkey, outbox: Pubkey, dropoff: u64, max_fee: u64 },
    Close { by: Pubkey, outbox: Pubkey, to: Pubkey },
    Publish { prog: Pubkey, outbox: Pubkey },
}

impl Q {
    pub fn name(&self) -> &'static str {
        match self {
            Q::Init { .. } => "q_initialize",
            Q::SetFee { .. } => "q_set_fee_recipient",
            Q::SetAssistant { .. } => "q_set_assistant",
            Q::RegChain { .. } => "q_register_chain",
            Q::RegNtt { .. } => "q_register_ntt",
            Q::DeregNtt { .. } => "q_deregister_ntt",
            Q::Sol { .. } => "q_update_sol_price",
            Q::Prices { .. } => "q_update_chain_prices",
            Q::Params { .. } => "q_update_chain_params",
            Q::Request { .. } => "q_request_relay",
            Q::Close { .. } => "q_close_relay",
            Q::Publish { .. } => "publish",
        }
    }
    pub fn ix(&self, w: &World) -> Instruction {
        let sys = r_(system_program::ID);
        let (n, data, acc): (&str, Vec<u8>, Vec<AccountMeta>) = match self {
            Q::Init { owner, fee } => ("initialize", vec![], vec![ws(*owner), w_(instance()), r_(*fee), w_(program_data_key(&QTR)), sys]),
            Q::SetFee { owner, fee } => ("set_fee_recipient", vec![], vec![rs(*owner), w_(instance()), r_(*fee)]),
            Q::SetAssistant { owner, to } => ("set_assistant", vec![], vec![rs(*owner), w_(instance()), r_(to.unwrap_or(QTR))]),
            Q::RegChain { by, chain } => ("register_chain", chain.to_le_bytes().to_vec(), vec![ws(*by), r_(instance()), w_(chain_key(*chain)), sys]),
            Q::RegNtt { by, id, idx, cost } => {
                let mut d = id.to_bytes().to_vec();
                d.push(*idx);
                d.extend_from_slice(&cost.to_le_bytes());
                ("register_ntt", d, vec![ws(*by), r_(instance()), w_(ntt_key(id)), sys])
            }
            Q::DeregNtt { by, id } => ("deregister_ntt", id.to_bytes().to_vec(), vec![ws(*by), r_(instance()), w_(ntt_key(id)), sys]),
            Q::Sol { by, price } => ("update_sol_price", price.to_le_bytes().to_vec(), vec![rs(*by), w_(instance())]),
            Q::Prices { by, chain, native, gas } => {
                let mut d = native.to_le_bytes().to_vec();
                d.extend_from_slice(&gas.to_le_bytes());
                ("update_chain_prices", d, vec![rs(*by), r_(instance()), w_(chain_key(*chain))])
            }
            Q::Params { by, chain, max, base } => {
                let mut d = max.to_le_bytes().to_vec();
                d.extend_from_slice(&base.to_le_bytes());
                ("update_chain_params", d, vec![rs(*by), r_(instance()), w_(chain_key(*chain))])
            }
            Q::Request { payer, outbox, dropoff, max_fee } => {
                let mut d = dropoff.to_le_bytes().to_vec();
                d.extend_from_slice(&max_fee.to_le_bytes());
                let (owner, chain) = w.get(outbox).map(|a| (a.owner, Outbox::decode(&a.data).map_or(0, |o| o.chain))).unwrap_or_default();
                (
                    "request_relay",
                    d,
                    vec![ws(*payer), r_(instance()), r_(chain_key(chain)), r_(ntt_key(&owner)), r_(*outbox), w_(relay_key(outbox)), sys],
                )
            }
            Q::Close { by, outbox, to } => ("close_relay", vec![], vec![rs(*by), r_(instance()), w_(*to), w_(relay_key(outbox)), sys]),
            Q::Publish { prog, outbox } => return release_outbound(prog, k("payer"), *outbox, true),
        };
        ix(QTR, n, &[&data], acc)
    }
}

pub fn try_q(w: &World, q: &Q) -> Result<World, String> {
    exec(w, &[q.ix(w)]).map(|t| t.world)
}
pub fn q(w: &World, x: Q) -> World {
    try_q(w, &x).unwrap_or_else(|e| fail(&format!("{x:?} was rejected: {e}")))
}
pub fn q_refused(w: &World, x: Q) {
    if try_q(w, &x).is_ok() {
        fail(&format!("{x:?} was accepted"));
    }
}
/// A quoter with prices for chain 2 and the manager registered (transceiver `idx`, gas cost 1000).
pub fn with_quoter(w: &World, idx: u8) -> World {
    let o = k("owner");
    let w = q(w, Q::Init { owner: o, fee: k("dave") });
    let w = q(&w, Q::RegChain { by: o, chain: 2 });
    let w = q(&w, Q::RegNtt { by: o, id: MGR, idx, cost: 1000 });
    let w = q(&w, Q::Sol { by: o, price: 100_000_000 });
    let w = q(&w, Q::Prices { by: o, chain: 2, native: 3_000_000, gas: 1_500_000_000 });
    q(&w, Q::Params { by: o, chain: 2, max: 1_000_000_000_000, base: 7 })
}
