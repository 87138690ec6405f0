//! C22, C23: the relay quoter.
use super::admin::rich_setup;
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, subst::*, svm::*};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::collections::BTreeMap;

fn w_(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
fn r_(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

pub(super) fn instance() -> Pubkey {
    pda(&[b"instance"], &QTR)
}
pub(super) fn chain_key(c: u16) -> Pubkey {
    pda(&[b"registered_chain", &c.to_be_bytes()], &QTR)
}
pub(super) fn ntt_key(p: &Pubkey) -> Pubkey {
    pda(&[b"registered_ntt", p.as_ref()], &QTR)
}
pub(super) fn relay_key(o: &Pubkey) -> Pubkey {
    pda(&[b"relay_request", o.as_ref()], &QTR)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub(super) enum Q {
    Init { owner: Pubkey, fee: Pubkey },
    SetFee { owner: Pubkey, fee: Pubkey },
    SetAssistant { owner: Pubkey, to: Option<Pubkey> },
    RegChain { by: Pubkey, chain: u16 },
    RegNtt { by: Pubkey, id: Pubkey, idx: u8, cost: u32 },
    DeregNtt { by: Pubkey, id: Pubkey },
    Sol { by: Pubkey, price: u64 },
    Prices { by: Pubkey, chain: u16, native: u64, gas: u64 },
    Params { by: Pubkey, chain: u16, max: u64, base: u64 },
    Request { payer: Pubkey, outbox: Pubkey, dropoff: u64, max_fee: u64 },
    Close { by: Pubkey, outbox: Pubkey, to: Pubkey },
    Publish { prog: Pubkey, outbox: Pubkey },
}

impl Q {
    fn name(&self) -> &'static str {
        match self {
            Q::Init { .. } => "q_initialize",
            Q::SetFee { .. } => "q_set_fee_recipient",
            Q::SetAssistant { .. } => "q_set_assistant",
            Q::RegChain { .. } => "q_register_chain",
            Q::RegNtt { .. } => "q_register_ntt",
            Q::DeregNtt { .. } => "q_deregister_ntt",
            Q::Sol { .. } => "q_update_sol_price",
            Q::Prices { .. } => "q_update_chain_prices",
            Q::Params { .. } => "q_update_chain_params",
            Q::Request { .. } => "q_request_relay",
            Q::Close { .. } => "q_close_relay",
            Q::Publish { .. } => "publish",
        }
    }
    pub(super) fn ix(&self, w: &World) -> Instruction {
        let sys = r_(system_program::ID);
        let (n, data, acc): (&str, Vec<u8>, Vec<AccountMeta>) = match self {
            Q::Init { owner, fee } => ("initialize", vec![], vec![ws(*owner), w_(instance()), r_(*fee), w_(program_data_key(&QTR)), sys]),
            Q::SetFee { owner, fee } => ("set_fee_recipient", vec![], vec![rs(*owner), w_(instance()), r_(*fee)]),
            Q::SetAssistant { owner, to } => ("set_assistant", vec![], vec![rs(*owner), w_(instance()), r_(to.unwrap_or(QTR))]),
            Q::RegChain { by, chain } => ("register_chain", chain.to_le_bytes().to_vec(), vec![ws(*by), r_(instance()), w_(chain_key(*chain)), sys]),
            Q::RegNtt { by, id, idx, cost } => {
                let mut d = id.to_bytes().to_vec();
                d.push(*idx);
                d.extend_from_slice(&cost.to_le_bytes());
                ("register_ntt", d, vec![ws(*by), r_(instance()), w_(ntt_key(id)), sys])
            }
            Q::DeregNtt { by, id } => ("deregister_ntt", id.to_bytes().to_vec(), vec![ws(*by), r_(instance()), w_(ntt_key(id)), sys]),
            Q::Sol { by, price } => ("update_sol_price", price.to_le_bytes().to_vec(), vec![rs(*by), w_(instance())]),
            Q::Prices { by, chain, native, gas } => {
                let mut d = native.to_le_bytes().to_vec();
                d.extend_from_slice(&gas.to_le_bytes());
                ("update_chain_prices", d, vec![rs(*by), r_(instance()), w_(chain_key(*chain))])
            }
            Q::Params { by, chain, max, base } => {
                let mut d = max.to_le_bytes().to_vec();
                d.extend_from_slice(&base.to_le_bytes());
                ("update_chain_params", d, vec![rs(*by), r_(instance()), w_(chain_key(*chain))])
            }
            Q::Request { payer, outbox, dropoff, max_fee } => {
                let mut d = dropoff.to_le_bytes().to_vec();
                d.extend_from_slice(&max_fee.to_le_bytes());
                let (owner, chain) = w.get(outbox).map(|a| (a.owner, Outbox::decode(&a.data).map_or(0, |o| o.chain))).unwrap_or_default();
                (
                    "request_relay",
                    d,
                    vec![ws(*payer), r_(instance()), r_(chain_key(chain)), r_(ntt_key(&owner)), r_(*outbox), w_(relay_key(outbox)), sys],
                )
            }
            Q::Close { by, outbox, to } => ("close_relay", vec![], vec![rs(*by), r_(instance()), w_(*to), w_(relay_key(outbox)), sys]),
            Q::Publish { prog, outbox } => return release_outbound(prog, k("payer"), *outbox, true),
        };
        ix(QTR, n, &[&data], acc)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub(super) struct QObs {
    /// owner, assistant, fee recipient, SOL price
    pub(super) instance: Option<(Pubkey, Pubkey, Pubkey, u64)>,
    /// max dropoff, base, native, gas price
    pub(super) chains: BTreeMap<Pubkey, (u64, u64, u64, u64)>,
    pub(super) ntts: BTreeMap<Pubkey, (u8, u32)>,
    /// requested dropoff, balance
    pub(super) relays: BTreeMap<Pubkey, (u64, u64)>,
    pub(super) wallets: BTreeMap<Pubkey, u64>,
    other: BTreeMap<Pubkey, Vec<u8>>,
}

pub(super) fn qobserve(w: &World) -> QObs {
    let mut o = QObs::default();
    for (key, a) in w.iter() {
        if a.owner == system_program::ID && a.data.is_empty() {
            if a.lamports > 0 {
                o.wallets.insert(*key, a.lamports);
            }
            continue;
        }
        if a.owner != QTR {
            continue;
        }
        let mut r = Rd(&a.data);
        let t = match r.take(8) {
            Some(t) => t,
            None => {
                o.other.insert(*key, a.data.clone());
                continue;
            }
        };
        let is = |n: &str| *t == disc("account", n);
        let got = (|| -> Option<()> {
            if is("Instance") && *key == instance() {
                o.instance = Some((r.key()?, r.key()?, r.key()?, r.u64()?));
            } else if is("RegisteredChain") {
                r.u8()?;
                o.chains.insert(*key, (r.u64()?, r.u64()?, r.u64()?, r.u64()?));
            } else if is("RegisteredNtt") {
                r.u8()?;
                o.ntts.insert(*key, (r.u8()?, r.u32()?));
            } else if is("RelayRequest") {
                o.relays.insert(*key, (r.u64()?, a.lamports));
            } else {
                return None;
            }
            Some(())
        })();
        if got.is_none() {
            o.other.insert(*key, a.data.clone());
        }
    }
    o
}

const E9: u128 = 1_000_000_000;

/// The documented fee in lamports, every conversion rounded down; None if some
/// step does not fit 64 bits.
pub(super) fn quote(sol: u64, c: (u64, u64, u64, u64), cost: u32, dropoff: u64) -> Option<u64> {
    let fit = |x: u128| u64::try_from(x).ok();
    let (_, base, native, gas) = c;
    let gwei = fit(dropoff as u128 + fit(gas as u128 * cost as u128 / E9)? as u128)?;
    let usd = fit(fit(native as u128 * gwei as u128 / E9)? as u128 + base as u128)?;
    if sol == 0 {
        return None;
    }
    fit(usd as u128 * E9 / sol as u128)
}

fn qpredict(w: &World, o: &QObs, q: &Q) -> Result<QObs, Vec<&'static str>> {
    let mut y: Vec<&'static str> = vec![];
    let mut n = o.clone();
    macro_rules! need {
        ($c:expr, $r:expr) => {
            if !$c {
                y.push($r)
            }
        };
    }
    if let Q::Init { owner, fee } = q {
        need!(o.instance.is_none(), "already-initialized");
        need!(observe(w).authority.get(&program_data_key(&QTR)) == Some(&Some(*owner)), "not-upgrade-authority");
        need!(*fee != Pubkey::default(), "null-fee-recipient");
        if !y.is_empty() {
            return Err(y);
        }
        n.instance = Some((*owner, Pubkey::default(), *fee, 0));
        return Ok(n);
    }
    let Some(inst) = o.instance else { return Err(vec!["not-initialized"]) };
    let auth = |s: &Pubkey| inst.0 == *s || inst.1 == *s;
    match q {
        Q::Init { .. } | Q::Publish { .. } => unreachable!(),
        Q::SetFee { owner, fee } => {
            need!(*owner == inst.0, "not-owner");
            need!(*fee != Pubkey::default(), "null-fee-recipient");
            n.instance.as_mut().unwrap().2 = *fee;
        }
        Q::SetAssistant { owner, to } => {
            need!(*owner == inst.0, "not-owner");
            n.instance.as_mut().unwrap().1 = to.unwrap_or_default();
        }
        Q::RegChain { by, chain } => {
            need!(auth(by), "not-authorized");
            need!(!o.chains.contains_key(&chain_key(*chain)), "exists");
            n.chains.insert(chain_key(*chain), (0, u64::MAX, 0, 0));
        }
        Q::RegNtt { by, id, idx, cost } => {
            need!(auth(by), "not-authorized");
            need!(!o.ntts.contains_key(&ntt_key(id)), "exists");
            n.ntts.insert(ntt_key(id), (*idx, *cost));
        }
        Q::DeregNtt { by, id } => {
            need!(auth(by), "not-authorized");
            need!(n.ntts.remove(&ntt_key(id)).is_some(), "missing");
        }
        Q::Sol { by, price } => {
            need!(auth(by), "not-authorized");
            need!(*price != 0, "zero-price");
            n.instance.as_mut().unwrap().3 = *price;
        }
        Q::Prices { by, chain, native, gas } => {
            need!(auth(by), "not-authorized");
            match n.chains.get_mut(&chain_key(*chain)) {
                Some(c) => {
                    c.2 = *native;
                    c.3 = *gas;
                }
                None => y.push("missing"),
            }
        }
        Q::Params { by, chain, max, base } => {
            need!(auth(by), "not-authorized");
            match n.chains.get_mut(&chain_key(*chain)) {
                Some(c) => {
                    c.0 = *max;
                    c.1 = *base;
                }
                None => y.push("missing"),
            }
        }
        Q::Request { payer, outbox, dropoff, max_fee } => {
            let a = w.get(outbox);
            let it = a.and_then(|a| Outbox::decode(&a.data));
            let ntt = a.and_then(|a| o.ntts.get(&ntt_key(&a.owner)));
            need!(it.is_some() && ntt.is_some(), "not-registered-program");
            need!(inst.3 != 0, "no-sol-price");
            need!(!o.relays.contains_key(&relay_key(outbox)), "already-requested");
            if let (Some(it), Some(ntt)) = (it, ntt) {
                need!(ntt.0 < 128 && it.released >> ntt.0 & 1 == 1, "not-published");
                match o.chains.get(&chain_key(it.chain)) {
                    None => y.push("unregistered-chain"),
                    Some(c) => {
                        need!(c.1 != u64::MAX, "disabled-chain");
                        need!(*dropoff <= c.0, "dropoff");
                        match quote(inst.3, *c, ntt.1, *dropoff) {
                            None => y.push("overflow"),
                            Some(f) => {
                                let charge = f.max(rent_min(16));
                                need!(charge <= *max_fee, "max-fee");
                                let have = o.wallets.get(payer).copied().unwrap_or(0);
                                need!(charge <= have, "funds");
                                if y.is_empty() {
                                    n.relays.insert(relay_key(outbox), (*dropoff, charge));
                                    *n.wallets.get_mut(payer).unwrap() -= charge;
                                }
                            }
                        }
                    }
                }
            }
        }
        Q::Close { by, outbox, to } => {
            need!(auth(by), "not-authorized");
            need!(*to == inst.2, "wrong-fee-recipient");
            match n.relays.remove(&relay_key(outbox)) {
                None => y.push("missing"),
                Some((_, bal)) => *n.wallets.entry(*to).or_insert(0) += bal,
            }
        }
    }
    if y.is_empty() {
        Ok(n)
    } else {
        Err(y)
    }
}

fn qstep(w: &World, q: &Q) -> (Option<World>, Vec<Div>) {
    let real = exec(w, &[q.ix(w)]).map(|t| t.world);
    if let Q::Publish { .. } = q {
        return (real.ok(), vec![]);
    }
    let o = qobserve(w);
    let div = |aspect: String, detail: String| Div { op: q.name().into(), aspect, detail };
    match (qpredict(w, &o, q), real) {
        (Err(_), Err(_)) => (None, vec![]),
        (Err(why), Ok(n)) => (
            Some(n),
            why.iter().map(|r| div(format!("accepted-despite:{r}"), format!("{q:?} must be rejected ({}) but was accepted", why.join(", ")))).collect(),
        ),
        (Ok(_), Err(e)) => (None, vec![div("rejected".into(), format!("{q:?} must succeed but failed: {e}"))]),
        (Ok(mut want), Ok(n)) => {
            let mut got = qobserve(&n);
            let mut out = vec![];
            // rent of configuration accounts is not specified
            let by = match q {
                Q::RegChain { by, .. } | Q::RegNtt { by, .. } | Q::DeregNtt { by, .. } => Some(*by),
                Q::Init { owner, .. } => Some(*owner),
                _ => None,
            };
            if let Some(b) = by {
                want.wallets.remove(&b);
                got.wallets.remove(&b);
            }
            macro_rules! f {
                ($($x:ident),*) => {$(
                    if want.$x != got.$x {
                        out.push(div(format!("post:{}", stringify!($x)), format!("{q:?}: expected {:?} but got {:?}", want.$x, got.$x)));
                    }
                )*};
            }
            f!(instance, chains, ntts, relays, wallets, other);
            for key in w.changed(&n) {
                let mine = |w: &World| w.get(&key).map_or(true, |a| a.owner == QTR || (a.owner == system_program::ID && a.data.is_empty()));
                if !mine(w) || !mine(&n) {
                    out.push(div("post:foreign".into(), format!("{q:?} changed {key}")));
                }
            }
            (Some(n), out)
        }
    }
}

struct QScn {
    inits: Vec<(String, World)>,
    ops: Box<dyn Fn(&World) -> Vec<Q> + Sync>,
}

impl Model for QScn {
    type S = World;
    type O = Q;
    type P = World;
    fn pack(&self, s: World) -> World {
        s
    }
    fn unpack(&self, p: &World) -> World {
        p.clone()
    }
    fn init(&self) -> Vec<(String, World)> {
        self.inits.clone()
    }
    fn ops(&self, s: &World) -> Vec<Q> {
        (self.ops)(s)
    }
    fn step(&self, s: &World, o: &Q) -> (Option<World>, Vec<Div>) {
        let (n, mut d) = qstep(s, o);
        if let Some(n) = &n {
            // authority and money, independently of the reference above
            let (a, b) = (qobserve(s), qobserve(n));
            if let Some(i) = a.instance {
                let signer = match o {
                    Q::SetFee { owner, .. } | Q::SetAssistant { owner, .. } | Q::Init { owner, .. } => Some((*owner, true)),
                    Q::RegChain { by, .. } | Q::RegNtt { by, .. } | Q::DeregNtt { by, .. } | Q::Sol { by, .. } | Q::Prices { by, .. } | Q::Params { by, .. } | Q::Close { by, .. } => Some((*by, false)),
                    _ => None,
                };
                if let Some((s, only)) = signer {
                    if s != i.0 && (only || s != i.1) {
                        d.push(inv("unauthorised", format!("{o:?} with owner {}, assistant {}", i.0, i.1)));
                    }
                }
            }
            let sum = |o: &QObs| o.relays.values().map(|x| x.1 as u128).sum::<u128>();
            let cash = |o: &QObs| o.wallets.values().map(|x| *x as u128).sum::<u128>();
            if matches!(o, Q::Request { .. } | Q::Close { .. }) && sum(&a) + cash(&a) != sum(&b) + cash(&b) {
                d.push(inv("money", format!("{o:?}: relay balances and wallets do not add up")));
            }
            if let Some(i) = b.instance {
                if i.2 == Pubkey::default() {
                    d.push(inv("null-fee-recipient", format!("{o:?}")));
                }
            }
        }
        (n, d)
    }
    fn key(&self, s: &World) -> u128 {
        let mut h = KeyHasher::new();
        world_key(&mut h, s);
        h.finish()
    }
    fn op_name(&self, o: &Q) -> String {
        o.name().into()
    }
}

/// ob(0): to chain 2, published by the manager's transceiver (index 0);
/// ob(1): not published; ob(2): to 258, published by the standalone one (index 1).
fn world(r: &mut Run, name: &str) -> Option<World> {
    let mut s = rich_setup(false, false);
    s.out_limit = 100_000;
    s.peers[0].2 = 100_000;
    s.peers[1].2 = 100_000;
    s.transceivers = vec![MGR, XCVR];
    let d = s.dep();
    let w = r.setup(name, s.build())?;
    let mut w = r.setup(
        name,
        honest(
            w,
            &d,
            &[
                xfer(&d, "alice", ob(0), args(100, 2, false)),
                xfer(&d, "alice", ob(1), args(100, 2, false)),
                xfer(&d, "alice", ob(2), args(100, 258, false)),
                Op::Publish { prog: MGR, outbox: ob(0), revert: true },
                Op::Publish { prog: XCVR, outbox: ob(2), revert: true },
            ],
        ),
    )?;
    for n in ["fees-1", "fees-2"] {
        w.set(k(n), wallet(5_000_000));
    }
    Some(w)
}

fn configured(r: &mut Run, name: &str, idx: u8) -> Option<World> {
    let w = world(r, name)?;
    let o = k("owner");
    let qs = [
        Q::Init { owner: o, fee: k("fees-1") },
        Q::SetAssistant { owner: o, to: Some(k("carol")) },
        Q::RegChain { by: o, chain: 2 },
        Q::RegChain { by: o, chain: 258 },
        Q::RegNtt { by: o, id: MGR, idx, cost: 300_000 },
        Q::Sol { by: o, price: 150_000_000 },
        Q::Prices { by: o, chain: 2, native: 3_000_000_000, gas: 30_000_000_000 },
        Q::Params { by: o, chain: 2, max: 1_000_000_000, base: 1_000_000 },
        Q::Prices { by: o, chain: 258, native: 500_000, gas: 7 },
        Q::Params { by: o, chain: 258, max: 5, base: 20 },
    ];
    r.setup(name, qrun(w, &qs))
}

pub(super) fn qrun(mut w: World, qs: &[Q]) -> Result<World, String> {
    for q in qs {
        w = exec(&w, &[q.ix(&w)]).map(|t| t.world).map_err(|e| format!("{q:?}: {e}"))?;
    }
    Ok(w)
}

/// Quoter calls of every kind, honest and not, in and after every one-step state.
pub(super) fn calls(r: &mut Run, name: &str) -> Option<Vec<(World, Instruction)>> {
    let fresh = world(r, name)?;
    let w = configured(r, name, 0)?;
    let mut ops = vec![];
    for by in [k("owner"), k("carol"), k("mallory")] {
        ops.extend([
            Q::Init { owner: by, fee: k("fees-1") },
            Q::SetFee { owner: by, fee: k("fees-2") },
            Q::SetFee { owner: by, fee: Pubkey::default() },
            Q::SetAssistant { owner: by, to: None },
            Q::SetAssistant { owner: by, to: Some(k("dave")) },
            Q::RegChain { by, chain: 2 },
            Q::RegChain { by, chain: 3 },
            Q::RegNtt { by, id: XCVR, idx: 1, cost: 5 },
            Q::DeregNtt { by, id: MGR },
            Q::Sol { by, price: 0 },
            Q::Sol { by, price: 1 },
            Q::Prices { by, chain: 2, native: u64::MAX, gas: u64::MAX },
            Q::Params { by, chain: 2, max: 7, base: u64::MAX },
            Q::Close { by, outbox: ob(0), to: k("fees-1") },
            Q::Close { by, outbox: ob(0), to: k("fees-2") },
        ]);
    }
    for (o, dropoff, max_fee) in [(0usize, 5u64, u64::MAX), (0, 5, 3), (0, u64::MAX, u64::MAX), (1, 0, u64::MAX), (2, 0, u64::MAX)] {
        ops.push(Q::Request { payer: k("payer"), outbox: ob(o), dropoff, max_fee });
    }
    let mut out = vec![];
    for w in [&fresh, &w] {
        for a in std::iter::once(None).chain(ops.iter().map(Some)) {
            let w = match a {
                None => w.clone(),
                Some(a) => match exec(w, &[a.ix(w)]) {
                    Ok(t) => t.world,
                    Err(_) => continue,
                },
            };
            for q in &ops {
                out.push((w.clone(), q.ix(&w)));
            }
        }
    }
    Some(out)
}

// ------------------------------------------------------------------ C22

pub fn c22(r: &mut Run) {
    r.focus(&["q_request_relay/*", "inv/*"]);
    let t = r.thorough;
    let Some(mut w) = configured(r, "fees", 0) else { return };
    w.set(k("rich"), wallet(9_000_000_000_000_000_000));
    let m = u64::MAX;
    let sol: Vec<u64> = if t { vec![0, 1, 3, 999_999, 150_000_000, 1_000_000_007, 1 << 40, m] } else { vec![0, 1, 150_000_000, 1_000_000_007, m] };
    let base: Vec<u64> = if t { vec![0, 1, 999, 1_000_000, 1 << 40, m - 1, m] } else { vec![0, 1, 1_000_001, m - 1, m] };
    let native: Vec<u64> = if t { vec![0, 1, 999, 3_000_000_000, 1 << 40, m] } else { vec![0, 1, 3_000_000_001, m] };
    let gas: Vec<u64> = if t { vec![0, 1, 999_999_999, 30_000_000_000, 30_000_000_001, 1 << 50, m] } else { vec![0, 1, 30_000_000_001, m] };
    let cost: Vec<u32> = if t { vec![0, 1, 21_000, 300_001, u32::MAX] } else { vec![0, 300_001, u32::MAX] };
    let maxd: Vec<u64> = vec![0, 1_000_000_000, m];
    let drop: Vec<u64> = vec![0, 1, 1_000_000_000, 1_000_000_001, m];
    let caps: Vec<u8> = (0..7).collect();
    let n = sol.len() * base.len() * native.len() * gas.len() * cost.len() * maxd.len() * drop.len() * caps.len();
    r.sweep("fees", n, |i| {
        let mut ix = Ix(i);
        let cap = *ix.pick(&caps);
        let (s, b, na, g) = (*ix.pick(&sol), *ix.pick(&base), *ix.pick(&native), *ix.pick(&gas));
        let (co, md, dr) = (*ix.pick(&cost), *ix.pick(&maxd), *ix.pick(&drop));
        let rent = rent_min(16);
        let fee = quote(s, (md, b, na, g), co, dr).map(|f| f.max(rent));
        let max_fee = match (cap, fee) {
            (0, _) => 0,
            (1, _) => m,
            (2, Some(f)) => f - 1,
            (3, Some(f)) => f,
            (4, Some(f)) => f.saturating_add(1),
            (5, _) => rent,
            _ => rent - 1,
        };
        let mut c = Case::new(move || format!("SOL {s}, base {b}, native {na}, gas {g}, cost {co}, max dropoff {md}, dropoff {dr}, cap {max_fee} (quote {fee:?})"));
        let mut w = w.clone();
        w.edit(&instance(), |a| a.data[104..112].copy_from_slice(&s.to_le_bytes()));
        w.edit(&chain_key(2), |a| {
            for (j, v) in [md, b, na, g].iter().enumerate() {
                a.data[9 + 8 * j..17 + 8 * j].copy_from_slice(&v.to_le_bytes());
            }
        });
        w.edit(&ntt_key(&MGR), |a| a.data[10..14].copy_from_slice(&co.to_le_bytes()));
        let q = Q::Request { payer: k("rich"), outbox: ob(0), dropoff: dr, max_fee };
        let (n, divs) = qstep(&w, &q);
        c.did(n.as_ref());
        c.divs = divs;
        if let Some(n) = n {
            let paid = w.lamports(&k("rich")) as i128 - n.lamports(&k("rich")) as i128;
            if paid > max_fee as i128 {
                c.fail("inv", "inv:above-cap", format!("paid {paid}, cap {max_fee}"));
            }
            if n.lamports(&relay_key(&ob(0))) as i128 != paid {
                c.fail("inv", "inv:fee-lost", format!("paid {paid}"));
            }
        }
        c
    });
    // price updates interleaved with requests, prices set through the instructions
    let o = k("owner");
    let Some(w) = configured(r, "price-histories", 0) else { return };
    let Some(w2) = r.setup("price-histories", exec(&w, &[Q::Publish { prog: MGR, outbox: ob(2) }.ix(&w)]).map(|t| t.world)) else { return };
    let m = QScn {
        inits: vec![("configured".into(), w2)],
        ops: Box::new(move |_| {
            let mut v = vec![];
            for p in [1u64, 20_000_000, 150_000_000, 0] {
                v.push(Q::Sol { by: o, price: p });
            }
            for c in [2u16, 258] {
                v.push(Q::Prices { by: o, chain: c, native: 1_000_000_000, gas: 999_999_999 });
                v.push(Q::Prices { by: o, chain: c, native: 777, gas: u64::MAX });
                v.push(Q::Params { by: o, chain: c, max: 10, base: 2_000_000 });
                v.push(Q::Params { by: o, chain: c, max: u64::MAX, base: u64::MAX });
            }
            v.push(Q::DeregNtt { by: o, id: MGR });
            v.push(Q::RegNtt { by: o, id: MGR, idx: 0, cost: 21_000 });
            for x in [0, 2] {
                for (d, m) in [(0u64, 1_000_000_000u64), (10, 1_000_000_000), (11, u64::MAX), (0, 20_000)] {
                    v.push(Q::Request { payer: k("alice"), outbox: ob(x), dropoff: d, max_fee: m });
                }
                v.push(Q::Close { by: o, outbox: ob(x), to: k("fees-1") });
            }
            v
        }),
    };
    r.bfs("price-histories", &m, if t { 7 } else { 5 });
}

// ------------------------------------------------------------------ C23

pub fn c23(r: &mut Run) {
    r.focus(&["q_*", "inv/*", "*/subst"]);
    let t = r.thorough;
    // from nothing
    let Some(w0) = world(r, "set-up") else { return };
    let ops = move |full: bool| {
        move |_: &World| {
            let mut v = vec![];
            let null = Pubkey::default();
            for who in ["owner", "carol", "mallory"] {
                let s = k(who);
                for f in [k("fees-1"), null] {
                    v.push(Q::Init { owner: s, fee: f });
                }
                for f in [k("fees-2"), null] {
                    v.push(Q::SetFee { owner: s, fee: f });
                }
                v.push(Q::SetAssistant { owner: s, to: Some(k("carol")) });
                v.push(Q::SetAssistant { owner: s, to: Some(k("mallory")) });
                v.push(Q::SetAssistant { owner: s, to: None });
                for c in [2u16, 258, 3] {
                    if c != 3 || full {
                        v.push(Q::RegChain { by: s, chain: c });
                    }
                    if c != 258 || full {
                        v.push(Q::Prices { by: s, chain: c, native: 2_000_000, gas: 9_000_000_000 });
                        v.push(Q::Params { by: s, chain: c, max: 9, base: 1_000_000 });
                        v.push(Q::Params { by: s, chain: c, max: 9, base: u64::MAX });
                    }
                }
                v.push(Q::RegNtt { by: s, id: MGR, idx: 0, cost: 70_000 });
                v.push(Q::RegNtt { by: s, id: MGR, idx: 1, cost: 70_000 });
                if full {
                    v.push(Q::RegNtt { by: s, id: EVIL, idx: 0, cost: 1 });
                }
                v.push(Q::DeregNtt { by: s, id: MGR });
                v.push(Q::Sol { by: s, price: 100_000_000 });
                v.push(Q::Sol { by: s, price: 0 });
                for x in [0, 2] {
                    v.push(Q::Close { by: s, outbox: ob(x), to: k("fees-1") });
                    v.push(Q::Close { by: s, outbox: ob(x), to: k("fees-2") });
                    v.push(Q::Close { by: s, outbox: ob(x), to: s });
                }
            }
            for x in 0..3 {
                v.push(Q::Request { payer: k("alice"), outbox: ob(x), dropoff: 3, max_fee: 1_000_000_000 });
            }
            v.push(Q::Request { payer: k("bob"), outbox: ob(0), dropoff: 0, max_fee: 1_000_000_000 });
            if full {
                for x in 0..2 {
                    v.push(Q::Publish { prog: MGR, outbox: ob(x + 1) });
                }
            }
            v
        }
    };
    let m = QScn { inits: vec![("not initialised".into(), w0)], ops: Box::new(ops(t)) };
    r.bfs("set-up", &m, if t { 8 } else { 6 });
    let mut inits = vec![];
    for idx in [0u8, 1] {
        let Some(w) = configured(r, "operation", idx) else { return };
        inits.push((format!("configured, transceiver index {idx}"), w));
    }
    let w = inits[0].1.clone();
    let m = QScn { inits, ops: Box::new(ops(true)) };
    r.bfs("operation", &m, if t { 6 } else { 4 });
    // publication is looked up at the registered index only
    let masks: Vec<u128> = vec![0, 1, 2, 3, 1 << 63, 1 << 64, 1 << 127, u128::MAX, !1, !(1 << 127)];
    r.sweep("indices", 256 * masks.len(), |i| {
        let mut ix = Ix(i);
        let idx = ix.0 % 256;
        ix.0 /= 256;
        let mask = *ix.pick(&masks);
        let mut c = Case::new(move || format!("index {idx}, released {mask:#x}"));
        let mut w = w.clone();
        w.edit(&ntt_key(&MGR), |a| a.data[9] = idx as u8);
        w.edit(&ob(0), |a| {
            let n = Outbox::decode(&a.data).is_some() as usize * (8 + 8 + 1 + 32 + 2 + 32 + 32 + 8);
            a.data[n..n + 16].copy_from_slice(&mask.to_le_bytes());
        });
        let (n, d) = qstep(&w, &Q::Request { payer: k("alice"), outbox: ob(0), dropoff: 0, max_fee: u64::MAX });
        c.did(n.as_ref());
        c.divs = d;
        c
    });
    // every account of the world offered as the transfer
    let mut w3 = w.clone();
    let a = w3.get(&ob(0)).unwrap().clone();
    for o in [EVIL, XCVR, system_program::ID, QTR] {
        w3.set(k(&format!("fake-item-{o}")), Acct { owner: o, ..a.clone() });
    }
    // a deployment of another registered program
    let items = candidates(&w3);
    let chains = [2u16, 258, 3];
    let ntts = [MGR, EVIL, XCVR];
    r.sweep("transfers", items.len() * chains.len() * ntts.len(), |i| {
        let mut ix = Ix(i);
        let item = *ix.pick(&items);
        let (ch, nt) = (*ix.pick(&chains), *ix.pick(&ntts));
        let mut c = Case::new(move || format!("relay for {item} with chain {ch} and program {nt}"));
        let q = Q::Request { payer: k("alice"), outbox: item, dropoff: 0, max_fee: u64::MAX };
        let mut ixn = q.ix(&w3);
        ixn.accounts[2].pubkey = chain_key(ch);
        ixn.accounts[3].pubkey = ntt_key(&nt);
        let res = exec(&w3, &[ixn]);
        c.did(res.as_ref().ok().map(|t| &t.world));
        let ok = item == ob(0) && ch == 2 && nt == MGR;
        if res.is_ok() != ok {
            c.fail("q_request_relay", if ok { "rejected" } else { "subst" }, format!("accepted: {}", res.is_ok()));
        }
        c
    });
    // values are stored as given
    let vals = [0u64, 1, 255, 256, 1 << 32, 0x0102_0304_0506_0708, u64::MAX];
    let w4 = w.clone();
    r.sweep("values", vals.len() * vals.len() * 5, |i| {
        let mut ix = Ix(i);
        let (a, b) = (*ix.pick(&vals), *ix.pick(&vals));
        let kind = *ix.pick(&[0u8, 1, 2, 3, 4]);
        let by = k(if i % 2 == 0 { "owner" } else { "carol" });
        let q = match kind {
            0 => Q::Sol { by, price: a },
            1 => Q::Prices { by, chain: 2, native: a, gas: b },
            2 => Q::Params { by, chain: 2, max: a, base: b },
            3 => Q::RegChain { by, chain: a as u16 },
            _ => Q::RegNtt { by, id: EVIL, idx: a as u8, cost: b as u32 },
        };
        let q2 = q.clone();
        let mut c = Case::new(move || format!("{q2:?}"));
        let (n, d) = qstep(&w4, &q);
        c.did(n.as_ref());
        c.divs = d;
        c
    });
    // accounts
    let mut targets = vec![];
    let mk = |q: Q, w: &World, free: &[usize]| Target { name: q.name().into(), w: w.clone(), ixs: vec![q.ix(w)], at: 0, free: free.to_vec(), allowed: vec![] };
    let o = k("owner");
    // a second program and a second open request, so that every account has a sibling
    let Some(w) = r.setup("accounts", qrun(w, &[Q::RegNtt { by: o, id: EVIL, idx: 0, cost: 1 }])) else { return };
    let rel = |x, drop| Q::Request { payer: k("alice"), outbox: ob(x), dropoff: drop, max_fee: u64::MAX };
    let Some(wr) = r.setup("accounts", qrun(w.clone(), &[Q::Publish { prog: MGR, outbox: ob(2) }, rel(0, 1), rel(2, 0)])) else { return };
    let Some(w0) = world(r, "accounts") else { return };
    targets.push(mk(Q::Init { owner: o, fee: k("fees-1") }, &w0, &[2]));
    for by in [k("owner"), k("carol")] {
        // the other authorised key is not an attack
        let other = if by == k("owner") { k("carol") } else { k("owner") };
        let al = |t: Target| t.allow(0, other);
        if by == k("owner") {
            targets.push(mk(Q::SetFee { owner: o, fee: k("fees-2") }, &w, &[2]));
            targets.push(mk(Q::SetAssistant { owner: o, to: Some(k("dave")) }, &w, &[2]));
        }
        targets.push(al(mk(Q::RegChain { by, chain: 3 }, &w, &[])));
        targets.push(al(mk(Q::RegNtt { by, id: XCVR, idx: 0, cost: 1 }, &w, &[])));
        targets.push(al(mk(Q::DeregNtt { by, id: MGR }, &w, &[])));
        targets.push(al(mk(Q::Sol { by, price: 5 }, &w, &[])));
        targets.push(al(mk(Q::Prices { by, chain: 2, native: 5, gas: 6 }, &w, &[])).allow(2, chain_key(258)));
        targets.push(al(mk(Q::Params { by, chain: 2, max: 5, base: 6 }, &w, &[])).allow(2, chain_key(258)));
        targets.push(al(mk(Q::Close { by, outbox: ob(0), to: k("fees-1") }, &wr, &[])).allow(3, relay_key(&ob(2))));
    }
    targets.push(mk(Q::Request { payer: k("alice"), outbox: ob(0), dropoff: 1, max_fee: u64::MAX }, &w, &[0]));
    singles(r, "accounts", &targets);
    // an instance forged to name the attacker
    let owners = [EVIL, system_program::ID, MGR];
    let atk: Vec<Q> = vec![
        Q::SetFee { owner: k("mallory"), fee: k("mallory") },
        Q::SetAssistant { owner: k("mallory"), to: Some(k("mallory")) },
        Q::RegChain { by: k("mallory"), chain: 3 },
        Q::RegNtt { by: k("mallory"), id: EVIL, idx: 0, cost: 1 },
        Q::DeregNtt { by: k("mallory"), id: MGR },
        Q::Sol { by: k("mallory"), price: 5 },
        Q::Prices { by: k("mallory"), chain: 2, native: 5, gas: 6 },
        Q::Params { by: k("mallory"), chain: 2, max: 5, base: 6 },
        Q::Close { by: k("mallory"), outbox: ob(0), to: k("mallory") },
    ];
    r.sweep("forged-instance", owners.len() * atk.len() * 2, |i| {
        let mut ix = Ix(i);
        let ow = *ix.pick(&owners);
        let q = ix.pick(&atk).clone();
        let f = *ix.pick(&[0usize, 1]);
        let q2 = q.clone();
        let mut c = Case::new(move || format!("{q2:?} with an instance owned by {ow} naming the attacker"));
        let mut w = wr.clone();
        let mut a = w.get(&instance()).unwrap().clone();
        a.data[8 + 32 * f..40 + 32 * f].copy_from_slice(k("mallory").as_ref());
        a.data[8 + 64..40 + 64].copy_from_slice(k("mallory").as_ref());
        a.owner = ow;
        w.set(k("forged"), a);
        let mut ixn = q.ix(&w);
        ixn.accounts[1].pubkey = k("forged");
        let res = exec(&w, &[ixn]);
        c.did(res.as_ref().ok().map(|t| &t.world));
        if res.is_ok() {
            c.fail(q.name(), "subst", "accepted with a forged instance".into());
        }
        c
    });
}
