//! C32: the published interface description (IDL 3.0.0) describes the programs.
use super::mixed;
use super::quoter::{chain_key, instance, ntt_key, relay_key};
use nttmc::{client::*, explore::*, idl::*, model::*, programs::*, scn::*, setup::*, svm::*};
use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey, system_program, sysvar};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

const DIR: &str = "/repo/solana/ts/idl/3_0_0";

#[derive(Clone)]
struct Set {
    mgr: Idl,
    xcvr: Idl,
    qtr: Idl,
}

impl Set {
    fn load() -> Result<Set, String> {
        let l = |p: Pubkey, n: &str| Idl::load(p, &format!("{DIR}/json/{n}.json"));
        Ok(Set {
            mgr: l(MGR, "example_native_token_transfers")?,
            xcvr: l(XCVR, "ntt_transceiver")?,
            qtr: l(QTR, "ntt_quoter")?,
        })
    }
    fn of(&self, p: &Pubkey) -> Option<&Idl> {
        [&self.mgr, &self.xcvr, &self.qtr].into_iter().find(|i| i.prog == *p)
    }
}

fn id(x: u16) -> V {
    V::s(&[("id", V::n(x))])
}
fn map(x: u128) -> V {
    V::s(&[("map", V::N(x as i128))])
}
fn y(x: &[u8; 32]) -> V {
    V::Y(x.to_vec())
}

/// A client that knows the description, the addresses and nothing else.
struct Client<'a> {
    s: &'a Set,
    w: World,
    names: BTreeMap<&'static str, Pubkey>,
    c: Case,
    ret: Option<(Pubkey, Vec<u8>)>,
    dead: bool,
}

impl Client<'_> {
    fn build(&self, p: &Pubkey, name: &str, args: &[(&str, V)], own: &[(&str, Pubkey)]) -> Result<Instruction, String> {
        self.s.of(p).unwrap().call(name, args, &|s: &Slot| {
            own.iter().find(|x| x.0 == s.leaf).map(|x| x.1).or_else(|| self.names.get(s.leaf.as_str()).copied())
        })
    }
    fn bad(&mut self, what: &str, e: String) {
        self.c.fail("interface", what, e);
        self.dead = true;
    }
    fn run(&mut self, name: &str, ixs: &[Instruction]) {
        match exec(&self.w, ixs) {
            Ok(t) => {
                self.c.did(Some(&t.world));
                self.w = t.world;
                self.ret = t.ret;
            }
            Err(e) => {
                self.c.did(None);
                self.bad("call", format!("{name}, assembled from the interface description, fails: {e}"));
            }
        }
    }
    fn call(&mut self, p: &Pubkey, name: &str, args: &[(&str, V)], own: &[(&str, Pubkey)]) {
        if self.dead {
            return;
        }
        match self.build(p, name, args, own) {
            Err(e) => self.bad("described", e),
            Ok(mut ix) => {
                if name == "version" {
                    // compiled for CPI, as here, the program's source says it takes
                    // one more, unused account (without it, additional accounts are ignored)
                    ix.accounts.push(AccountMeta::new_readonly(config(), false));
                }
                // every signature the description asks for is needed
                for n in 0..ix.accounts.len() {
                    if !ix.accounts[n].is_signer {
                        continue;
                    }
                    let mut less = ix.clone();
                    less.accounts[n].is_signer = false;
                    let key = ix.accounts[n].pubkey;
                    if less.accounts.iter().any(|a| a.pubkey == key && a.is_signer) {
                        continue;
                    }
                    let r = exec(&self.w, &[less]);
                    self.c.did(None);
                    if r.is_ok() {
                        self.bad("signer", format!("{name} succeeds without the signature of account {n}, which the description requires"));
                        return;
                    }
                }
                self.run(name, &[ix]);
            }
        }
    }
    /// The account must decode as `ty` with these contents.
    fn see(&mut self, at: &Pubkey, ty: &str, want: &[(&str, V)]) {
        if self.dead {
            return;
        }
        let Some(a) = self.w.get(at) else { return self.bad("account", format!("no account {ty} at {at}")) };
        let idl = self.s.of(&a.owner);
        match idl.and_then(|i| i.account(&a.data)) {
            Some((n, v)) if n == ty => {
                for (p, x) in want {
                    if v.get(p) != Some(x) {
                        return self.bad("account", format!("{ty}.{p} reads {:?} by the description; it is {x:?}", v.get(p)));
                    }
                }
            }
            o => self.bad("account", format!("{ty} at {at} decodes as {:?}", o.map(|x| x.0))),
        }
    }
    fn returns(&mut self, p: &Pubkey, name: &str, want: V) {
        if self.dead {
            return;
        }
        let got = match &self.ret {
            Some((q, d)) if q == p => self.s.of(p).unwrap().returned(name, d),
            _ => None,
        };
        if got.as_ref() != Some(&want) {
            self.bad("returned", format!("{name} returns {got:?} by the description; expected {want:?}"));
        }
    }
}

fn bump(seeds: &[&[u8]], p: &Pubkey) -> V {
    V::n(pda_bump(seeds, p).1)
}

/// A deployment's life, driven through the description alone.
fn life(s: &Set, b: bool, t22: bool, dec: u8, far: u16, pdec: u8, scale: u64, queue: bool) -> Case {
    let st = Setup { burning: b, t22, decimals: dec, chain: 7, users: vec![("alice", 100_000 * scale), ("bob", 0)], custody: 0, stray: 0, peers: vec![], ..Setup::default() };
    let d = st.dep();
    let own = k("owner");
    let names: BTreeMap<&'static str, Pubkey> = [
        ("payer", k("payer")),
        ("owner", own),
        ("deployer", own),
        ("programData", program_data_key(&MGR)),
        ("config", config()),
        ("mint", d.mint),
        ("rateLimit", outbox_rl()),
        ("outboxRateLimit", outbox_rl()),
        ("inboxRateLimit", inbox_rl(far)),
        ("peer", peer(far)),
        ("tokenAuthority", token_authority()),
        ("custody", d.custody()),
        ("tokenProgram", d.tp),
        ("associatedTokenProgram", ATA),
        ("bpfLoaderUpgradeableProgram", nttmc::programs::LOADER),
        ("systemProgram", system_program::ID),
        ("upgradeLock", upgrade_lock()),
        ("bridge", bridge()),
        ("feeCollector", fee_collector()),
        ("program", CORE),
        ("clock", sysvar::clock::ID),
        ("rent", sysvar::rent::ID),
        ("manager", MGR),
        ("lutProgram", ALT),
        ("lut", lut_account()),
        ("authority", lut_authority()),
    ]
    .into_iter()
    .collect();
    let mut x = Client {
        s,
        w: st.genesis(),
        names,
        c: Case::new(move || format!("life of a deployment: burning {b}, Token-2022 {t22}, {dec} decimals, peer chain {far} with {pdec} decimals, scale {scale}, queue {queue}")),
        ret: None,
        dead: false,
    };
    x.call(&MGR, "version", &[], &[]);
    let v = s.mgr.version().to_string();
    x.returns(&MGR, "version", V::T(v));
    x.call(&XCVR, "transceiverType", &[], &[]);
    x.returns(&XCVR, "transceiverType", V::T("wormhole".into()));

    let limit = 1_000 * scale;
    let mode = V::unit(if b { "Burning" } else { "Locking" });
    x.call(&MGR, "initialize", &[("args", V::s(&[("chainId", V::n(7u16)), ("limit", V::n(limit)), ("mode", mode.clone())]))], &[]);
    let cfg = |owner: &Pubkey, pending: Option<&Pubkey>, next: u8, paused: bool| {
        vec![
            ("bump", bump(&[b"config"], &MGR)),
            ("owner", V::key(owner)),
            ("pendingOwner", V::O(pending.map(|p| Box::new(V::key(p))))),
            ("mint", V::key(&d.mint)),
            ("tokenProgram", V::key(&d.tp)),
            ("mode", mode.clone()),
            ("chainId", id(7)),
            ("nextTransceiverId", V::n(next)),
            ("threshold", V::n(1u8)),
            ("enabledTransceivers", map((1 << next) - 1)),
            ("paused", V::B(paused)),
            ("custody", V::key(&d.custody())),
        ]
    };
    let cfg_of = |x: &mut Client, o: &Pubkey, p: Option<&Pubkey>, n: u8, z: bool| {
        let mut want = cfg(o, p, n, z);
        if x.dead {
            return;
        }
        // the threshold grows with neither; it is what it was
        if n > 0 {
            want.retain(|f| f.0 != "threshold");
        }
        x.see(&config(), "Config", &want)
    };
    cfg_of(&mut x, &own, None, 0, false);
    x.see(&outbox_rl(), "OutboxRateLimit", &[("rateLimit.limit", V::n(limit)), ("rateLimit.capacityAtLastTx", V::n(limit))]);

    for (n, t) in [MGR, XCVR, MOCK1].into_iter().enumerate() {
        x.call(&MGR, "registerTransceiver", &[], &[("transceiver", t), ("registeredTransceiver", registered(&t))]);
        let bp = bump(&[b"registered_transceiver", t.as_ref()], &MGR);
        x.see(&registered(&t), "RegisteredTransceiver", &[("bump", bp), ("id", V::n(n as u8)), ("transceiverAddress", V::key(&t))]);
        cfg_of(&mut x, &own, None, n as u8 + 1, false);
    }
    let addr = peer_addr(far);
    x.call(&MGR, "setPeer", &[("args", V::s(&[("chainId", id(far)), ("address", y(&addr)), ("limit", V::n(3 * limit)), ("tokenDecimals", V::n(pdec))]))], &[]);
    let pb = bump(&[b"peer", &far.to_be_bytes()], &MGR);
    x.see(&peer(far), "NttManagerPeer", &[("bump", pb), ("address", y(&addr)), ("tokenDecimals", V::n(pdec))]);
    let ib = bump(&[b"inbox_rate_limit", &far.to_be_bytes()], &MGR);
    x.see(&inbox_rl(far), "InboxRateLimit", &[("bump", ib), ("rateLimit.limit", V::n(3 * limit)), ("rateLimit.capacityAtLastTx", V::n(3 * limit))]);
    for p in [MGR, XCVR] {
        let a = xpeer_addr(&p, far);
        x.call(&p, "setWormholePeer", &[("args", V::s(&[("chainId", id(far)), ("address", y(&a))]))], &[("peer", xpeer(&p, far))]);
        x.see(&xpeer(&p, far), "TransceiverPeer", &[("address", y(&a))]);
    }
    x.call(&MGR, "setOutboundLimit", &[("args", V::s(&[("limit", V::n(limit + 7))]))], &[]);
    x.see(&outbox_rl(), "OutboxRateLimit", &[("rateLimit.limit", V::n(limit + 7))]);
    x.call(&MGR, "setInboundLimit", &[("args", V::s(&[("limit", V::n(2 * limit)), ("chainId", id(far))]))], &[("rateLimit", inbox_rl(far))]);
    x.see(&inbox_rl(far), "InboxRateLimit", &[("rateLimit.limit", V::n(2 * limit))]);
    for z in [true, false] {
        x.call(&MGR, "setPaused", &[("pause", V::B(z))], &[]);
        cfg_of(&mut x, &own, None, 3, z);
    }
    // sending: one that fits, one that waits
    let trim = dec.min(pdec).min(8);
    let mut items = vec![];
    for (n, amount) in [(0usize, 300 * scale), (1, 5_000 * scale)] {
        if n == 1 && !queue {
            continue;
        }
        let a = TransferArgs { amount, chain: far, recipient: a32("far-recipient"), queue: n == 1 };
        let key = ob(n);
        let sess = session_authority(&k("alice"), &a);
        let from = d.ata(&k("alice"));
        let va = V::s(&[("amount", V::n(amount)), ("recipientChain", id(far)), ("recipientAddress", y(&a.recipient)), ("shouldQueue", V::B(a.queue))]);
        if x.dead {
            break;
        }
        x.run("approve", &[d.approve(from, k("alice"), sess, amount)]);
        x.call(&MGR, if b { "transferBurn" } else { "transferLock" }, &[("args", va)], &[("from", from), ("outboxItem", key), ("sessionAuthority", sess)]);
        let at = x.w.now + if n == 1 { DAY } else { 0 };
        let sent = amount / 10u64.pow((dec - trim) as u32);
        x.see(&key, "OutboxItem", &[
            ("amount", V::s(&[("amount", V::n(sent)), ("decimals", V::n(trim))])),
            ("sender", V::key(&k("alice"))),
            ("recipientChain", id(far)),
            ("recipientNttManager", y(&addr)),
            ("recipientAddress", y(&a.recipient)),
            ("releaseTimestamp", V::n(at)),
            ("released", map(0)),
        ]);
        if n == 0 {
            x.see(&outbox_rl(), "OutboxRateLimit", &[
                ("rateLimit.limit", V::n(limit + 7)),
                ("rateLimit.capacityAtLastTx", V::n(limit + 7 - amount)),
                ("rateLimit.lastTxTimestamp", V::n(x.w.now)),
            ]);
        }
        items.push((key, at));
    }
    for (key, at) in &items {
        x.w.now = x.w.now.max(*at);
        for (n, p) in [MGR, XCVR].iter().enumerate() {
            x.call(p, "releaseWormholeOutbound", &[("args", V::s(&[("revertOnDelay", V::B(true))]))], &[
                ("outboxItem", *key),
                ("transceiver", registered(p)),
                ("wormholeMessage", wh_message(p, key)),
                ("emitter", emitter(p)),
                ("sequence", sequence(&emitter(p))),
                ("outboxItemSigner", outbox_signer(p)),
            ]);
            x.see(key, "OutboxItem", &[("released", map((2 << n) - 1))]);
        }
        if x.dead {
            break;
        }
        let (signer, bp) = pda_bump(&[b"outbox_item_signer"], &MOCK1);
        match x.build(&MGR, "markOutboxItemAsReleased", &[], &[("signer", signer), ("outboxItem", *key), ("transceiver", registered(&MOCK1))]) {
            Err(e) => x.bad("described", e),
            Ok(i) => {
                x.run("markOutboxItemAsReleased", &[proxy_ix(&MOCK1, &[b"outbox_item_signer", &[bp]], i)]);
                x.returns(&MGR, "markOutboxItemAsReleased", V::B(true));
                x.see(key, "OutboxItem", &[("released", map(7))]);
            }
        }
    }
    // receiving
    for (n, p) in [MGR, XCVR].into_iter().enumerate() {
        let m = st.inbound(far, 9 + n as u8, if n == 1 && queue { 5_000 * scale } else { 40 * scale } / 10u64.pow((dec - trim) as u32), trim, &k("bob"));
        let v = post_vaa(&mut x.w, &format!("vaa{n}"), &p, far, &m);
        let t = vtm(&p, far, &m.msg.id);
        x.call(&p, "receiveWormholeMessage", &[], &[("peer", xpeer(&p, far)), ("vaa", v), ("transceiverMessage", t)]);
        let item = inbox_item(far, &m.msg);
        x.call(&MGR, "redeem", &[("args", V::s(&[]))], &[("transceiverMessage", t), ("transceiver", registered(&p)), ("inboxItem", item)]);
        let amount = m.msg.amount * 10u64.pow((dec - trim) as u32);
        let late = amount > 2 * limit;
        let see = |x: &mut Client, st: V| {
            x.see(&item, "InboxItem", &[
                ("init", V::B(true)),
                ("amount", V::n(amount)),
                ("recipientAddress", V::key(&k("bob"))),
                ("votes", map(1 << n)),
                ("releaseStatus", st),
            ])
        };
        let due = x.w.now + if late { DAY } else { 0 };
        see(&mut x, V::E("ReleaseAfter".into(), vec![V::n(due)]));
        x.w.now = due;
        if !b && amount > 300 * scale && items.len() < 2 {
            continue;
        }
        let has = x.w.data(&d.custody()).and_then(decode_token).map_or(0, |t| t.amount);
        if !b && has < amount {
            continue;
        }
        x.call(&MGR, if b { "releaseInboundMint" } else { "releaseInboundUnlock" }, &[("args", V::s(&[("revertOnDelay", V::B(true))]))], &[("inboxItem", item), ("recipient", d.ata(&k("bob")))]);
        see(&mut x, V::unit("Released"));
    }
    for p in [MGR, XCVR] {
        let wh = [("emitter", emitter(&p)), ("sequence", sequence(&emitter(&p))), ("wormholeMessage", k("m-id"))];
        x.call(&p, "broadcastWormholeId", &[], &wh);
        let mut wh = wh.to_vec();
        wh[2].1 = k("m-peer");
        wh.push(("peer", xpeer(&p, far)));
        x.call(&p, "broadcastWormholePeer", &[("args", V::s(&[("chainId", V::n(far))]))], &wh);
        if !x.dead {
            x.w.remove(&k("m-id"));
            x.w.remove(&k("m-peer"));
        }
    }
    let slot = 990u64;
    x.call(&MGR, "initializeLut", &[("recentSlot", V::n(slot))], &[("lutAddress", lut_address(slot)), ("sequence", sequence(&emitter(&MGR)))]);
    x.see(&lut_account(), "LUT", &[("bump", bump(&[b"lut"], &MGR)), ("address", V::key(&lut_address(slot)))]);

    // the relay quoter
    let q = &QTR;
    let rc = chain_key(far);
    let ask = k("assistant");
    let fee = k("carol");
    x.w.set(ask, wallet(1_000_000_000_000));
    x.call(q, "initialize", &[], &[("instance", instance()), ("feeRecipient", k("dave")), ("programData", program_data_key(q))]);
    x.call(q, "setFeeRecipient", &[], &[("instance", instance()), ("feeRecipient", fee)]);
    x.call(q, "setAssistant", &[], &[("instance", instance()), ("assistant", ask)]);
    let by = |v: Vec<(&'static str, Pubkey)>| {
        let mut v = v;
        v.extend([("authority", ask), ("instance", instance()), ("registeredChain", rc), ("registeredNtt", ntt_key(&MGR))]);
        v
    };
    x.call(q, "updateSolPrice", &[("args", V::s(&[("solPrice", V::n(777u64))]))], &by(vec![]));
    x.see(&instance(), "Instance", &[("owner", V::key(&own)), ("assistant", V::key(&ask)), ("feeRecipient", V::key(&fee)), ("solPrice", V::n(777u64))]);
    x.call(q, "registerChain", &[("args", V::s(&[("chainId", V::n(far))]))], &by(vec![]));
    x.call(q, "updateChainParams", &[("args", V::s(&[("maxGasDropoff", V::n(50u64)), ("basePrice", V::n(31u64))]))], &by(vec![]));
    x.call(q, "updateChainPrices", &[("args", V::s(&[("nativePrice", V::n(13u64)), ("gasPrice", V::n(17u64))]))], &by(vec![]));
    x.see(&rc, "RegisteredChain", &[
        ("bump", bump(&[b"registered_chain", &far.to_be_bytes()], q)),
        ("maxGasDropoff", V::n(50u64)),
        ("basePrice", V::n(31u64)),
        ("nativePrice", V::n(13u64)),
        ("gasPrice", V::n(17u64)),
    ]);
    let reg = V::s(&[("nttProgramId", V::key(&MGR)), ("wormholeTransceiverIndex", V::n(0u8)), ("gasCost", V::n(70_000u32))]);
    x.call(q, "registerNtt", &[("args", reg)], &by(vec![]));
    x.see(&ntt_key(&MGR), "RegisteredNtt", &[
        ("bump", bump(&[b"registered_ntt", MGR.as_ref()], q)),
        ("wormholeTransceiverIndex", V::n(0u8)),
        ("gasCost", V::n(70_000u32)),
    ]);
    let rk = relay_key(&ob(0));
    let req = V::s(&[("gasDropoff", V::n(23u64)), ("maxFee", V::n(1u64 << 40))]);
    x.call(q, "requestRelay", &[("args", req)], &by(vec![("outboxItem", ob(0)), ("relayRequest", rk)]));
    x.see(&rk, "RelayRequest", &[("requestedGasDropoff", V::n(23u64))]);
    x.call(q, "closeRelay", &[], &by(vec![("feeRecipient", fee), ("relayRequest", rk)]));
    x.call(q, "deregisterNtt", &[("args", V::s(&[("nttProgramId", V::key(&MGR))]))], &by(vec![]));
    x.call(q, "setAssistant", &[], &[("instance", instance())]);
    x.see(&instance(), "Instance", &[("assistant", V::key(&Pubkey::default()))]);

    // handing over
    let dave = k("dave");
    x.call(&MGR, "transferOwnership", &[], &[("newOwner", dave)]);
    cfg_of(&mut x, &own, Some(&dave), 3, false);
    x.call(&MGR, "claimOwnership", &[], &[("newOwner", dave)]);
    cfg_of(&mut x, &dave, None, 3, false);
    x.call(&MGR, "transferOwnershipOneStepUnchecked", &[], &[("owner", dave), ("newOwner", own)]);
    cfg_of(&mut x, &own, None, 3, false);
    x.c
}

fn errors(logs: &[String]) -> Vec<(u32, String)> {
    let mut o = vec![];
    for l in logs {
        let Some(i) = l.find("Error Code: ") else { continue };
        let r = &l[i + 12..];
        let (Some(e), Some(n)) = (r.find(". Error Number: "), r.find(". Error Message")) else { continue };
        if let Ok(num) = r[e + 16..n].parse() {
            o.push((num, r[..e].to_string()));
        }
    }
    o
}

/// One transaction, as given and with exactly the flags of the description.
fn tx(s: &Set, seen: &Mutex<BTreeSet<String>>, c: &mut Case, w: &World, ixs: &[Instruction], what: &str) {
    let mut plain = ixs.to_vec();
    for ix in plain.iter_mut() {
        let Some(idl) = s.of(&ix.program_id) else { continue };
        let Some(j) = idl.by_data(&ix.data) else {
            return c.fail("interface", "described", format!("{what}: the description lacks this instruction"));
        };
        let n = j.str("name").unwrap_or("").to_string();
        if idl.args(j, &ix.data).is_none() {
            c.fail("interface", "described", format!("arguments of {n} are not of the described types"));
        }
        let slots = Idl::slots(j);
        if slots.len() > ix.accounts.len() {
            c.fail("interface", "described", format!("{n} takes {} accounts, the description has {}", ix.accounts.len(), slots.len()));
        }
        for (a, sl) in ix.accounts.iter_mut().zip(&slots) {
            a.is_signer = sl.signer;
            a.is_writable = sl.writable;
        }
    }
    let (out, logs) = exec_logged(w, &plain);
    c.did(out.as_ref().ok().map(|t| &t.world));
    let quoter = ixs.last().map_or(false, |i| i.program_id == QTR);
    for (num, nm) in errors(&logs) {
        if !(6000..7000).contains(&num) {
            continue;
        }
        let told = if quoter { s.qtr.error(num) } else { s.mgr.error(num) };
        if told != Some(nm.as_str()) {
            c.fail("interface", "errors", format!("{what} fails with {num} {nm}; the description says {told:?}"));
        }
        seen.lock().unwrap().insert(nm);
    }
    match (&out, exec(w, ixs)) {
        (Ok(a), Ok(b)) => {
            if !a.world.same_accounts(&b.world) {
                c.fail("interface", "call", format!("{what} has another effect with the described account flags"));
            }
            for (key, a) in a.world.iter() {
                let Some(idl) = s.of(&a.owner) else { continue };
                if idl.account(&a.data).is_none() && Vtm::decode(&a.data).is_none() {
                    c.fail("interface", "account", format!("after {what}: account {key} of {} does not decode by the description", a.owner));
                }
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => c.fail("interface", "call", format!("{what}: with the described account flags {:?}, otherwise {:?}", a.as_ref().err(), b.as_ref().err())),
    }
}

/// Failures the mixed operations do not meet.
fn provoked() -> Result<Vec<(World, Dep, Op)>, String> {
    let mut v = vec![];
    for burning in [false, true] {
        let s = Setup { burning, decimals: 9, peers: vec![(2, 9, 1000), (3, 255, 1000), (4, 0, 1000)], transceivers: vec![MGR, XCVR, MOCK1], ..Setup::default() };
        let d = s.dep();
        let g = s.genesis();
        v.push((g.clone(), d.clone(), Op::Initialize { payer: k("payer"), deployer: k("mallory"), limit: 1, dep: d.clone() }));
        let mut g2 = g.clone();
        g2.set(d.mint, mint_acct(d.tp, Some(k("minter")), 1, 9));
        v.push((g2, d.clone(), Op::Initialize { payer: k("payer"), deployer: k("owner"), limit: 1, dep: d.clone() }));
        let w = s.build()?;
        let to = k("bob");
        let mut vaa = |x: &XMsg, from: u16, claim: u16| {
            let mut w = w.clone();
            let key = k("v");
            let mut p = Posted { finality: 32, timestamp: 0, nonce: 0, sequence: 0, emitter_chain: from, emitter: xpeer_addr(&MGR, claim), payload: x.wire() };
            v.push((with(&w, key, vaa_account(&p)), d.clone(), Op::Receive { prog: MGR, vaa: key }));
            p.emitter = xpeer_addr(&XCVR, claim);
            v.push((with(&w, key, vaa_account(&p)), d.clone(), Op::Receive { prog: XCVR, vaa: key }));
            let t = inject_vtm(&mut w, &MOCK1, from, x);
            v.push((w, d.clone(), Op::Redeem { t: MOCK1, vtm: t }));
        };
        let good = s.inbound(2, 1, 5, 8, &to);
        vaa(&good, 2, 3);
        vaa(&XMsg { recipient_manager: XCVR.to_bytes(), ..good.clone() }, 2, 2);
        vaa(&XMsg { source_manager: [9; 32], ..good.clone() }, 2, 2);
        let mut x = good.clone();
        x.msg.to_chain = 5;
        vaa(&x, 2, 2);
        for (a, dec) in [(u64::MAX, 0), (u64::MAX, 8), (5, 255), (u64::MAX, 255)] {
            vaa(&s.inbound(2, 2, a, dec, &to), 2, 2);
        }
        let mut w = w.clone();
        let t = inject_vtm(&mut w, &MOCK1, 2, &good);
        let once = run_op(&w, &Op::Redeem { t: MOCK1, vtm: t }, &d)?;
        v.push((once.clone(), d.clone(), Op::Redeem { t: MOCK1, vtm: t }));
        for (e, th) in [(7u128, 0u8), (7, 3), (0, 1), (1, 1)] {
            let mut w = w.clone();
            set_quorum(&mut w, e, th);
            v.push((w.clone(), d.clone(), Op::Redeem { t: MOCK1, vtm: t }));
            v.push((w.clone(), d.clone(), xfer(&d, "alice", ob(0), args(100, 2, false))));
            if let Ok(n) = run_op(&w, &Op::Redeem { t: MOCK1, vtm: t }, &d) {
                v.push((n, d.clone(), release(&d, inbox_item(2, &good.msg), "bob", true)));
            }
        }
        for c in [2, 3, 4, 5] {
            for (n, q) in [(100, false), (100, true), (5_000, false), (u64::MAX, true)] {
                v.push((w.clone(), d.clone(), xfer(&d, "alice", ob(0), args(n, c, q))));
            }
        }
        w.edit(&config(), |a| {
            let mut c = Config::decode(&a.data).unwrap();
            c.next_id = 128;
            c.encode_into(&mut a.data);
        });
        v.push((w, d.clone(), Op::Register { signer: k("owner"), t: MOCK2 }));
    }
    Ok(v)
}

fn with(w: &World, key: Pubkey, a: Acct) -> World {
    let mut w = w.clone();
    w.set(key, a);
    w
}

pub fn c32(r: &mut Run) {
    r.focus(&["interface/*"]);
    let Some(s) = r.setup("description", Set::load()) else { return };
    let t = r.thorough;

    // the two published copies agree
    let files = ["example_native_token_transfers", "ntt_transceiver", "ntt_quoter", "wormhole_governance", "dummy_transfer_hook"];
    r.sweep("copies", files.len(), |i| {
        let f = files[i];
        let mut c = Case::new(move || format!("JSON and TypeScript copies of {f}"));
        let a = Idl::load(MGR, &format!("{DIR}/json/{f}.json")).map(|x| x.j.canon());
        let b = Idl::load_ts(&format!("{DIR}/ts/{f}.ts")).map(|x| x.canon());
        c.eval(true, &f);
        if a.is_err() || a != b {
            c.fail("interface", "copies", format!("the JSON and TypeScript copies of {f} differ ({:?} {:?})", a.err(), b.err()));
        }
        c
    });

    let bs = [false, true];
    let decs: &[u8] = if t { &[0, 2, 6, 8, 9, 12] } else { &[0, 6, 9] };
    let chains: &[u16] = if t { &[1, 2, 255, 256, 258, 512, 10_002, 65_535] } else { &[2, 258, 65_535] };
    let pdecs: &[u8] = if t { &[0, 3, 7, 8, 9, 18, 255] } else { &[2, 8, 18] };
    let scales: &[u64] = if t { &[1_000_000_000, 1_000_000_000_000] } else { &[1_000_000_000] };
    r.sweep("life", 8 * decs.len() * chains.len() * pdecs.len() * scales.len(), |i| {
        let mut ix = Ix(i);
        let (b, t22, q) = (*ix.pick(&bs), *ix.pick(&bs), *ix.pick(&bs));
        let (dec, far, pdec, scale) = (*ix.pick(decs), *ix.pick(chains), *ix.pick(pdecs), *ix.pick(scales));
        life(&s, b, t22, dec, far, pdec, scale, q)
    });

    // every operation in every state one step from the mixed starting states
    let seen: Mutex<BTreeSet<String>> = Mutex::default();
    for (b, t22, thr) in [(false, false, 2u8), (true, true, 1), (true, false, 2), (false, true, 1)] {
        if !t && t22 != b {
            continue;
        }
        let name = format!("flags-{}-{}", if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
        let Some(m) = r.setup(&name, mixed::build(b, t22, thr)) else { return };
        let (d, ops, inits) = (&m.d, &m.ops, &m.inits);
        r.sweep(&name, inits.len() * (ops.len() + 1) * ops.len(), |i| {
            let mut ix = Ix(i);
            let op = ix.pick(ops).clone();
            let (start, w) = ix.pick(inits);
            let first = ix.0.checked_sub(1).map(|n| ops[n].clone());
            let mut c = Case::new({
                let (start, first, op) = (start.clone(), first.clone(), op.clone());
                move || format!("{start}: {first:?}, then {op:?}")
            });
            let w = match &first {
                Some(f) => match run_op(w, f, d) {
                    Ok(w) => w,
                    Err(_) => return c,
                },
                None => w.clone(),
            };
            let ixs = op.ixs(&w, d);
            if !ixs.is_empty() {
                tx(&s, &seen, &mut c, &w, &ixs, op.name());
            }
            c
        });
    }
    let Some(v) = r.setup("provoked", provoked()) else { return };
    r.sweep("provoked", v.len(), |i| {
        let (w, d, op) = &v[i];
        let mut c = Case::new({
            let op = op.clone();
            move || format!("{op:?}")
        });
        tx(&s, &seen, &mut c, w, &op.ixs(w, d), op.name());
        c
    });
    let Some(v) = super::quoter::calls(r, "quoter") else { return };
    r.sweep("quoter", v.len(), |i| {
        let (w, x) = &v[i];
        let mut c = Case::new({
            let x = x.clone();
            move || format!("{x:?}")
        });
        let what = s.qtr.by_data(&x.data).and_then(|j| j.str("name")).unwrap_or("?").to_string();
        tx(&s, &seen, &mut c, w, &[x.clone()], &what);
        c
    });
    if std::env::var("NTTMC_VERBOSE").is_ok() {
        println!("errors met: {:?}", seen.lock().unwrap());
    }
}
