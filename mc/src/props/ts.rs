//! C45, C46: the TypeScript Solana client. In every explored state, every client call
//! is answered by the repository's TypeScript (bundled from the current sources,
//! run by ts/src/answer.mjs); the transactions it builds are executed and must
//! do what the same request does when written by the independent client.
use super::{hooks, mixed};
use super::quoter::{chain_key, instance, ntt_key, qobserve, qrun, quote, relay_key, Q};
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, svm::*};
use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey, system_program};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone)]
enum Want {
    /// these transactions
    Txs(Vec<Vec<Instruction>>),
    /// the same, but the client may also refuse (it refuses more than the program)
    OrRefuse(Vec<Vec<Instruction>>),
    /// the client (or the program) refuses
    Refused,
    Value(String),
    /// an amount from .0 to .1
    Within(u128, u128),
}

struct Probe {
    state: usize,
    /// which transceiver the client was given: m built in, x standalone
    line: String,
    want: Want,
}

struct State {
    name: String,
    w: World,
}

fn h(b: &[u8]) -> String {
    b.iter().fold(String::with_capacity(b.len() * 2), |mut s, x| {
        let _ = write!(s, "{x:02x}");
        s
    })
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
fn key(p: &Pubkey) -> String {
    h(p.as_ref())
}
/// The n-th key pair the client generates.
fn generated(n: u64) -> Pubkey {
    Pubkey::from(solana_program::hash::hashv(&[b"generated", &n.to_le_bytes()]).to_bytes())
}

type Tx = (Option<Pubkey>, Vec<Pubkey>, Vec<Instruction>);

fn parse_txs(s: &str) -> Option<Vec<Tx>> {
    let pk = |x: &str| -> Option<Pubkey> { Some(Pubkey::from(<[u8; 32]>::try_from(unhex(x)?).ok()?)) };
    let mut v = vec![];
    for t in s.split(';').filter(|t| !t.is_empty()) {
        let f: Vec<&str> = t.split('|').collect();
        let payer = if f[0].is_empty() { None } else { Some(pk(f[0])?) };
        let signers = f[1].split(',').filter(|x| !x.is_empty()).map(pk).collect::<Option<Vec<_>>>()?;
        let mut ixs = vec![];
        for i in f[2].split('&').filter(|x| !x.is_empty()) {
            let g: Vec<&str> = i.split(':').collect();
            let accounts = g[1]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|a| Some(AccountMeta { pubkey: pk(a.get(..64)?)?, is_signer: a.get(64..65)? == "1", is_writable: a.get(65..66)? == "1" }))
                .collect::<Option<Vec<_>>>()?;
            ixs.push(Instruction { program_id: pk(g[0])?, accounts, data: unhex(g[2])? });
        }
        v.push((payer, signers, ixs));
    }
    Some(v)
}

/// Asks the TypeScript client.
fn ask(d: &Dep, states: &[State], probes: &[Probe]) -> Result<Vec<String>, String> {
    let mut s = String::new();
    let _ = writeln!(
        s,
        "N manager={} xcvr={} emitter={} core={} token={} quoter={}",
        key(&MGR), key(&XCVR), key(&emitter(&MGR)), key(&CORE), key(&d.mint), key(&QTR)
    );
    let mut keys: HashMap<Pubkey, usize> = HashMap::new();
    let mut blobs: HashMap<(Pubkey, u64, Vec<u8>), usize> = HashMap::new();
    let mut last = usize::MAX;
    for p in probes {
        if p.state != last {
            last = p.state;
            let w = &states[last].w;
            let mut line = format!("S {}", w.slot);
            for (k, a) in w.iter() {
                for x in [k, &a.owner] {
                    if !keys.contains_key(x) {
                        keys.insert(*x, keys.len());
                        let _ = writeln!(s, "K {}", key(x));
                    }
                }
                let id = (a.owner, a.lamports, a.data.clone());
                let n = blobs.len();
                let b = *blobs.entry(id).or_insert_with(|| {
                    let _ = writeln!(s, "B {} {} {}", keys[&a.owner], a.lamports, h(&a.data));
                    n
                });
                let _ = write!(line, " {}={b}", keys[k]);
            }
            s.push_str(&line);
            s.push('\n');
        }
        let _ = writeln!(s, "C {}", p.line);
    }
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = std::env::temp_dir().join(format!("ntt-ts-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (i, o) = (dir.join("in"), dir.join("out"));
    std::fs::write(&i, s).map_err(|e| e.to_string())?;
    let r = std::process::Command::new("node")
        .args(["--max-old-space-size=3000", concat!(env!("CARGO_MANIFEST_DIR"), "/../ts/src/answer.mjs")])
        .arg(&i)
        .arg(&o)
        .output();
    let text = std::fs::read_to_string(&o).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let r = r.map_err(|e| e.to_string())?;
    let v: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    if !r.status.success() || v.len() != probes.len() {
        return Err(format!("{} of {} answers; {}{}", v.len(), probes.len(), String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr)));
    }
    Ok(v)
}

/// The same, by several client processes at once.
fn ask_all(d: &Dep, states: &[State], probes: &[Probe]) -> Result<Vec<String>, String> {
    let n = threads();
    let mut cuts = vec![0];
    for i in 1..n {
        let mut c = (probes.len() * i / n).max(*cuts.last().unwrap());
        while c > 0 && c < probes.len() && probes[c].state == probes[c - 1].state {
            c += 1;
        }
        cuts.push(c);
    }
    cuts.push(probes.len());
    let parts: Vec<_> = std::thread::scope(|s| {
        let l: Vec<_> = cuts.windows(2).filter(|w| w[0] < w[1]).map(|w| s.spawn(|| ask(d, states, &probes[w[0]..w[1]]))).collect();
        l.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut v = vec![];
    for p in parts {
        v.extend(p?);
    }
    Ok(v)
}

fn run_all(w: &World, txs: &[Vec<Instruction>]) -> Result<World, String> {
    let mut w = w.clone();
    for t in txs {
        w = exec(&w, t)?.world;
    }
    Ok(w)
}

fn judge_one(c: &mut Case, st: &State, p: &Probe, ans: &str) {
    let f = p.line.split(' ').nth(1).unwrap_or("").to_string();
    let (kind, rest) = ans.split_at(1);
    let rest = rest.trim_start();
    macro_rules! bad {
        ($a:expr, $t:expr) => {
            c.fail("client", $a, format!("{f}: {}", $t))
        };
    }
    match &p.want {
        Want::Value(v) => {
            if kind != "V" || rest != v {
                bad!("value", format!("answers {ans:.300}, expected {v}"));
            }
            c.eval(kind == "V", &(p.state, ans));
        }
        Want::Within(lo, hi) => {
            let n: Option<u128> = if kind == "V" { rest.parse().ok() } else { None };
            if !n.is_some_and(|n| *lo <= n && n <= *hi) {
                bad!("value", format!("answers {ans:.300}, expected an amount from {lo} to {hi}"));
            }
            c.eval(kind == "V", &(p.state, ans));
        }
        Want::Txs(_) | Want::OrRefuse(_) | Want::Refused => {
            let refuse_ok = matches!(p.want, Want::OrRefuse(_) | Want::Refused);
            let reference = match &p.want {
                Want::Txs(t) | Want::OrRefuse(t) => run_all(&st.w, t),
                _ => Err("refused".into()),
            };
            if kind == "E" {
                c.did(None);
                if reference.is_ok() && !refuse_ok {
                    c.fail("client", "refused", format!("{f}: the client refuses ({rest:.200}) what the programs accept"));
                }
                return;
            }
            let Some(txs) = (if kind == "T" { parse_txs(rest) } else { None }) else {
                return bad!("transactions", format!("answers {ans:.300}"));
            };
            let line = &p.line;
            for (payer, signers, ixs) in &txs {
                for m in ixs.iter().flat_map(|i| &i.accounts) {
                    if let (true, Some(by)) = (m.is_signer, payer) {
                        if m.pubkey != *by && !signers.contains(&m.pubkey) && !line.contains(&key(&m.pubkey)) {
                            return bad!("signers", format!("nobody who signs can sign for {}", m.pubkey));
                        }
                    }
                }
            }
            let lists: Vec<Vec<Instruction>> = txs.into_iter().map(|t| t.2).collect();
            let got = run_all(&st.w, &lists);
            c.did(got.as_ref().ok());
            match (&got, &reference) {
                (Ok(g), Ok(x)) => {
                    if !g.same_accounts(x) {
                        let diff = x.changed(g);
                        bad!("effect", format!("the client's transactions leave other contents in {diff:?}"));
                    }
                }
                (Err(e), Ok(_)) => bad!("rejected", format!("the client's transactions are rejected ({e:.200})")),
                (Ok(_), Err(e)) => bad!("accepted", format!("the client's transactions are accepted; the request is not ({e:.200})")),
                _ => {}
            }
        }
    }
}

/// Decimal fractions whose product with 1e6 and 1e9 as doubles is below the integer.
const INEXACT6: f64 = 2.01;
const INEXACT9: f64 = 2.03;

/// A number as the client prints it.
fn double(x: f64) -> String {
    if x > 0.0 && x < 1e-6 { format!("{x:e}") } else { format!("{x}") }
}

struct Set<'a> {
    d: &'a Dep,
    /// the token's transfer hook
    hook: Option<Pubkey>,
    /// inbound messages: chain, message, hash of the posted VAA by transceiver
    msgs: Vec<(u16, XMsg)>,
    far: u16,
    none: u16,
}

fn vaa_hash(n: usize, t: &Pubkey) -> [u8; 32] {
    a32(&format!("vaa-{n}-{t}"))
}

impl Set<'_> {
    /// The accounts a movement of this owner's tokens needs besides the instruction's own.
    fn extra(&self, owner: &Pubkey) -> Vec<AccountMeta> {
        self.hook.map_or(vec![], |h| hooks::right(&h, self.d, owner))
    }

    /// Posts every message, as each transceiver's peer would send it, where the
    /// core bridge keeps posted messages.
    fn post(&self, w: &mut World) {
        for (n, (c, x)) in self.msgs.iter().enumerate() {
            for t in [MGR, XCVR] {
                let tmp = post_vaa(w, "posting", &t, *c, x);
                let a = w.get(&tmp).unwrap().clone();
                w.remove(&tmp);
                w.set(pda(&[b"PostedVAA", &vaa_hash(n, &t)], &CORE), a);
            }
        }
    }

    fn values(&self, n: usize, w: &World, out: &mut Vec<Probe>) {
        let mut v = |line: String, want: Want| out.push(Probe { state: n, line, want });
        let val = |x: String| Want::Value(x);
        let Some(c) = w.data(&config()).and_then(Config::decode) else { return };
        v("m ntt.getMode".into(), val(if c.burning { "burning" } else { "locking" }.into()));
        v("m ntt.isPaused".into(), val(c.paused.to_string()));
        v("m ntt.getThreshold".into(), val(c.threshold.to_string()));
        v("m ntt.getOwner".into(), val(key(&c.owner)));
        v("m ntt.getTokenDecimals".into(), val(w.data(&c.mint).and_then(decode_mint).map_or(0, |m| m.2).to_string()));
        v("m ntt.getCustodyAddress".into(), val(c.custody.to_string()));
        v("m ntt.getRateLimitDuration".into(), val(DAY.to_string()));
        v("m ntt.verifyAddresses".into(), val("null".into()));
        let rl = w.data(&outbox_rl()).and_then(Rl::decode_outbox);
        if let Some(r) = rl {
            v("m ntt.getOutboundLimit".into(), val(r.limit.to_string()));
            if r.last == w.now {
                v("m ntt.getCurrentOutboundCapacity".into(), val(r.cap.to_string()));
            }
        }
        for ch in [2, self.far, self.none] {
            let p = w.data(&peer(ch)).and_then(Peer::decode);
            let r = w.data(&inbox_rl(ch)).and_then(Rl::decode_inbox);
            if let Some(r) = &r {
                v(format!("m ntt.getInboundLimit c:{ch}"), val(r.limit.to_string()));
                if r.last == w.now {
                    v(format!("m ntt.getCurrentInboundCapacity c:{ch}"), val(r.cap.to_string()));
                }
            }
            v(
                format!("m ntt.getPeer c:{ch}"),
                val(match (&p, &r) {
                    (Some(p), Some(r)) => format!("address={ch}/{},inboundLimit={},tokenDecimals={}", h(&p.address), r.limit, p.decimals),
                    _ => "null".into(),
                }),
            );
            for (f, t) in [("m", MGR), ("x", XCVR)] {
                let x = w.data(&xpeer(&t, ch)).and_then(decode_xpeer);
                v(format!("{f} x.getPeer c:{ch}"), val(x.map_or("null".into(), |a| format!("{ch}/{}", h(&a)))));
            }
        }
        for (f, t) in [("m", MGR), ("x", XCVR)] {
            v(format!("{f} x.getAddress"), val(format!("1/{}", key(&emitter(&t)))));
        }
        for (i, (ch, x)) in self.msgs.iter().enumerate() {
            let item = w.data(&inbox_item(*ch, &x.msg)).and_then(Inbox::decode);
            let a = format!("a:{ch}:{}:{}", h(&vaa_hash(i, &MGR)), h(&x.wire()));
            let (mut done, mut queued, mut approved, mut entry) = (false, false, Some(false), "null".to_string());
            if let Some(it) = &item {
                match it.status {
                    Status::NotApproved => approved = None,
                    Status::ReleaseAfter(t) => {
                        approved = Some(true);
                        queued = true;
                        entry = format!("amount={},rateLimitExpiryTimestamp={t},recipient={}", it.amount, key(&it.recipient));
                    }
                    Status::Released => {
                        approved = Some(true);
                        done = true;
                    }
                }
            }
            v(format!("m ntt.getIsExecuted {a}"), val(done.to_string()));
            v(format!("m ntt.getIsTransferInboundQueued {a}"), val(queued.to_string()));
            v(format!("m ntt.getInboundQueuedTransfer c:{ch} m:{}", h(&x.wire())), val(entry));
            if let Some(x) = approved {
                v(format!("m ntt.getIsApproved {a}"), val(x.to_string()));
            }
        }
        // the relay quoter
        let q = qobserve(w);
        if let Some((o, a, f, sol)) = q.instance {
            v("m q.getInstance".into(), val(format!("assistant={},feeRecipient={},owner={},solPriceUsd={}", key(&a), key(&f), key(&o), sol as f64 / 1e6)));
        }
        for ch in [2, self.far, self.none] {
            let on = q.chains.get(&chain_key(ch)).is_some_and(|c| c.1 != u64::MAX);
            v(format!("m ntt.isRelayingAvailable c:{ch}"), val(on.to_string()));
            let line = format!("m q.getRegisteredChain c:{ch}");
            match q.chains.get(&chain_key(ch)) {
                // amounts above this are not exact in a client that uses doubles
                Some(c) if [c.0, c.2, c.3].iter().all(|x| *x < 1 << 53) => v(line, val(format!(
                    "basePriceUsd={},gasPriceGwei={},maxGasDropoffEth={},nativePriceUsd={},paused={}",
                    double(c.1 as f64 / 1e6), double(c.3 as f64 / 1e9), double(c.0 as f64 / 1e9), double(c.2 as f64 / 1e6), c.1 == u64::MAX
                ))),
                Some(_) => {}
                None => v(line, Want::Refused),
            }
        }
        for p in [MGR, XCVR] {
            let line = format!("m q.getRegisteredNtt p:{}", key(&p));
            v(line, q.ntts.get(&ntt_key(&p)).map_or(Want::Refused, |n| val(format!("gasCost={},wormholeTransceiverIndex={}", n.1, n.0))));
        }
        for o in [ob(0), ob(1)] {
            let want = q.relays.get(&relay_key(&o)).map_or("null".into(), |r| format!("{}", r.0 as f64 / 1e9));
            v(format!("m q.wasRelayRequested p:{}", key(&o)), val(want));
        }
        for gwei in [0u64, 1, 500_000_000, 1_000_000_000, 1_000_000_001] {
            let line = format!("m ntt.quoteDeliveryPrice c:2 o:0:1:{}", gwei as u128 * 1_000_000_000);
            let (Some(i), Some(c), Some(nt)) = (q.instance, q.chains.get(&chain_key(2)), q.ntts.get(&ntt_key(&MGR))) else {
                v(line, Want::Refused);
                continue;
            };
            match quote(i.3, *c, nt.1, gwei) {
                Some(x) if c.1 != u64::MAX && gwei <= c.0 && c.2 > 0 && i.3 > 0 => {
                    let t = x as u128 + rent_min(16) as u128;
                    // above this, amounts are not exact in a client that uses doubles
                    if t < 1 << 52 {
                        v(line, Want::Within(t, t + t / 10 + 1000));
                    }
                }
                _ => v(line, Want::Refused),
            }
        }
    }

    fn txs(&self, n: usize, w: &World, full: bool, out: &mut Vec<Probe>) {
        let d = self.d;
        let mut v = |line: String, want: Want| out.push(Probe { state: n, line, want });
        let Some(c) = w.data(&config()).and_then(Config::decode) else { return };
        let one = |x: Vec<Instruction>| Want::Txs(vec![x]);
        let people: &[&str] = if full { &["owner", "dave", "mallory"] } else { &["owner"] };
        for s in people {
            let s = k(s);
            let ks = key(&s);
            v(format!("m ntt.pause k:{ks}"), one(vec![set_paused(s, true)]));
            v(format!("m ntt.unpause k:{ks}"), one(vec![set_paused(s, false)]));
            for new in ["dave", "mallory"] {
                v(format!("m ntt.setOwner k:{} k:{ks}", key(&k(new))), one(vec![transfer_ownership(false, s, k(new))]));
            }
            for (ch, dec, lim) in [(2u16, 9u8, 1000u64), (2, 18, u64::MAX), (self.far, 0, 0), (self.none, 6, 256), (65535, 255, 1 << 63)] {
                let a = peer_addr(ch);
                v(format!("m ntt.setPeer u:{ch}:{} i:{dec} n:{lim} k:{ks}", h(&a)), one(vec![set_peer(s, s, ch, &a, lim, dec)]));
            }
            v(format!("m ntt.setPeer u:2:{} i:9 n:{} k:{ks}", h(&peer_addr(2)), 1u128 << 64), Want::Refused);
            for l in [0u64, 255, 256, 3000, (1 << 53) + 1, u64::MAX] {
                v(format!("m ntt.setOutboundLimit n:{l} k:{ks}"), one(vec![set_outbound_limit(s, l)]));
                for ch in [2, self.far, self.none] {
                    v(format!("m ntt.setInboundLimit c:{ch} n:{l} k:{ks}"), one(vec![set_inbound_limit(s, ch, l)]));
                }
            }
            v(format!("m ntt.setOutboundLimit n:{} k:{ks}", 1u128 << 64), Want::Refused);
            for (f, t) in [("m", MGR), ("x", XCVR)] {
                for ch in [2, self.far, self.none, 255, 256] {
                    let a = xpeer_addr(&t, ch ^ 1);
                    let want = one(vec![set_xpeer(&t, s, s, ch, &a), broadcast_peer(&t, s, generated(0), ch)]);
                    v(format!("{f} ntt.setTransceiverPeer i:0 u:{ch}:{} k:{ks}", h(&a)), want.clone());
                    v(format!("{f} ntt.setWormholeTransceiverPeer u:{ch}:{} k:{ks}", h(&a)), want);
                }
                v(format!("{f} ntt.setTransceiverPeer i:1 u:2:{} k:{ks}", h(&a32("x"))), Want::Refused);
                for payer in [s, k("payer")] {
                    let t = vec![vec![register_transceiver(payer, s, &t), d.broadcast_id(&t, payer, generated(0))]];
                    v(format!("{f} ntt.registerWormholeTransceiver w:{}:{ks}", key(&payer)), if c.paused { Want::OrRefuse(t) } else { Want::Txs(t) });
                }
            }
        }
        // sending
        let mut sends: Vec<(&str, u64, u16, bool)> = vec![];
        for q in [false, true] {
            for a in [0u64, 7, 10, 255, 256, 405, 3009, 3010, 49_999, 1 << 40, u64::MAX] {
                sends.push(("alice", a, 2, q));
            }
            for who in ["carol", "bob", "dave", "mallory"] {
                sends.push((who, 5000, 2, q));
                sends.push((who, 10, self.far, q));
            }
            sends.push(("alice", 1000, self.far, q));
            sends.push(("alice", 1000, self.none, q));
            sends.push(("alice", 2001, self.far, q));
        }
        if !full {
            sends.retain(|x| [10, 405, 3010, 2001].contains(&x.1));
        }
        let qo = qobserve(w);
        for (who, amount, ch, q) in sends {
            let (s, out) = (k(who), generated(0));
            let a = TransferArgs { amount, chain: ch, recipient: a32("far-recipient"), queue: q };
            let base = |t: &Pubkey| {
                let from = d.ata(&s);
                vec![
                    d.approve(from, s, session_authority(&s, &a), amount),
                    d.transfer_raw(c.burning, s, from, &s, out, &a, &self.extra(&s)),
                    release_outbound(t, s, out, !q),
                ]
            };
            for (f, t) in [("m", MGR), ("x", XCVR)] {
                let call = |o: String| format!("{f} ntt.transfer k:{} n:{amount} u:{ch}:{} o:{}:{o}", key(&s), h(&a.recipient), q as u8);
                v(call("0".into()), one(base(&t)));
                if ch != 2 || !(full || amount == 405) {
                    continue;
                }
                for gwei in [None, Some(0u64), Some(1), Some(15), Some(500_000_000), Some(1_000_000_001)] {
                    let mut ixs = base(&t);
                    let mut data = gwei.unwrap_or(0).to_le_bytes().to_vec();
                    data.extend_from_slice(&u64::MAX.to_le_bytes());
                    let m = |p: Pubkey, s: bool, w: bool| AccountMeta { pubkey: p, is_signer: s, is_writable: w };
                    ixs.push(ix(QTR, "request_relay", &[&data], vec![
                        m(s, true, true), m(instance(), false, false), m(chain_key(ch), false, false), m(ntt_key(&MGR), false, false),
                        m(out, false, false), m(relay_key(&out), false, true), m(system_program::ID, false, false),
                    ]));
                    // the client does not quote for prices that are not set
                    let unset = qo.instance.map_or(true, |i| i.3 == 0) || qo.chains.get(&chain_key(ch)).map_or(true, |c| c.2 == 0);
                    let want = if unset { Want::OrRefuse(vec![ixs]) } else { one(ixs) };
                    v(call(format!("1{}", gwei.map_or(String::new(), |g| format!(":{}", g as u128 * 1_000_000_000)))), want);
                }
            }
        }
        v(format!("m ntt.transfer k:{} n:{} u:2:{} o:0:0", key(&k("alice")), 1u128 << 64, h(&a32("r"))), Want::Refused);
        // receiving
        for (i, (ch, x)) in self.msgs.iter().enumerate() {
            let to = d.ata(&Pubkey::from(x.msg.to));
            let item = inbox_item(*ch, &x.msg);
            for who in if full { &["payer", "bob", "mallory"][..] } else { &["payer"] } {
                let s = k(who);
                let rel = d.release_inbound(c.burning, s, item, to, false, &self.extra(&token_authority()));
                for (f, t) in [("m", MGR), ("x", XCVR)] {
                    let hash = vaa_hash(i, &t);
                    let mut txs = vec![];
                    if w.get(&d.ata(&s)).is_none() {
                        let m = |p: Pubkey, s: bool, w: bool| AccountMeta { pubkey: p, is_signer: s, is_writable: w };
                        txs.push(vec![Instruction {
                            program_id: ATA,
                            accounts: vec![m(s, true, true), m(d.ata(&s), false, true), m(s, false, false), m(d.mint, false, false), m(system_program::ID, false, false), m(d.tp, false, false)],
                            data: vec![],
                        }]);
                    }
                    let vt = vtm(&t, *ch, &x.msg.id);
                    v(
                        format!("{f} x.receive a:{ch}:{}:{} k:{}", h(&hash), h(&x.wire()), key(&s)),
                        one(vec![receive(&t, s, pda(&[b"PostedVAA", &hash], &CORE), *ch, &x.msg.id)]),
                    );
                    txs.push(vec![receive(&t, s, pda(&[b"PostedVAA", &hash], &CORE), *ch, &x.msg.id), d.redeem(s, &t, *ch, vt, &x.msg), rel.clone()]);
                    v(
                        format!("{f} ntt.redeem l:a:{ch}:{}:{} k:{}", h(&hash), h(&x.wire()), key(&s)),
                        if c.paused { Want::OrRefuse(txs) } else { Want::Txs(txs) },
                    );
                }
                let t = vec![vec![rel]];
                v(format!("m ntt.completeInboundQueuedTransfer c:{ch} m:{} k:{}", h(&x.wire()), key(&s)), if c.paused { Want::OrRefuse(t) } else { Want::Txs(t) });
            }
        }
        // the lookup table
        let init = d.initialize_lut(k("payer"), w.slot - 1);
        let table = w.data(&lut_account()).and_then(|l| w.data(&Pubkey::try_from(&l[9..41]).ok()?)).unwrap_or(&[]);
        let has = |p: &Pubkey| table.get(56..).is_some_and(|t| t.chunks(32).any(|c| c == p.as_ref()));
        let t = if init.accounts[6..].iter().all(|a| has(&a.pubkey)) { vec![] } else { vec![vec![init]] };
        v(format!("m ntt.initializeOrUpdateLUT y:{}", key(&k("payer"))), Want::Txs(t));
    }

    /// The relay quoter's administration.
    fn quoter(&self, n: usize, w: &World, full: bool, out: &mut Vec<Probe>) {
        let q = qobserve(w);
        let mut v = |line: String, q: Q, may: bool| {
            let t = vec![vec![q.ix(w)]];
            out.push(Probe { state: n, line, want: if may { Want::OrRefuse(t) } else { Want::Txs(t) } })
        };
        let Some((owner, assistant, fee, _)) = q.instance else {
            for f in ["fees-1", "fees-2"] {
                v(format!("m q.createInitalizeInstruction p:{}", key(&k(f))), Q::Init { owner: k("owner"), fee: k(f) }, false);
            }
            return;
        };
        for x in ["dave", "carol"] {
            v(format!("m q.createSetAssistantInstruction p:{}", key(&k(x))), Q::SetAssistant { owner, to: Some(k(x)) }, k(x) == assistant);
        }
        for f in ["fees-1", "fees-2"] {
            v(format!("m q.createSetFeeRecipientInstruction p:{}", key(&k(f))), Q::SetFee { owner, fee: k(f) }, k(f) == fee);
        }
        for by in if full { &["owner", "carol", "mallory"][..] } else { &["carol"] } {
            let by = k(by);
            let b = key(&by);
            for ch in [2, self.far, self.none, 255, 65535] {
                v(format!("m q.createRegisterChainInstruction p:{b} c:{ch}"), Q::RegChain { by, chain: ch }, false);
                for (max, base) in [(0.0, 0.0), (0.5, 1.25), (3.0, 1000.0), (1e-9, 1e-6), (1.001, 4.35), (INEXACT9, INEXACT6)] {
                    let q = Q::Params { by, chain: ch, max: (max * 1e9f64).round() as u64, base: (base * 1e6f64).round() as u64 };
                    v(format!("m q.createUpdateChainParamsInstruction p:{b} c:{ch} i:{max} i:{base}"), q, false);
                }
                v(format!("m q.createPauseRelayForChainInstruction p:{b} c:{ch}"), Q::Params { by, chain: ch, max: 0, base: u64::MAX }, false);
                for (native, gas) in [(0.0, 0.0), (3000.5, 30.0), (1e-6, 1e-9), (INEXACT6, INEXACT9)] {
                    let q = Q::Prices { by, chain: ch, native: (native * 1e6f64).round() as u64, gas: (gas * 1e9f64).round() as u64 };
                    v(format!("m q.createUpdateChainPricesInstruction p:{b} c:{ch} i:{native} i:{gas}"), q, false);
                }
            }
            for p in [MGR, XCVR] {
                for (cost, idx) in [(0u32, 0u8), (300_000, 1), (u32::MAX, 255)] {
                    v(format!("m q.createRegisterNttInstruction p:{b} p:{} i:{cost} i:{idx}", key(&p)), Q::RegNtt { by, id: p, idx, cost }, false);
                }
                v(format!("m q.createDeregisterNttInstruction p:{b} p:{}", key(&p)), Q::DeregNtt { by, id: p }, false);
            }
            for price in [0.0, 150.0, 1e-6, 123456.789, INEXACT6] {
                v(format!("m q.createUpdateSolPriceInstruction p:{b} i:{price}"), Q::Sol { by, price: (price * 1e6f64).round() as u64 }, false);
            }
            for o in [ob(0), ob(1)] {
                v(format!("m q.createCloseRelayInstruction p:{b} p:{}", key(&o)), Q::Close { by, outbox: o, to: fee }, false);
            }
        }
    }
}

/// C45: what the client builds.
pub fn c45(r: &mut Run) {
    client(r, false)
}

/// C46: what the client reports.
pub fn c46(r: &mut Run) {
    client(r, true)
}

fn client(r: &mut Run, reads: bool) {
    r.focus(&["client/*"]);
    hooks::install();
    let t = r.thorough;
    for (b, t22, thr) in [(false, false, 1u8), (true, true, 1), (true, false, 2), (false, true, 2)] {
        if r.done() || (!t && thr == 2 && !(reads && b)) {
            break;
        }
        let name = format!("{}-{}-{}-threshold{thr}", if reads { "reads" } else { "client" }, if b { "burning" } else { "locking" }, if t22 { "t22" } else { "spl" });
        let Some(m) = r.setup(&name, mixed::build(b, t22, thr)) else { return };
        let (far, none) = if b { (258u16, 512u16) } else { (512, 258) };
        let s = &m.s;
        let set = Set {
            d: &m.d,
            hook: None,
            msgs: vec![
                (2, s.inbound(2, 1, 40, 8, &k("bob"))),
                (2, s.inbound(2, 3, 101, 8, &k("bob"))),
                (2, s.inbound(2, 21, 30, 8, &k("dave"))),
                (2, s.inbound(2, 22, 100, 8, &k("bob"))),
                (2, XMsg { source_manager: peer_addr(far), ..s.inbound(2, 23, 5, 8, &k("bob")) }),
                (far, s.inbound(far, 24, 1, 6, &k("alice"))),
                (far, s.inbound(far, 25, 3, 6, &k("carol"))),
                (none, s.inbound(none, 26, 3, 6, &k("carol"))),
            ],
            far,
            none,
        };
        let o = k("owner");
        let qs = [
            Q::Init { owner: o, fee: k("fees-1") },
            Q::SetAssistant { owner: o, to: Some(k("carol")) },
            Q::RegChain { by: o, chain: 2 },
            Q::RegChain { by: o, chain: far },
            Q::RegNtt { by: o, id: MGR, idx: 0, cost: 300_000 },
            Q::Sol { by: o, price: 150_000_000 },
            Q::Prices { by: o, chain: 2, native: 3_000_000_000, gas: 30_000_000_000 },
            Q::Params { by: o, chain: 2, max: 1_000_000_000, base: 1_250_000 },
            Q::Params { by: o, chain: far, max: 0, base: u64::MAX },
        ];
        let mut states: Vec<State> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut add = |states: &mut Vec<State>, name: String, w: World| {
            let mut hs = KeyHasher::new();
            world_key(&mut hs, &w);
            if seen.insert(hs.finish()) {
                states.push(State { name, w });
            }
        };
        for (n, w) in &m.inits {
            let mut w = w.clone();
            for f in ["fees-1", "fees-2"] {
                w.set(k(f), wallet(5_000_000));
            }
            set.post(&mut w);
            let Some(x) = r.setup(&name, qrun(w.clone(), &qs)) else { return };
            add(&mut states, n.clone(), x.clone());
            add(&mut states, format!("{n}, no quoter"), w);
            if let Ok(y) = run_op(&x, &Op::InitLut { payer: k("payer"), slot: x.slot - 1 }, &m.d) {
                add(&mut states, format!("{n}, with a lookup table"), y);
            }
            // a table made before the last address was part of it
            if let Ok(mut y) = run_op(&x, &Op::InitLut { payer: k("payer"), slot: x.slot - 2 }, &m.d) {
                let t = lut_address(y.slot - 2);
                if let Some(mut a) = y.get(&t).cloned() {
                    a.data.truncate(a.data.len() - 32);
                    y.set(t, a);
                    add(&mut states, format!("{n}, with an old lookup table"), y);
                }
            }
            if let Ok(y) = qrun(x.clone(), &[Q::Sol { by: o, price: 1 << 50 }, Q::Params { by: o, chain: 2, max: 0, base: u64::MAX }]) {
                add(&mut states, format!("{n}, relaying paused, dear SOL"), y);
            }
            for q in [
                Q::Request { payer: k("alice"), outbox: ob(0), dropoff: 500_000_000, max_fee: u64::MAX },
                Q::Params { by: o, chain: 2, max: 0, base: u64::MAX },
                Q::Params { by: o, chain: 2, max: 1 << 60, base: 1 << 60 },
                Q::Prices { by: o, chain: 2, native: 0, gas: 0 },
                Q::Prices { by: o, chain: 2, native: 1, gas: 1 },
                Q::Sol { by: o, price: 0 },
                Q::DeregNtt { by: o, id: MGR },
            ] {
                if let Ok(y) = qrun(x.clone(), std::slice::from_ref(&q)) {
                    add(&mut states, format!("{n}, then {q:?}"), y);
                }
            }
        }
        let starts = states.len();
        for i in 0..starts {
            if states[i].name.contains(',') {
                continue;
            }
            let next: Vec<Option<World>> = par(m.ops.len(), |j| run_op(&states[i].w, &m.ops[j], &m.d).ok());
            for (j, w) in next.into_iter().enumerate() {
                if let Some(w) = w {
                    let name = format!("{}, then {:?}", states[i].name, m.ops[j]);
                    add(&mut states, name, w);
                }
            }
        }
        if reads {
            // histories of two operations (thorough: from every start; quick: from the first)
            for i in starts..states.len() {
                if !t && !states[i].name.starts_with(&format!("{},", states[0].name)) {
                    continue;
                }
                let next: Vec<Option<World>> = par(m.ops.len(), |j| run_op(&states[i].w, &m.ops[j], &m.d).ok());
                for (j, w) in next.into_iter().enumerate() {
                    if let Some(w) = w {
                        let name = format!("{}, {:?}", states[i].name, m.ops[j]);
                        add(&mut states, name, w);
                    }
                }
            }
        }
        // a deployment whose transceivers are not registered yet, and none at all
        let fresh = Setup { transceivers: vec![], ..s.clone() };
        let Some(mut w) = r.setup(&name, fresh.build()) else { return };
        set.post(&mut w);
        add(&mut states, "no transceivers".into(), w.clone());
        for p in [true, false] {
            if let Ok(y) = run_op(&w, &Op::SetPaused(o, p), &m.d) {
                add(&mut states, format!("no transceivers, paused {p}"), y);
            }
        }
        let genesis = states.len();
        states.push(State { name: "before initialization".into(), w: fresh.genesis() });

        let mut probes = vec![];
        for (n, st) in states.iter().enumerate() {
            let full = n < starts || n + 4 > states.len();
            if reads {
                set.values(n, &st.w, &mut probes);
                continue;
            }
            set.txs(n, &st.w, full || t, &mut probes);
            if n < starts {
                set.quoter(n, &st.w, full, &mut probes);
            }
        }
        // initialization
        for mode in if reads { &[][..] } else { &[false, true] } {
            let mode = *mode;
            for limit in [0u64, 1000, u64::MAX] {
                for dep in ["owner", "mallory"] {
                    for st in [0, genesis] {
                        let d = Dep { burning: mode, ..m.d.clone() };
                        probes.push(Probe {
                            state: st,
                            line: format!("m lib.createInitializeInstruction I:{}:{}:{}:{}:{limit}:{}:{}", key(&k("payer")), key(&k(dep)), d.chain, key(&d.mint), key(&d.tp), if mode { "burning" } else { "locking" }),
                            want: Want::Txs(vec![vec![d.initialize(k("payer"), k(dep), limit)]]),
                        });
                    }
                }
            }
        }
        for (st, mode, who) in [(0, b, "owner"), (0, !b, "owner"), (genesis, b, "owner"), (genesis, !b, "owner"), (genesis, b, "mallory")] {
            if reads {
                break;
            }
            let d = Dep { burning: mode, chain: 1, ..m.d.clone() };
            probes.push(Probe {
                state: st,
                line: format!("m first.initialize k:{} J:{}:7000:{}", key(&k(who)), key(&d.mint), if mode { "burning" } else { "locking" }),
                want: Want::Txs(vec![vec![d.initialize(k(who), k(who), 7000)]]),
            });
        }
        decide(r, &name, &m.d, &states, &probes);
    }
    if reads {
        return;
    }
    // tokens with a transfer hook
    for hook in [hooks::DUMMY, hooks::REC] {
        for burning in [false, true] {
            if r.done() {
                return;
            }
            let s = Setup {
                burning,
                t22: true,
                users: vec![("alice", 100_000), ("bob", 500), ("carol", 5000)],
                custody: if burning { 70 } else { 50_000 },
                peers: vec![(2, 9, 1000), (512, 6, 1000)],
                transceivers: vec![MGR, XCVR],
                ..Setup::default()
            };
            let name = format!("client-{}-{}", if hook == hooks::DUMMY { "dummy-hook" } else { "policy-hook" }, if burning { "burning" } else { "locking" });
            let d = s.dep();
            let set = Set {
                d: &d,
                hook: Some(hook),
                msgs: vec![
                    (2, s.inbound(2, 1, 40, 8, &k("bob"))),
                    (2, s.inbound(2, 3, 10_100, 8, &k("bob"))),
                    (512, s.inbound(512, 24, 1, 6, &k("alice"))),
                ],
                far: 512,
                none: 258,
            };
            let Some(mut w) = r.setup(&name, hooks::build(&s, hooks::Ext::Hook(hook))) else { return };
            set.post(&mut w);
            let mut states = vec![];
            let mut inbound = |w: &World, n: usize| -> Result<World, String> {
                let (c, x) = &set.msgs[n];
                let vaa = pda(&[b"PostedVAA", &vaa_hash(n, &MGR)], &CORE);
                exec(w, &[receive(&MGR, k("payer"), vaa, *c, &x.msg.id), d.redeem(k("payer"), &MGR, *c, vtm(&MGR, *c, &x.msg.id), &x.msg)]).map(|t| t.world)
            };
            let Some(one) = r.setup(&name, inbound(&w, 0).and_then(|w| inbound(&w, 1))) else { return };
            let mut later = one.clone();
            later.now += DAY;
            for (n, x) in [("fresh", &w), ("redeemed", &one), ("redeemed, a day later", &later)] {
                states.push(State { name: n.into(), w: x.clone() });
                if hook == hooks::REC {
                    for (mode, key) in [(1u8, Pubkey::default()), (2, d.ata(&k("alice"))), (2, d.ata(&k("bob"))), (2, d.custody())] {
                        let mut y = x.clone();
                        y.edit(&hooks::log_key(), |a| {
                            a.data[0] = mode;
                            a.data[1..33].copy_from_slice(key.as_ref());
                        });
                        states.push(State { name: format!("{n}, hook policy {mode} {key}"), w: y });
                    }
                }
            }
            let mut probes = vec![];
            for (n, st) in states.iter().enumerate() {
                set.txs(n, &st.w, true, &mut probes);
            }
            decide(r, &name, &d, &states, &probes);
        }
    }
}

fn decide(r: &mut Run, name: &str, d: &Dep, states: &[State], probes: &[Probe]) {
    let ans = match ask_all(d, states, probes) {
        Ok(a) => a,
        Err(e) => {
            println!("no answers from the TypeScript client: {e}");
            std::process::exit(2);
        }
    };
    r.sweep(name, probes.len(), |i| {
        let (p, a) = (&probes[i], &ans[i]);
        let st = &states[p.state];
        let mut c = Case::new({
            let (n, l) = (st.name.clone(), p.line.clone());
            move || format!("{n}: {l}")
        });
        judge_one(&mut c, st, p, a);
        c
    });
}
