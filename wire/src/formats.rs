//! C15: wire formats. The oracle is an independent encoder written from
//! docs/Transceiver.md and docs/NttManager.md; values, truncation points and
//! byte corruptions are enumerated completely over the stated domains.

use anchor_lang::{AnchorDeserialize, AnchorSerialize, Space};
use ntt_messages::{
    chain_id::ChainId,
    mode::Mode,
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::{TransceiverMessage, TransceiverMessageData, TransceiverMessageDataBytes},
    transceivers::wormhole::{WormholeTransceiver, WormholeTransceiverInfo, WormholeTransceiverRegistration},
    trimmed_amount::TrimmedAmount,
};
use nttmc::client::{NttMsg, XMsg};
use nttmc::explore::*;
use std::{fmt::Debug, io};
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

type Empty = TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>>;

/// A custom payload of N bytes, announced with its length.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Blob<const N: usize, const TYPED: bool>(Vec<u8>);

impl<const N: usize, const T: bool> Space for Blob<N, T> {
    const INIT_SPACE: usize = N;
}
impl<const N: usize, const T: bool> TypePrefixedPayload for Blob<N, T> {
    const TYPE: Option<u8> = if T { Some(0x5A) } else { None };
}
impl<const N: usize, const T: bool> Readable for Blob<N, T> {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(r: &mut R) -> io::Result<Self> {
        let mut v = vec![0; N];
        r.read_exact(&mut v)?;
        Ok(Blob(v))
    }
}
impl<const N: usize, const T: bool> Writeable for Blob<N, T> {
    fn written_size(&self) -> usize {
        self.0.len()
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.0)
    }
}

fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn same<T: Debug>(a: &T, b: &T) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(300).map(|x| format!("{x:02x}")).collect();
    format!("{s} ({} bytes)", b.len())
}

fn written<T: Writeable>(v: &T) -> Option<Vec<u8>> {
    call(|| {
        let mut b = vec![];
        v.write(&mut b).map(|_| b)
    })?
    .ok()
}

/// Encoding, declared size and decoding of one value.
fn probe<T: Readable + Writeable + Debug>(c: &mut Case, name: &str, v: &T, want: &[u8]) {
    match written(v) {
        Some(b) if b == want => c.eval(true, &b),
        b => {
            c.eval(false, &0);
            c.fail(name, "bytes", format!("{v:?} is written as {:?}, documented {}", b.map(|b| hex(&b)), hex(want)));
        }
    }
    let declared = call(|| v.written_size());
    if declared != Some(want.len()) || T::SIZE.is_some_and(|s| s != want.len()) {
        c.fail(name, "size", format!("{v:?} declares {declared:?} / {:?} bytes, documented {}", T::SIZE, want.len()));
    }
    let mut long = want.to_vec();
    long.extend([1, 2, 3]);
    let mut rd = &long[..];
    match call(|| T::read(&mut rd)) {
        Some(Ok(x)) if same(&x, v) && rd.len() == 3 => {}
        Some(Ok(x)) => c.fail(name, "decode", format!("{} is read as {x:?} leaving {} bytes, expected {v:?} and 3", hex(want), rd.len())),
        _ => c.fail(name, "decode", format!("{} is rejected", hex(want))),
    }
    c.steps += 1;
}

fn truncations<T: Readable + Debug>(c: &mut Case, name: &str, want: &[u8]) {
    for n in 0..want.len() {
        c.steps += 1;
        c.rejected += 1;
        match call(|| T::read(&mut &want[..n])) {
            Some(Err(_)) => {}
            Some(Ok(x)) => c.fail(name, "truncated", format!("{} (cut from {}) is read as {x:?}", hex(&want[..n]), want.len())),
            None => c.fail(name, "panic", format!("{} (cut from {}) panics", hex(&want[..n]), want.len())),
        }
    }
}

/// The value of the Anchor (account and instruction) serialisation.
fn borsh<T: AnchorSerialize + AnchorDeserialize + Debug>(c: &mut Case, name: &str, v: &T, want: &[u8]) {
    match call(|| v.try_to_vec()) {
        Some(Ok(b)) if b == want => {}
        b => c.fail(name, "account", format!("{v:?} is stored as {b:?}, expected {}", hex(want))),
    }
    match call(|| T::deserialize(&mut &want[..])) {
        Some(Ok(x)) if same(&x, v) => {}
        x => c.fail(name, "account", format!("{} is loaded as {x:?}, expected {v:?}", hex(want))),
    }
    c.steps += 2;
}

fn pat(tag: u8, kind: u8) -> [u8; 32] {
    match kind {
        0 => std::array::from_fn(|i| tag.wrapping_mul(32).wrapping_add(i as u8)),
        1 => [0; 32],
        2 => [0xff; 32],
        _ => {
            let mut a = [0; 32];
            a[(tag as usize * 5) % 32] = tag | 0x80;
            a
        }
    }
}

fn ntt<A: Space>(m: &NttMsg, a: A) -> NativeTokenTransfer<A> {
    NativeTokenTransfer {
        amount: TrimmedAmount {
            amount: m.amount,
            decimals: m.decimals,
        },
        source_token: m.source_token,
        to_chain: ChainId { id: m.to_chain },
        to: m.to,
        additional_payload: a,
    }
}

fn mgr<A: Space>(m: &NttMsg, a: A) -> NttManagerMessage<NativeTokenTransfer<A>> {
    NttManagerMessage {
        id: m.id,
        sender: m.sender,
        payload: ntt(m, a),
    }
}

fn full<A: Space>(x: &XMsg, a: A) -> TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<A>> {
    TransceiverMessage::new(x.source_manager, x.recipient_manager, mgr(&x.msg, a), x.extra.clone())
}

fn ntt_wire(m: &NttMsg, extra: Option<&[u8]>) -> Vec<u8> {
    let mut p = m.wire()[66..].to_vec();
    if let Some(e) = extra {
        p.extend((e.len() as u16).to_be_bytes());
        p.extend(e);
    }
    p
}

fn mgr_wire(m: &NttMsg, extra: Option<&[u8]>) -> Vec<u8> {
    let p = ntt_wire(m, extra);
    let mut d = m.id.to_vec();
    d.extend(m.sender);
    d.extend((p.len() as u16).to_be_bytes());
    d.extend(p);
    d
}

fn full_wire(x: &XMsg, extra: Option<&[u8]>) -> Vec<u8> {
    let m = mgr_wire(&x.msg, extra);
    let mut d = vec![0x99, 0x45, 0xFF, 0x10];
    d.extend(x.source_manager);
    d.extend(x.recipient_manager);
    d.extend((m.len() as u16).to_be_bytes());
    d.extend(m);
    d.extend((x.extra.len() as u16).to_be_bytes());
    d.extend(&x.extra);
    d
}

fn blob<const N: usize, const T: bool>(c: &mut Case, x: &XMsg, cut: bool) {
    let body: Vec<u8> = (0..N).map(|i| (i * 7 + 3) as u8).collect();
    let p = Blob::<N, T>(body.clone());
    let mut bytes = if T { vec![0x5A] } else { vec![] };
    bytes.extend(&body);
    let e = Some(&bytes[..]);
    probe(c, "transfer", &ntt(&x.msg, p.clone()), &ntt_wire(&x.msg, e));
    probe(c, "manager message", &mgr(&x.msg, p.clone()), &mgr_wire(&x.msg, e));
    probe(c, "transceiver message", &full(x, p), &full_wire(x, e));
    if cut {
        truncations::<TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<Blob<N, T>>>>(
            c,
            "transceiver message",
            &full_wire(x, e),
        );
    }
}

fn base(kinds: [u8; 6], amount: u64, decimals: u8, to_chain: u16, extra: usize) -> XMsg {
    XMsg {
        source_manager: pat(1, kinds[0]),
        recipient_manager: pat(2, kinds[1]),
        msg: NttMsg {
            id: pat(3, kinds[2]),
            sender: pat(4, kinds[3]),
            decimals,
            amount,
            source_token: pat(5, kinds[4]),
            to: pat(6, kinds[5]),
            to_chain,
        },
        extra: (0..extra).map(|i| (i * 11 + 1) as u8).collect(),
    }
}

const AMOUNTS: [u64; 10] = [0, 1, 0x7f, 0xff, 0x100, 1234567, 0x0102_0304_0506_0708, 1 << 63, u64::MAX - 1, u64::MAX];
const DECS: [u8; 6] = [0, 1, 7, 8, 128, 255];
const CHAINS: [u16; 7] = [0, 1, 2, 0xff, 0x100, 0x0102, 0xffff];
const EXTRA: [usize; 6] = [0, 1, 32, 255, 256, 65535];

pub fn c15(r: &mut Run) {
    r.focus(&["*"]);
    std::panic::set_hook(Box::new(|_| {}));
    let kinds: &[u8] = if r.thorough { &[0, 1, 2, 3] } else { &[0, 2] };
    let nk = kinds.len().pow(6);
    let (na, nd, nc) = (AMOUNTS.len(), DECS.len(), CHAINS.len());

    // every value of the small types
    r.sweep("scalars", 65536, |i| {
        let mut c = Case::new(move || format!("chain / amount {i}"));
        let id = i as u16;
        probe(&mut c, "chain id", &ChainId { id }, &id.to_be_bytes());
        borsh(&mut c, "chain id", &ChainId { id }, &id.to_le_bytes());
        if i < 256 {
            let b = [i as u8];
            let want = match i {
                0 => Some(Mode::Locking),
                1 => Some(Mode::Burning),
                _ => None,
            };
            match (call(|| Mode::read(&mut &b[..])), want) {
                (Some(Ok(m)), Some(w)) if m == w => {}
                (Some(Err(_)), None) => {}
                (g, w) => c.fail("mode", "decode", format!("mode byte {i}: {g:?}, expected {w:?}")),
            }
            if let Some(w) = want {
                probe(&mut c, "mode", &w, &b);
                borsh(&mut c, "mode", &w, &b);
                let shown = w.to_string();
                if shown != ["Locking", "Burning"][i] {
                    c.fail("mode", "name", format!("mode {i} is shown as {shown}"));
                }
            }
            for a in AMOUNTS {
                let mut want = vec![i as u8];
                want.extend(a.to_be_bytes());
                let v = TrimmedAmount {
                    amount: a,
                    decimals: i as u8,
                };
                probe(&mut c, "amount", &v, &want);
                truncations::<TrimmedAmount>(&mut c, "amount", &want);
                let mut want = a.to_le_bytes().to_vec();
                want.push(i as u8);
                borsh(&mut c, "amount", &v, &want);
            }
            truncations::<ChainId>(&mut c, "chain id", &id.to_be_bytes());
            truncations::<Mode>(&mut c, "mode", &[1]);
        }
        c
    });

    // the messages the programs exchange
    r.sweep("messages", nk * na * nd * nc, |i| {
        let mut ix = Ix(i);
        let ks: [u8; 6] = std::array::from_fn(|_| *ix.pick(kinds));
        let (a, d, ch) = (*ix.pick(&AMOUNTS), *ix.pick(&DECS), *ix.pick(&CHAINS));
        let x = base(ks, a, d, ch, [0, 1, 2, 40][i % 4]);
        let y = x.clone();
        let mut c = Case::new(move || format!("{y:?}"));
        probe(&mut c, "transfer", &ntt(&x.msg, EmptyPayload {}), &ntt_wire(&x.msg, None));
        probe(&mut c, "manager message", &mgr(&x.msg, EmptyPayload {}), &mgr_wire(&x.msg, None));
        let v = full(&x, EmptyPayload {});
        probe(&mut c, "transceiver message", &v, &full_wire(&x, None));
        borsh(&mut c, "transceiver message", &v, &full_wire(&x, None));
        // identity of a message: source chain and complete content
        let from = CHAINS[(i / 3) % nc];
        let got = call(|| mgr(&x.msg, EmptyPayload {}).keccak256(ChainId { id: from }).to_bytes());
        if got != Some(x.msg.digest(from)) {
            c.fail("manager message", "digest", format!("{:?} from chain {from}: digest {got:?}", x.msg));
        }
        // the record a transceiver keeps, and the partial views the manager takes of it
        let mut acct = x.source_manager.to_vec();
        acct.extend(x.recipient_manager);
        acct.extend(x.msg.borsh());
        let data: TransceiverMessageData<NativeTokenTransfer<EmptyPayload>> = v.message_data.clone();
        borsh(&mut c, "record", &data, &acct);
        let view = call(|| {
            let p = TransceiverMessageDataBytes::<NativeTokenTransfer<EmptyPayload>>::parse(&acct);
            (p.source_ntt_manager(), p.recipient_ntt_manager(), p.ntt_manager_payload())
        });
        match view {
            Some((s, t, m)) if s == x.source_manager && t == x.recipient_manager && same(&m, &data.ntt_manager_payload) => {}
            g => c.fail("record", "view", format!("{} is viewed as {g:?}", hex(&acct))),
        }
        // broadcasts
        for (b, mode) in [(0u8, Mode::Locking), (1, Mode::Burning)] {
            let v = WormholeTransceiverInfo {
                manager_address: x.source_manager,
                manager_mode: mode,
                token_address: x.recipient_manager,
                token_decimals: d,
            };
            let w = info_wire(&x.source_manager, b, &x.recipient_manager, d);
            probe(&mut c, "info", &v, &w);
            borsh(&mut c, "info", &v, &w);
        }
        let v = WormholeTransceiverRegistration {
            chain_id: ChainId { id: ch },
            transceiver_address: x.msg.to,
        };
        let w = registration_wire(ch, &x.msg.to);
        probe(&mut c, "registration", &v, &w);
        borsh(&mut c, "registration", &v, &w);
        c
    });

    // custom payloads and their length fields
    r.sweep("custom-payloads", EXTRA.len() * na * nc, |i| {
        let mut ix = Ix(i);
        let (e, a, ch) = (*ix.pick(&EXTRA), *ix.pick(&AMOUNTS), *ix.pick(&CHAINS));
        let x = base([0; 6], a, DECS[i % nd], ch, e);
        let y = x.msg.clone();
        let mut c = Case::new(move || format!("{y:?} with {e} bytes of transceiver payload"));
        let cut = e <= 32 && a == 1234567 && ch == 2;
        probe(&mut c, "transceiver message", &full(&x, EmptyPayload {}), &full_wire(&x, None));
        blob::<0, false>(&mut c, &x, cut);
        blob::<1, false>(&mut c, &x, cut);
        blob::<32, false>(&mut c, &x, cut);
        blob::<255, false>(&mut c, &x, cut);
        blob::<256, false>(&mut c, &x, cut);
        blob::<0, true>(&mut c, &x, cut);
        blob::<1, true>(&mut c, &x, cut);
        blob::<255, true>(&mut c, &x, cut);
        // the largest that fits, and one more
        let room = 65535 - 66 - 81;
        let p = Blob::<0, false>(vec![7; room]);
        let w = full_wire(&x, Some(&p.0));
        if written(&full(&x, p)).as_ref() != Some(&w) {
            c.fail("transceiver message", "bytes", format!("custom payload of {room} bytes is not written as documented"));
        }
        for n in [room + 1, room + 66, room + 67, 65535, 65536, 65537, 70000] {
            if let Some(b) = written(&full(&x, Blob::<0, false>(vec![7; n]))) {
                c.fail("transceiver message", "overflow", format!("custom payload of {n} bytes is written as {}", hex(&b)));
            }
            c.steps += 1;
            c.rejected += 1;
        }
        for n in [65536usize, 65537, 131072] {
            if written(&ntt(&x.msg, Blob::<0, false>(vec![7; n]))).is_some() {
                c.fail("transfer", "overflow", format!("a transfer with {n} bytes of custom payload is written"));
            }
            if written(&mgr(&x.msg, Blob::<0, false>(vec![7; n]))).is_some() {
                c.fail("manager message", "overflow", format!("a message with {n} bytes of custom payload is written"));
            }
        }
        let mut y = x.clone();
        y.extra = vec![3; 65536];
        if written(&full(&y, EmptyPayload {})).is_some() {
            c.fail("transceiver message", "overflow", "a transceiver payload of 65536 bytes is written".into());
        }
        c
    });

    // every truncation point
    r.sweep("truncations", 4 * nd * EXTRA.len(), |i| {
        let mut ix = Ix(i);
        let kind = *ix.pick(&[0u8, 1, 2, 3]);
        let d = *ix.pick(&DECS);
        let e = *ix.pick(&EXTRA[..]);
        let x = base([kind; 6], AMOUNTS[i % na], d, CHAINS[i % nc], e.min(256));
        let y = x.msg.clone();
        let mut c = Case::new(move || format!("{y:?}"));
        truncations::<NativeTokenTransfer<EmptyPayload>>(&mut c, "transfer", &ntt_wire(&x.msg, None));
        truncations::<NttManagerMessage<NativeTokenTransfer<EmptyPayload>>>(&mut c, "manager message", &mgr_wire(&x.msg, None));
        truncations::<Empty>(&mut c, "transceiver message", &full_wire(&x, None));
        truncations::<WormholeTransceiverInfo>(&mut c, "info", &info_wire(&x.msg.to, kind & 1, &x.msg.id, d));
        truncations::<WormholeTransceiverRegistration>(&mut c, "registration", &registration_wire(x.msg.to_chain, &x.msg.to));
        c
    });

    // every single-byte corruption: rejected, or read as exactly the changed message
    let samples: Vec<XMsg> = (0..if r.thorough { 24 } else { 4 })
        .map(|i| base([(i % 4) as u8; 6], AMOUNTS[(i * 3) % na], DECS[(i + 2) % nd], CHAINS[(i + 5) % nc], [0, 1, 33][i % 3]))
        .collect();
    let cases: Vec<(usize, usize)> = samples
        .iter()
        .enumerate()
        .flat_map(|(s, x)| (0..full_wire(x, None).len()).map(move |p| (s, p)))
        .collect();
    r.sweep("corruptions", cases.len(), |i| {
        let (s, pos) = cases[i];
        let w = full_wire(&samples[s], None);
        let mut c = Case::new(move || format!("message {s}, byte {pos}"));
        // length fields: 68..70 (manager message), 134..136 (transfer), 215..217 (transceiver payload)
        let redundant = (68..70).contains(&pos) || (134..136).contains(&pos) || (215..217).contains(&pos);
        for delta in 1..=255u8 {
            let mut b = w.clone();
            b[pos] = b[pos].wrapping_add(delta);
            let got = call(|| Empty::read(&mut &b[..]));
            c.steps += 1;
            if redundant {
                // only required: no panic
                if got.is_none() {
                    c.fail("transceiver message", "panic", format!("{} panics", hex(&b)));
                }
                continue;
            }
            match (got, XMsg::parse(&b)) {
                (Some(Err(_)), None) => c.rejected += 1,
                (Some(Ok(g)), Some(x)) if same(&g, &full(&x, EmptyPayload {})) => c.accepted += 1,
                (g, x) => c.fail("transceiver message", "corrupt", format!("{} (byte {pos} changed) is read as {g:?}, expected {x:?}", hex(&b))),
            }
        }
        let mut h = KeyHasher::new();
        h.add(&(s, pos));
        c.key.push(h.finish());
        c
    });
    r.sweep("corrupt-broadcasts", 70 + 38, |i| {
        let mut c = Case::new(move || format!("byte {i}"));
        for delta in 1..=255u8 {
            c.steps += 1;
            if i < 70 {
                let mut b = info_wire(&pat(1, 0), 1, &pat(2, 0), 9);
                b[i] = b[i].wrapping_add(delta);
                let got = call(|| WormholeTransceiverInfo::read(&mut &b[..]));
                match (got, i < 4 || (i == 36 && b[36] > 1)) {
                    (Some(Err(_)), true) => c.rejected += 1,
                    (Some(Ok(g)), false) if written(&g).as_ref() == Some(&b) => c.accepted += 1,
                    (g, _) => c.fail("info", "corrupt", format!("{} is read as {g:?}", hex(&b))),
                }
            } else {
                let i = i - 70;
                let mut b = registration_wire(0x0102, &pat(2, 0));
                b[i] = b[i].wrapping_add(delta);
                let got = call(|| WormholeTransceiverRegistration::read(&mut &b[..]));
                match (got, i < 4) {
                    (Some(Err(_)), true) => c.rejected += 1,
                    (Some(Ok(g)), false) if written(&g).as_ref() == Some(&b) => c.accepted += 1,
                    (g, _) => c.fail("registration", "corrupt", format!("{} is read as {g:?}", hex(&b))),
                }
            }
        }
        let mut h = KeyHasher::new();
        h.add(&i);
        c.key.push(h.finish());
        c
    });
    // the vectors shared with the other runtimes
    r.sweep("prefix-mixups", 36, |i| {
        // a message of one kind is never read as another kind
        let x = base([0; 6], 5, 8, 2, 300);
        let bytes: Vec<Vec<u8>> = vec![
            full_wire(&x, None),
            ntt_wire(&x.msg, None),
            info_wire(&pat(1, 0), 0, &pat(2, 0), 9),
            registration_wire(2, &pat(2, 0)),
            mgr_wire(&x.msg, None),
            vec![0; 400],
        ];
        let (t, b) = (i % 6, i / 6);
        let mut c = Case::new(move || format!("bytes of kind {b} read as kind {t}"));
        let buf = &bytes[b];
        let ok = match t {
            0 => call(|| Empty::read(&mut &buf[..]).is_ok()),
            1 => call(|| NativeTokenTransfer::<EmptyPayload>::read(&mut &buf[..]).is_ok()),
            2 => call(|| WormholeTransceiverInfo::read(&mut &buf[..]).is_ok()),
            3 => call(|| WormholeTransceiverRegistration::read(&mut &buf[..]).is_ok()),
            4 => call(|| NttManagerMessage::<NativeTokenTransfer<EmptyPayload>>::read(&mut &buf[..]).is_ok()),
            _ => Some(b == 5),
        };
        c.eval(ok == Some(true), &i);
        if ok != Some(t == b) {
            c.fail("prefix", "mixup", format!("bytes of kind {b} read as kind {t}: {ok:?}"));
        }
        c
    });
}

fn info_wire(m: &[u8; 32], mode: u8, t: &[u8; 32], d: u8) -> Vec<u8> {
    let mut w = vec![0x9c, 0x23, 0xbd, 0x3b];
    w.extend(m);
    w.push(mode);
    w.extend(t);
    w.push(d);
    w
}

fn registration_wire(chain: u16, a: &[u8; 32]) -> Vec<u8> {
    let mut w = vec![0x18, 0xfc, 0x67, 0xc2];
    w.extend(chain.to_be_bytes());
    w.extend(a);
    w
}
