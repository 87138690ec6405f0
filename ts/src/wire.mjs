// C44: the TypeScript message layouts against an independent definition of the wire format.
const be = (v, n) => { const r = []; let x = BigInt(v); for (let i = 0; i < n; i++) { r.unshift(Number(x & 255n)); x >>= 8n; } return r; };
const filler = n => Uint8Array.from({ length: n }, (_, i) => (i * 37 + 11) & 255);
const addr = s => Uint8Array.from({ length: 32 }, (_, i) => s === 0 ? 0 : s === 255 ? 255 : (i * 7 + s * 31) & 255);
const hex = b => Buffer.from(b).toString('hex');
const U64 = (1n << 64n) - 1n;
const show = v => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() : x instanceof Uint8Array ? (x.length > 40 ? `${x.length} bytes` : hex(x)) : x && x.toUint8Array ? hex(x.toUint8Array()) : x);
const norm = v => JSON.stringify(v, (k, x) => x instanceof Uint8Array ? hex(x) : x && x.toUint8Array ? hex(x.toUint8Array()) : typeof x === 'bigint' || typeof x === 'number' ? String(x) : x);
// independent encoders (arrays of bytes)
const eTransfer = (m, id) => [0x99, 0x4e, 0x54, 0x54, ...be(m.trimmedAmount.decimals, 1), ...be(m.trimmedAmount.amount, 8), ...m.sourceToken.b, ...m.recipientAddress.b, ...be(id, 2), ...(m.additionalPayload.length ? [...be(m.additionalPayload.length, 2), ...m.additionalPayload] : [])];
const eMessage = (m, p) => [...m.id, ...m.sender.b, ...be(p.length, 2), ...p];
const eEnvelope = (prefix, a, b, p, t) => [...prefix, ...a.b, ...b.b, ...be(p.length, 2), ...p, ...be(t.length, 2), ...t];
export function checks(m, tier) {
  const D = m.defs, B = m.sdk_base, UA = m.sdk_definitions.UniversalAddress, T = tier !== 'quick';
  const ua = s => new UA(addr(s));
  const attempt = f => { try { return f(); } catch (e) { return undefined; } };
  const CHAINS = T ? Array.from({ length: 65536 }, (_, i) => i) : [...Array.from({ length: 600 }, (_, i) => i), 4096, 10002, 32767, 32768, 65280, 65535];
  const transfers = function* (chains = [0, 1, 2, 0x0203, 65535]) { for (const decimals of [0, 1, 8, 9, 18, 255]) for (const amount of [0n, 1n, 255n, 256n, 0x0102030405060708n, 1n << 63n, U64]) for (const [s, r] of [[0, 1], [3, 255], [255, 0], [7, 7]]) for (const c of chains) for (const n of [0, 1, 2, 3, 255, 256, 300]) yield { trimmedAmount: { decimals, amount }, sourceToken: ua(s), recipientAddress: ua(r), recipientChain: B.toChain(c), additionalPayload: filler(n), _c: c }; };
  const clean = ({ _c, ...x }) => x;
  const out = [];
  const codec = (name, bound, layout, values, enc, opts = {}) => out.push({ name, bound, run(c) {
    const samples = []; let i = 0;
    for (const v0 of values()) {
      c.st.states++; const v = clean(v0), want = enc(v0), got = attempt(() => B.serializeLayout(layout, v)); c.count(got !== undefined);
      if (want === null) { if (got !== undefined) c.bad(`${name}: ${show(v)} should not have an encoding, got ${hex(got).slice(0, 200)}`); continue; }
      if (got === undefined || hex(got) !== hex(want)) c.bad(`${name}: ${show(v)} encodes as ${got && hex(got).slice(0, 300)}, expected ${hex(want).slice(0, 300)}`);
      const back = attempt(() => B.deserializeLayout(layout, Uint8Array.from(want))); c.count(back !== undefined);
      if (back === undefined || norm(back) !== norm(v)) c.bad(`${name}: decoding ${hex(want).slice(0, 300)} gives ${show(back)}, expected ${show(v)}`);
      if (want.length < 400 && i++ % 97 === 0) samples.push(want); if (c.full()) return;
    }
    // anything else: decoding never succeeds with a value whose encoding differs (malformed tails of the optional payload aside)
    for (const b of samples.slice(0, T ? 60 : 12)) {
      const reject = (x, why) => { const got = attempt(() => B.deserializeLayout(layout, x)); c.count(got !== undefined); if (got !== undefined) c.bad(`${name}: ${why} of ${hex(b).slice(0, 300)} is accepted as ${show(got)}`); };
      for (let n = 0; n < (opts.fixed ?? b.length); n++) if (n < b.length) reject(Uint8Array.from(b.slice(0, n)), `truncation to ${n} bytes`);
      if (!opts.open) for (const x of [[0], [255], [0, 0], [0, 1, 0]]) reject(Uint8Array.from([...b, ...x]), 'extension');
      for (const p of opts.prefix ?? []) for (let j = 0; j < 8; j++) { const q = Uint8Array.from(b); q[p] ^= 1 << j; reject(q, `altered prefix byte ${p}`); }
      for (let p = 0; p < (opts.flip ?? 0); p++) for (let j = 0; j < 8; j++) { const q = Uint8Array.from(b); q[p] ^= 1 << j; if ((opts.prefix ?? []).includes(p)) continue; const got = attempt(() => B.deserializeLayout(layout, q)); c.count(got !== undefined); const again = got && attempt(() => B.serializeLayout(layout, got)); if (!again || hex(again) !== hex(q)) c.bad(`${name}: ${hex(q).slice(0, 300)} does not survive decoding and encoding`); }
    }
    c.sample(`${name}: ${hex(samples[0] ?? []).slice(0, 160)}`);
  } });
  const P4 = [0, 1, 2, 3];
  codec('transfer', 'products of boundary values of every field; truncations, prefix changes, single-bit changes', D.nativeTokenTransferLayout, () => transfers(), v => eTransfer(v, v._c), { fixed: 79, open: true, prefix: P4, flip: 79 });
  codec('transfer-chains', 'every chain number of the list', D.nativeTokenTransferLayout, function* () { for (const c of CHAINS) yield { trimmedAmount: { decimals: 8, amount: 5n }, sourceToken: ua(1), recipientAddress: ua(2), recipientChain: B.toChain(c), additionalPayload: filler(0), _c: c }; }, v => eTransfer(v, v._c), { fixed: 79, open: true });
  codec('transfer-payload-sizes', 'additional payloads of every size up to the bound', D.nativeTokenTransferLayout, function* () { for (const n of [...Array.from({ length: T ? 2000 : 600 }, (_, i) => i), 65534, 65535, 65536]) yield { trimmedAmount: { decimals: 8, amount: 5n }, sourceToken: ua(1), recipientAddress: ua(2), recipientChain: 'Solana', additionalPayload: filler(n), _c: 1 }; }, v => v.additionalPayload.length > 65535 ? null : eTransfer(v, v._c), { open: true, fixed: 79 });
  codec('transfer-amounts', 'amounts and decimals out of range', D.nativeTokenTransferLayout, function* () { for (const amount of [-1n, U64 + 1n, 0n, U64]) for (const decimals of [-1, 0, 255, 256]) yield { trimmedAmount: { decimals, amount }, sourceToken: ua(1), recipientAddress: ua(2), recipientChain: 'Solana', additionalPayload: filler(0), _c: 1 }; }, v => v.trimmedAmount.amount < 0n || v.trimmedAmount.amount > U64 || v.trimmedAmount.decimals < 0 || v.trimmedAmount.decimals > 255 ? null : eTransfer(v, 1), { open: true, fixed: 79 });
  const msg = D.nttManagerMessageLayout(D.nativeTokenTransferLayout);
  const messages = function* () { for (const [i, s] of [[0, 255], [9, 3], [255, 0]]) for (const t of transfers([2, 65535])) yield { id: addr(i), sender: ua(s), payload: clean(t), _c: t._c }; };
  codec('message', 'every transfer of the product in every message of the product', msg, messages, v => eMessage(v, eTransfer(v.payload, v._c)), { prefix: [66, 67, 68, 69], fixed: 145 });
  codec('message-any-payload', 'raw payloads of boundary sizes', D.nttManagerMessageLayout(), function* () { for (const n of [0, 1, 2, 79, 255, 256, 300, 65535, 65536]) for (const [i, s] of [[0, 255], [9, 3], [255, 0]]) yield { id: addr(i), sender: ua(s), payload: filler(n) }; }, v => v.payload.length > 65535 ? null : eMessage(v, v.payload), { flip: 64 });
  const env = m.sdk_definitions.payloads.get('Ntt:WormholeTransfer') ?? D.wormholeTransceiverMessageLayout(msg);
  codec('wormhole-transfer', 'the payload registered as Ntt:WormholeTransfer', env, function* () { for (const [a, b] of [[0, 255], [5, 6], [255, 1]]) for (const v of messages()) { const { _c, ...x } = v; yield { sourceNttManager: ua(a), recipientNttManager: ua(b), nttManagerPayload: x, transceiverPayload: new Uint8Array(0), _c }; } }, v => eEnvelope([0x99, 0x45, 0xff, 0x10], v.sourceNttManager, v.recipientNttManager, eMessage(v.nttManagerPayload, eTransfer(v.nttManagerPayload.payload, v._c)), []), { prefix: P4, fixed: 215 });
  codec('transceiver-message', 'raw payloads of boundary sizes, another prefix', D.transceiverMessageLayout([1, 2, 3, 0xfe]), function* () { for (const [a, b] of [[0, 255], [5, 6], [255, 1]]) for (const n of [0, 1, 66, 256, 65535, 65536]) for (const k of [0, 1, 256, 65535, 65536]) yield { sourceNttManager: ua(a), recipientNttManager: ua(b), nttManagerPayload: filler(n), transceiverPayload: filler(k) }; }, v => v.nttManagerPayload.length > 65535 || v.transceiverPayload.length > 65535 ? null : eEnvelope([1, 2, 3, 0xfe], v.sourceNttManager, v.recipientNttManager, v.nttManagerPayload, v.transceiverPayload), { prefix: P4, flip: 68 });
  codec('transceiver-info', 'boundary values of every field', D.transceiverInfo, function* () { for (const a of [0, 1, 9, 255]) for (const b of [0, 2, 255]) for (const mode of [0, 1, 255]) for (const decimals of [0, 6, 18, 255]) yield { managerAddress: ua(a), mode, token: ua(b), decimals }; }, v => [0x9c, 0x23, 0xbd, 0x3b, ...v.managerAddress.b, v.mode, ...v.token.b, v.decimals], { prefix: P4, flip: 70 });
  codec('transceiver-registration', 'every chain number of the list', D.transceiverRegistration, function* () { for (const a of [0, 9, 255]) for (const c of CHAINS) yield { chain: B.toChain(c), transceiver: ua(a), _c: c }; }, v => [0x18, 0xfc, 0x67, 0xc2, ...be(v._c, 2), ...v.transceiver.b], { prefix: P4, flip: 38 });
  codec('transceiver-instruction', 'boundary indices and sizes', D.transceiverInstructionLayout(), function* () { for (const index of [-1, 0, 1, 127, 255, 256]) for (const n of [...Array.from({ length: 260 }, (_, i) => i)]) yield { index, payload: filler(n) }; }, v => v.payload.length > 255 || v.index < 0 || v.index > 255 ? null : [v.index, v.payload.length, ...v.payload], { flip: 1 });
  out.push({ name: 'instruction-lists', bound: 'all lists of up to 3 instructions over 3 indices x 4 sizes; lists of 254 to 257', run(c) {
    const one = [0, 1, 255].flatMap(index => [0, 1, 2, 255].map(n => ({ index, payload: filler(n) })));
    const rec = (l, d) => { c.st.states++; const want = [l.length, ...l.flatMap(x => [x.index, x.payload.length, ...x.payload])], got = attempt(() => D.Ntt.encodeTransceiverInstructions(l)); c.count(!!got); if (!got || hex(got) !== hex(want)) c.bad(`instruction list ${show(l)} encodes as ${got && hex(got).slice(0, 200)}`); if (d && !c.full()) for (const x of one) rec([...l, x], d - 1); };
    rec([], T ? 4 : 3);
    for (const n of [254, 255, 256, 257]) { const l = Array.from({ length: n }, () => one[0]), got = attempt(() => D.Ntt.encodeTransceiverInstructions(l)); c.count(!!got); if (n > 255 ? got : !got || got.length !== 1 + 2 * n || got[0] !== n) c.bad(`a list of ${n} instructions is ${got ? 'encoded' : 'refused'}`); }
  } });
  out.push({ name: 'digest', bound: 'every message of the product from every chain', run(c) {
    const seen = new Map();
    for (const v0 of messages()) for (const from of [1, 2, 0x0203, 0x0302, 10002, 65535]) {
      c.st.states++; const v = clean(v0); const pre = [...be(from, 2), ...eMessage(v, eTransfer(v.payload, v0._c))]; const want = hex(m.sdk_definitions.keccak256(Uint8Array.from(pre))), got = attempt(() => D.Ntt.messageDigest(B.toChain(from), v)); c.count(!!got);
      if (!got || hex(got) !== want) c.bad(`digest of ${show(v)} from chain ${from} is ${got && hex(got)}, expected ${want}`);
      const id = hex(pre), o = seen.get(want); if (o && o !== id) c.bad('two messages share a digest'); seen.set(want, id); if (c.full()) return;
    }
  } });
  out.push({ name: 'versions', bound: 'all pairs of versions 0..4 x 0..4 with and without labels', run(c) {
    const vs = []; for (let a = 0; a < 5; a++) for (let b = 0; b < 12; b += b < 4 ? 1 : 7) for (const p of ['0', '1', '7', '0-rc1', '3+dev']) vs.push([a, b, `${a}.${b}.${p}`]);
    for (const [a, b, x] of vs) for (const [p, q, y] of vs) { c.st.states++; const got = attempt(() => D.Ntt.abiVersionMatches(x, y)), want = a === p && b >= q; c.count(true); if (got !== want) c.bad(`abiVersionMatches(${x}, ${y}) = ${got}`); if (c.full()) return; }
    for (const bad of ['', '1', '1.0', 'a.b.c', '1.x.0', 'v1.0.0']) { const got = attempt(() => D.Ntt.abiVersionMatches(bad, '1.0.0')); c.count(got !== undefined); if (got) c.bad(`version ${JSON.stringify(bad)} matches 1.0.0`); }
  } });
  return out;
}
