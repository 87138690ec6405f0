// Message codecs and amount arithmetic of the EVM contracts (C38), against independent definitions.
import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
import { flat } from './bind.mjs';
const u = S.u, be = S.be, E0 = new Uint8Array(0), U64 = S.U64, E = n => 10n ** BigInt(n);
const rng = (a, b) => Array.from({ length: b - a + 1 }, (_, i) => a + i);
function wire(K) { const W = new R.World(); const con = K.con('Wire'); return new H.Inst(K, W, con, con.deploy(W, 0xd0n, [])); }
const bytesOf = n => Uint8Array.from({ length: n }, (_, i) => (i * 37 + 11) & 255);
const WIDE = [0n, 1n, 0x1234n, 1n << 160n, (1n << 255n) | 5n, (1n << 256n) - 1n];
const PRE = 0x9945ff10n, PREB = R.unhex('9945ff10');
// value generators and independent encoders; dec(b) gives the value or null
const KINDS = {
  message: {
    values: t => [0n, 1n, WIDE[4], WIDE[5]].flatMap(id => [0n, WIDE[4]].flatMap(sender => [0, 1, 2, 79, 255, 256, ...(t === 'quick' ? [] : [257, 1000]), 65535, 65536].map(n => ({ id, sender, payload: bytesOf(n) })))),
    enc: m => m.payload.length > 65535 ? null : S.encMsg(m), dec: b => { if (b.length < 66) return null; const n = b[64] * 256 + b[65]; if (b.length !== 66 + n) return null; return { id: R.b2n(b.subarray(0, 32)), sender: R.b2n(b.subarray(32, 64)), payload: b.slice(66) }; }, e: ['encMessage', m => [m]], d: ['decMessage', b => [b]],
  },
  transfer: {
    values: t => [0n, 1n, 8n, 18n, 255n].flatMap(dec => [0n, 1n, 0x0102030405060708n, U64].flatMap(amt => [[0n, 1n, 0n], [WIDE[4], WIDE[3], 0x0203n], [WIDE[5], WIDE[5], 65535n]].flatMap(([sourceToken, to, toChain]) => [0, 1, 2, 300, 65535, 65536].map(n => ({ amount: (amt << 8n) | dec, sourceToken, to, toChain, additionalPayload: bytesOf(n) }))))),
    enc: m => m.additionalPayload.length > 65535 ? null : S.encTransfer({ dec: m.amount & 255n, amt: m.amount >> 8n, token: m.sourceToken, to: m.to, toChain: m.toChain, extra: m.additionalPayload }),
    dec: b => { const x = S.decTransfer(b); return x && { amount: (x.amt << 8n) | x.dec, sourceToken: x.token, to: x.to, toChain: x.toChain, additionalPayload: x.extra }; }, e: ['encTransfer', m => [m]], d: ['decTransfer', b => [b]],
  },
  envelope: {
    values: t => [[0n, 0n], [1n, WIDE[4]], [WIDE[5], 2n]].flatMap(([a, b]) => [0, 1, 66, 256, 65535, 65536].flatMap(n => [0, 1, 256, 65535, 65536].map(k => ({ sourceNttManagerAddress: a, recipientNttManagerAddress: b, nttManagerPayload: bytesOf(n), transceiverPayload: bytesOf(k) })))),
    enc: m => m.nttManagerPayload.length > 65535 || m.transceiverPayload.length > 65535 ? null : S.encXcvr(m.sourceNttManagerAddress, m.recipientNttManagerAddress, m.nttManagerPayload, m.transceiverPayload),
    dec: b => { if (b.length < 70 || R.hex(b.subarray(0, 4)) !== '9945ff10') return null; const n = b[68] * 256 + b[69], o = 70 + n; if (b.length < o + 2) return null; const k = b[o] * 256 + b[o + 1]; if (b.length !== o + 2 + k) return null; return { sourceNttManagerAddress: R.b2n(b.subarray(4, 36)), recipientNttManagerAddress: R.b2n(b.subarray(36, 68)), nttManagerPayload: b.slice(70, o), transceiverPayload: b.slice(o + 2) }; }, e: ['encXcvr', m => [PRE, m]], d: ['decXcvr', b => [PRE, b]],
  },
  instruction: {
    values: () => [0n, 1n, 255n].flatMap(index => [0, 1, 2, 255, 256].map(n => ({ index, payload: bytesOf(n) }))), enc: m => m.payload.length > 255 ? null : be(u(m.index, 1), u(BigInt(m.payload.length), 1), m.payload),
    dec: b => b.length < 2 || b.length !== 2 + b[1] ? null : { index: BigInt(b[0]), payload: b.slice(2) }, e: ['encInstruction', m => [m]], d: ['decInstruction', b => [b]],
  },
  init: {
    values: () => WIDE.flatMap(a => WIDE.flatMap(b => [0n, 1n, 255n].flatMap(m => [0n, 18n, 255n].map(d => ({ transceiverIdentifier: 0x9c23bd3bn, nttManagerAddress: a, nttManagerMode: m, tokenAddress: b, tokenDecimals: d }))))),
    enc: m => be(u(m.transceiverIdentifier, 4), u(m.nttManagerAddress, 32), u(m.nttManagerMode, 1), u(m.tokenAddress, 32), u(m.tokenDecimals, 1)), dec: b => b.length !== 70 ? null : { transceiverIdentifier: R.b2n(b.subarray(0, 4)), nttManagerAddress: R.b2n(b.subarray(4, 36)), nttManagerMode: BigInt(b[36]), tokenAddress: R.b2n(b.subarray(37, 69)), tokenDecimals: BigInt(b[69]) }, e: ['encInit', m => [m]], d: ['decInit', b => [b]],
  },
  registration: {
    values: () => WIDE.flatMap(a => [0n, 1n, 0x0203n, 65535n].map(c => ({ transceiverIdentifier: 0x18fc67c2n, transceiverChainId: c, transceiverAddress: a }))),
    enc: m => be(u(m.transceiverIdentifier, 4), u(m.transceiverChainId, 2), u(m.transceiverAddress, 32)), dec: b => b.length !== 38 ? null : { transceiverIdentifier: R.b2n(b.subarray(0, 4)), transceiverChainId: R.b2n(b.subarray(4, 6)), transceiverAddress: R.b2n(b.subarray(6, 38)) }, e: ['encRegistration', m => [m]], d: ['decRegistration', b => [b]],
  },
};
function codec(name) {
  const k = KINDS[name];
  return {
    name: `codec-${name}`, weight: 4, bound: 'field values at their boundaries; every truncation, extension and single-bit change of sample encodings', run(ctx) {
      const w = wire(ctx.K); const seen = new Map(); const short = x => { const s = flat(x ?? undefined); return s.length > 300 ? s.slice(0, 300) + '…' : s; };
      const dec = b => { const want = k.dec(b), got = w.view(k.d[0], ...k.d[1](b)); ctx.count(got !== undefined); if (flat(got) !== flat(want ?? undefined)) ctx.bad('decode', `${name}: decoding ${R.hex(b.subarray(0, 100))} (${b.length} bytes) gives ${short(got)}, expected ${want ? short(want) : 'rejection'}`); };
      for (const v of k.values(ctx.tier)) {
        const want = k.enc(v), got = w.view(k.e[0], ...k.e[1](v)); ctx.st.states++; ctx.count(got !== undefined); if (flat(got) !== flat(want ?? undefined)) ctx.bad('encode', `${name}: ${short(v)} encodes as ${short(got)}, expected ${want ? short(want) : 'rejection'}`); if (ctx.full()) return; if (!want) continue;
        const h = R.hex(want); const o = seen.get(h); if (o && flat(o) !== flat(v)) ctx.bad('injective', `${name}: two values have the same encoding`); if (want.length < 2000) seen.set(h, v); dec(want);
      }
      const samples = k.values(ctx.tier).map(v => [v, k.enc(v)]).filter(([, b]) => b && b.length < 160); const pick = samples.filter((_, i) => i % Math.max(1, Math.floor(samples.length / (ctx.tier === 'quick' ? 6 : 30))) === 0);
      for (const [, b] of pick) { for (let n = 0; n < b.length; n++) dec(b.slice(0, n)); for (const x of ['00', 'ff', '0000', '0001', '000100', '00000000']) dec(R.cat(b, R.unhex(x))); for (let i = 0; i < b.length; i++) for (let j = 0; j < 8; j++) { const q = b.slice(); q[i] ^= 1 << j; dec(q); } if (ctx.full()) return; }
      ctx.sample(() => `${name} ${short(samples[0][0])}`);
    },
  };
}
const lists = {
  name: 'instruction-lists', weight: 4, bound: 'all byte strings of up to 5 bytes over {0,1,2,3,255} x number of transceivers; all lists of up to 3 instructions', run(ctx) {
    const w = wire(ctx.K); const check = (b, n) => { const want = S.decInstr(b, n), got = w.view('decInstructions', b, BigInt(n)); ctx.count(got !== undefined); if (flat(got) !== flat(want ?? undefined)) ctx.bad('decode', `instructions ${R.hex(b)} for ${n} transceivers give ${flat(got)}, expected ${want ? flat(want) : 'rejection'}`); };
    const rec = (p, d) => { for (const n of [0, 1, 2, 3]) check(Uint8Array.from(p), n); ctx.st.states++; if (d && !ctx.full()) for (const x of [0, 1, 2, 3, 255]) rec([...p, x], d - 1); }; rec([], ctx.tier === 'quick' ? 6 : 7);
    const items = [0n, 1n, 2n].flatMap(index => [0, 1, 255, 256].map(n => ({ index, payload: bytesOf(n) }))); const all = [[]]; for (const a of items) { all.push([a]); for (const b of items) { all.push([a, b]); if (ctx.tier !== 'quick') for (const c of items) all.push([a, b, c]); } }
    for (const n of [255, 256]) all.push(rng(0, n - 1).map(i => ({ index: BigInt(i & 255), payload: E0 })));
    for (const l of all) { const bad = l.length > 255 || l.some(i => i.payload.length > 255); const want = bad ? undefined : S.encInstr(l.map(i => [i.index, i.payload])); const got = w.view('encInstructions', l); ctx.count(got !== undefined); if (flat(got) !== flat(want)) { ctx.bad('encode', `instruction list ${flat(l).slice(0, 200)} encodes as ${flat(got).slice(0, 200)}`); if (ctx.full()) return; } if (want) for (const n of [1, 2, 3, 255]) check(want, n); }
    ctx.sample('0x01 for one transceiver');
  },
};
const digests = {
  name: 'digests', weight: 2, bound: 'chains x messages: the digest is the keccak-256 of chain and encoding, and distinct inputs have distinct digests', run(ctx) {
    const w = wire(ctx.K), seen = new Map(); for (const chain of [0n, 1n, 3n, 256n, 0x0203n, 65535n]) for (const m of KINDS.message.values('quick')) { const want = KINDS.message.enc(m) ? S.digestOf(chain, m) : undefined, got = w.view('digest', chain, m); ctx.count(got !== undefined); ctx.st.states++; if (got !== want) ctx.bad('digest', `digest of message ${flat(m.id)} from chain ${chain} is ${flat(got)}, expected ${flat(want)}`); if (got !== undefined) { const k = flat([chain, m]); if (seen.has(got) && seen.get(got) !== k) ctx.bad('digest', 'two messages have the same digest'); seen.set(got, k); } if (ctx.full()) return; }
    for (const a of [0n, WIDE[5]]) for (const n of [0, 66, 65535, 65536]) { const p = bytesOf(n), q = bytesOf(3); const want = n > 65535 ? undefined : [{ sourceNttManagerAddress: a, recipientNttManagerAddress: 5n, nttManagerPayload: p, transceiverPayload: q }, S.encXcvr(a, 5n, p, q)]; const got = w.view('buildXcvr', PRE, a, 5n, p, q); ctx.count(got !== undefined); if (flat(got) !== flat(want)) ctx.bad('encode', 'the built envelope differs from its encoding'); }
    const inner = S.encMsg({ id: 1n, sender: 2n, payload: bytesOf(3) }); for (const p of [inner, inner.slice(0, 60), R.cat(inner, Uint8Array.of(0))]) for (const pre of [PRE, 0x9945ff11n]) { const b = S.encXcvr(3n, 4n, p), got = w.view('decBoth', pre, b), good = p === inner && pre === PRE; ctx.count(!!got); const want = good ? [{ sourceNttManagerAddress: 3n, recipientNttManagerAddress: 4n, nttManagerPayload: p, transceiverPayload: E0 }, { id: 1n, sender: 2n, payload: bytesOf(3) }] : undefined; if (flat(got) !== flat(want)) ctx.bad('decode', `envelope and message: ${flat(got).slice(0, 200)}`); }
    ctx.sample('digest(3, message 1)');
  },
};
const lim256 = (1n << 256n) - 1n;
const scale = (a, f, t) => { if (f === t) return a; if (f > t) { const k = 10n ** (f - t); return k > lim256 ? null : a / k; } const k = 10n ** (t - f); if (k > lim256) return null; const r = a * k; return r > lim256 ? null : r; };
const mn = (a, b) => (a < b ? a : b);
const pk = (a, d) => (a === null || a > U64 ? undefined : (a << 8n) | d);
function amounts(part, parts) {
  return {
    name: `amounts-${part}`, weight: 3, bound: 'decimals x decimals x boundary amounts: trim, untrim, shift, comparison, addition', run(ctx) {
      const w = wire(ctx.K); const ds = (ctx.tier === 'quick' ? [0, 1, 2, 5, 6, 7, 8, 9, 10, 17, 18, 24, 76, 77, 78, 85, 86, 255] : [...rng(0, 40), 76, 77, 78, 84, 85, 86, 200, 254, 255]).map(BigInt);
      const t = (tag, name, args, want) => { const got = w.view(name, ...args); ctx.count(got !== undefined); if (got !== want) ctx.bad(tag, `${name}(${args.map(flat)}) is ${flat(got)}, expected ${flat(want)}`); };
      ds.forEach((f, i) => {
        if (i % parts !== part || ctx.full()) return; ctx.st.states++;
        t('amount', 'maxOf', [f], pk(U64, mn(8n, f)));
        for (const to of ds) {
          const d = mn(mn(8n, f), to), unit = 10n ** mn(f - d, 60n);
          for (const a of [...new Set([0n, 1n, 9n, 10n, unit - 1n, unit, unit + 1n, 2n * unit - 1n, 123456789012345678n, U64 * unit, U64 * unit + unit - 1n, U64 * unit + unit, lim256])].filter(x => x >= 0n && x <= lim256)) t('trim', 'trim', [a, f, to], pk(scale(a, f, d), d));
          for (const a of [0n, 1n, 9n, 10n, 11n, 99n, 1000000000n, 12345678901n, U64 - 1n, U64]) { const x = (a << 8n) | f; const s = scale(a, f, to); t('untrim', 'untrim', [x, to], s === null ? undefined : s); const e = mn(8n, to); t('shift', 'shift', [x, to], pk(scale(a, f, e), e)); }
        }
        for (const g of [f, f === 0n ? 1n : f - 1n]) for (const a of [0n, 1n, 5n, U64 - 1n, U64]) for (const b of [0n, 1n, 5n, 6n, U64 - 1n, U64]) {
          const x = (a << 8n) | f, y = (b << 8n) | g, same = f === g; const n = v => (same ? v : undefined);
          t('compare', 'gtOf', [x, y], n(a > b)); t('compare', 'ltOf', [x, y], n(a < b)); t('compare', 'eqOf', [x, y], same && a === b); t('compare', 'minOf', [x, y], n(a < b ? x : y)); t('add', 'addOf', [x, y], n(a + b > U64 ? undefined : ((a + b) << 8n) | f)); t('add', 'subOf', [x, y], n(b > a ? undefined : ((a - b) << 8n) | f)); t('add', 'satOf', [x, y], n((mn(a + b, U64) << 8n) | f));
          t('pack', 'pack', [a, f], x); t('pack', 'amountOf', [x], a); t('pack', 'decimalsOf', [x], f); t('pack', 'isNull', [x], x === 0n);
        }
      });
      ctx.sample('trim(10^18+1, 18, 6)');
    },
  };
}
export const WIRE = { focus: () => true, scenarios: tier => [...Object.keys(KINDS).map(codec), lists, digests, ...rng(0, 3).map(i => amounts(i, 4))] };
