import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
import { Bed, A, explore, flat, showOp } from './bind.mjs';
const U64 = S.U64, I0 = Uint8Array.of(0), D = A.dep;
const T = i => 0xa0n + BigInt(i);
const rng = (a, b) => Array.from({ length: b - a + 1 }, (_, i) => a + i);
export const base = (o = {}) => [ // common configuration: n transceivers, threshold, one peer chain
  ...rng(0, (o.n ?? 2) - 1).map(i => ({ k: 'addT', by: D, t: T(i) })), ...(o.thr ? [{ k: 'setThr', by: D, n: o.thr }] : []),
  { k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: o.pdec ?? 9n, limit: o.inL ?? 10n ** 19n }, { k: 'setOut', by: D, limit: o.outL ?? 10n ** 19n }, ...(o.more ?? []),
];
export const mk = (id, amt, o = {}) => ({ id, sender: o.sender ?? 0x77n, payload: S.encTransfer({ dec: o.dec ?? 8n, amt, token: 5n, to: o.to ?? A.sink, toChain: o.toChain ?? 2n, extra: o.extra }) });
const xfer = (by, amt, o = {}) => ({ k: 'transfer', by, amt, chain: o.chain ?? 3n, to: o.to ?? 0x55n, refund: o.refund ?? 0x56n, queue: o.queue ?? true, instr: o.instr ?? I0, value: o.value ?? 100n });
const attest = (by, msg, o = {}) => ({ k: 'attest', by, chain: o.chain ?? 3n, src: o.src ?? A.peer, msg });
const exec = (by, msg, o = {}) => ({ k: 'exec', by, chain: o.chain ?? 3n, src: o.src ?? A.peer, msg });
const time = dt => ({ k: 'time', dt });
// one bed, a list of single-step cases from its initial state (each may be a short sequence)
function cases(ctx, bed, list) {
  for (const c of list) {
    const seq = Array.isArray(c) ? c : [c]; const m = bed.W.mark(); let Z = bed.S; const trace = [], keep = new Set(bed.digests);
    for (const op of seq) { trace.push(op); const r = bed.apply(op, Z); ctx.count(r.ok); if (r.diffs.length && (ctx.sink(r.diffs, trace) || !r.agreed)) break; if (!r.ok) { if (seq.length > 1) continue; break; } Z = r.S; }
    ctx.st.states++; ctx.sample(() => seq.map(showOp).join(' ; ')); bed.W.undo(m); bed.digests = keep; if (ctx.full()) return;
  }
}
const seqScenario = (name, cfg, depth, ops, o = {}) => ({ name, weight: o.weight ?? 5, bound: `all sequences of up to ${depth} operations`, run(ctx) { const bed = new Bed(ctx.K, cfg); if (o.prep) o.prep(bed); const r = explore(bed, depth, Z => ops(Z, bed), ctx.sink); ctx.add(r); ctx.sample(() => ops(bed.S, bed).map(showOp)[0]); } });

// ------------------------------------------------------------------ C33 custody
const E = n => 10n ** BigInt(n);
function custodySweep(decimals, mode, fee) {
  return {
    name: `amounts-d${decimals}-m${mode}-f${fee}`, weight: 3, bound: 'peer decimals x amounts x path (sent, queued, cancelled, completed), and incoming decimals x amounts', run(ctx) {
      for (const pdec of ctx.tier === 'quick' ? [1n, 6n, 8n, 9n, 18n] : [1n, 2n, 5n, 6n, 7n, 8n, 9n, 10n, 18n, 24n, 255n]) {
        const d8 = decimals < 8n ? decimals : 8n, dec = d8 < pdec ? d8 : pdec, unit = E(decimals - dec), big = U64 * E(decimals - d8);
        const amts = [...new Set([0n, 1n, unit - 1n, unit, unit + 1n, 2n * unit - 1n, 10n * unit, 101n * unit, 10000n * unit, U64 * unit, (U64 + 1n) * unit, big, big + E(decimals - d8)])].filter(a => a >= 0n);
        const cap = 50n * unit;
        for (const lim of [cap, big]) {
          const bed = new Bed(ctx.K, { mode, decimals, fee, duration: 100n, funds: 4n * U64 * E(decimals), setup: base({ pdec, inL: big, outL: lim, n: 1 }) });
          const list = []; for (const amt of amts) for (const queue of [false, true]) { const t = xfer(A.u1, amt, { queue }); list.push([t], [t, { k: 'cancel', by: A.u1, seq: 0n }], [t, time(100n), { k: 'compOut', by: A.u2, seq: 0n, value: 5n }], [t, { k: 'cancel', by: A.u1, seq: 0n }, { k: 'cancel', by: A.u1, seq: 0n }]); }
          list.push([{ k: 'transfer3', by: A.u1, amt: unit, chain: 3n, to: 0x55n, value: 5n }], [xfer(A.u1, unit, { to: 0n })], [xfer(A.u1, unit, { refund: 0n })], [xfer(A.nope, unit)], [xfer(A.u1, unit, { chain: 4n })], [xfer(A.u1, unit, { chain: 2n })], [xfer(A.noeth, unit)], [xfer(A.noeth, 100n * unit)], [xfer(A.noeth, unit, { value: 5n })]);
          cases(ctx, bed, list);
        }
      }
      const d8 = decimals < 8n ? decimals : 8n;
      for (const inL of [0n, 7n, 10n ** 9n, U64]) {
        const bed = new Bed(ctx.K, { mode, decimals, fee, duration: 100n, funds: U64 * E(decimals), setup: [...base({ n: 1, inL: inL * E(decimals - d8), outL: 0n }), ...(mode === 0 ? [{ k: 'gift', by: A.u1, amt: U64 * E(decimals) / 2n }] : [])] });
        const list = []; let id = 1n;
        for (const dec of [0n, 1n, 6n, 7n, 8n, 9n, 18n, 30n, 255n]) for (const amt of [0n, 1n, 9n, 10n, 99n, 100n, 123456789n, 10n ** 10n, U64 / 2n, U64]) { const m = mk(id++, amt, { dec }); const dg = S.digestOf(3n, m); list.push([attest(T(0), m)], [attest(T(0), m), time(100n), { k: 'compIn', by: A.u2, dg }, { k: 'compIn', by: A.u2, dg }]); }
        for (const to of [0n, A.sink, 1n << 160n, (1n << 255n) | A.sink]) list.push([attest(T(0), mk(id++, 5n, { to }))]);
        cases(ctx, bed, list);
      }
    },
  };
}
// two chains, locking and burning, in one world; conservation at every step
function pairScenario(name, dA, dB, depth, o = {}) {
  return {
    name, weight: 8, bound: `two managers, all sequences of up to ${depth} operations`, run(ctx) {
      const K = ctx.K, W = new R.World(); W.time = 1000000n; W.chainid = 1n;
      const mkSide = (chain, mode, dec, mgr, tokA) => {
        const tok = new H.Token(W, tokA, { decimals: dec, minter: mode ? mgr : null }); const m = H.deployProxy(K, W, 'NttManager', D, [tokA, BigInt(mode), chain, 100n, false], mgr); H.must(m.tx(D, 'initialize'), 'init');
        const t = new H.Mock(K, W, mgr + 1n); H.must(m.tx(D, 'setTransceiver', [t.addr]), 'set'); return { chain, mode, dec, mgr, tok, m, t };
      };
      const a = mkSide(2n, 0, dA, 0x3000n, 0x70n), b = mkSide(3n, 1, dB, 0x4000n, 0x71n); const low = [dA, dB, 8n].reduce((x, y) => x < y ? x : y);
      const ua = E(dA - low), ub = E(dB - low), LIM = 5n;
      H.must(a.m.tx(D, 'setPeer', [3n, b.mgr, dB, LIM * ua]), 'peer'); H.must(b.m.tx(D, 'setPeer', [2n, a.mgr, dA, LIM * ub]), 'peer'); H.must(a.m.tx(D, 'setOutboundLimit', [LIM * ua]), 'lim'); H.must(b.m.tx(D, 'setOutboundLimit', [LIM * ub]), 'lim');
      a.tok.give(A.u1, 20n * ua); const all = 20n * ua;
      const conv = (v, from) => v * E(dA) / E(from); const amtOf = p => conv(p >> 8n, p & 0xffn);
      const parse = x => { const body = R.unhex(x.msg); return { id: R.b2n(body.subarray(0, 32)), sender: R.b2n(body.subarray(32, 64)), payload: body.slice(66) }; };
      const check = () => {
        const flight = (from, to) => from.t.sent.reduce((s, x) => { const m = parse(x), dg = S.digestOf(from.chain, m), t = S.decTransfer(m.payload); if (!to.m.view('isMessageExecuted', dg)) return s + conv(t.amt, t.dec); const q = to.m.view('getInboundQueuedTransfer', dg); return s + (q.txTimestamp ? amtOf(q.amount) : 0n); }, 0n);
        const queued = z => { let s = 0n; const n = z.m.view('nextMessageSequence'); for (let i = 0n; i < n; i++) { const q = z.m.view('getOutboundQueuedTransfer', i); if (q.txTimestamp) s += amtOf(q.amount); } return s; };
        const custody = a.tok.bal(a.mgr), backed = conv(b.tok.supply(), dB) + flight(a, b) + flight(b, a) + queued(a) + queued(b);
        if (custody !== backed) return `custody ${custody} backs ${backed} outstanding`; const users = a.tok.bal(A.u1) + a.tok.bal(A.u2); if (users + custody !== all) return `holders ${users} + custody ${custody} is not ${all}`; if (b.tok.bal(b.mgr) !== 0n) return 'burning side keeps tokens'; return null;
      };
      const ops = () => {
        const l = []; for (const [z, u] of [[a, ua], [b, ub]]) { const oth = z === a ? b : a; for (const n of o.amts ?? [2n, 4n]) l.push([`${z.chain}.transfer ${n}`, () => z.m.tx(A.u1, 'transfer', [n * u, oth.chain, A.u1, A.u1, true, I0])]); if (z.dec > low) l.push([`${z.chain}.transfer dust`, () => z.m.tx(A.u1, 'transfer', [u + 1n, oth.chain, A.u1, A.u1, true, I0])]); const n = z.m.view('nextMessageSequence'); for (let i = 0n; i < n; i++) { l.push([`${z.chain}.cancel ${i}`, () => z.m.tx(A.u1, 'cancelOutboundQueuedTransfer', [i])], [`${z.chain}.completeOut ${i}`, () => z.m.tx(A.u2, 'completeOutboundQueuedTransfer', [i])]); } oth.t.sent.forEach((x, i) => { const m = parse(x); l.push([`deliver ${oth.chain}->${z.chain} #${i}`, () => z.m.tx(z.t.addr, 'attestationReceived', [oth.chain, oth.mgr, m])], [`execute ${oth.chain}->${z.chain} #${i}`, () => z.m.tx(A.u2, 'executeMsg', [oth.chain, oth.mgr, m])], [`completeIn ${oth.chain}->${z.chain} #${i}`, () => z.m.tx(A.u2, 'completeInboundQueuedTransfer', [S.digestOf(oth.chain, m)])]); }); }
        l.push(['time +100', () => { W.set(W, 'time', W.time + 100n); return { ok: true }; }]); return l;
      };
      const seen = new Map(); const trace = [];
      const rec = left => { const k = H.stateKey(W) + a.t.sent.length + '/' + b.t.sent.length; const had = seen.get(k); if (had !== undefined && had >= left) return; if (had === undefined) ctx.st.states++; seen.set(k, left); if (!left) return; for (const [n, f] of ops()) { const mark = W.mark(); trace.push(n); const r = f(); ctx.count(r.ok); if (r.ok) { const bad = check(); if (bad) ctx.bad('conservation', bad, trace); else if (!ctx.full()) rec(left - 1); } trace.pop(); W.undo(mark); } };
      rec(depth); ctx.sample('transfer, deliver, queue and cancel on both chains');
    },
  };
}
// a participant that is called back in the middle of an operation (token hook, transceiver, ether refund) and calls the manager again
function reentrancy(mode, noLimit) {
  return {
    name: `reentrancy-m${mode}${noLimit ? '-nolimit' : ''}`, weight: 3, bound: 'outer operation x point of re-entry x inner operation', run(ctx) {
      const m1 = mk(1n, 7n * E(8), { to: A.evil }), m2 = mk(2n, 3n * E(8), { to: A.evil }), m3 = mk(3n, 2n * E(8), { to: A.evil });
      const bed = new Bed(ctx.K, { mode, noLimit, duration: noLimit ? 0n : 100n, mocks: 2, setup: base({ thr: 2n, inL: 6n * E(18), outL: 9n * E(18) }) }), W = bed.W, u = E(18); const fund = 1000n * u; bed.tok.give(A.evil, fund); W.account(A.evil).bal = 100000n; if (mode === 0) bed.tok.give(0x3000n, fund);
      const go = (by, n, a, v = 0n) => bed.m.tx(by, n, a, v); for (const t of [0, 1]) for (const m of [m1]) go(T(t), 'attestationReceived', [3n, A.peer, m]); go(T(0), 'attestationReceived', [3n, A.peer, m2]); go(T(0), 'attestationReceived', [3n, A.peer, m3]); H.must(go(D, 'setThreshold', [1n]), 'thr');
      if (!noLimit) H.must(go(A.evil, 'transfer', [50n * u, 3n, 0x55n, 0x56n, true, I0], 100n), 'queue'); W.set(W, 'time', W.time + 100n);
      const ops = { transfer: v => go(A.evil, 'transfer', [2n * u, 3n, 0x55n, 0x56n, true, I0], v), big: v => go(A.evil, 'transfer', [30n * u, 3n, 0x55n, 0x56n, true, I0], v), short: v => go(A.evil, 'transfer', [u, 3n, 0x55n], v), completeOutbound: v => go(A.evil, 'completeOutboundQueuedTransfer', [0n], v), cancel: () => go(A.evil, 'cancelOutboundQueuedTransfer', [0n]), completeInbound: () => go(A.evil, 'completeInboundQueuedTransfer', [S.digestOf(3n, m1)]), execute: () => go(A.evil, 'executeMsg', [3n, A.peer, m2]), executeOther: () => go(A.evil, 'executeMsg', [3n, A.peer, m3]), attest: () => go(T(1), 'attestationReceived', [3n, A.peer, m3]) };
      const amt = p => (p >> 8n) * u / E(p & 255n);
      const held = () => { let s = bed.tok.bal(A.evil); for (const t of [bed.mocks[0]]) for (const x of t.sent) { const t2 = S.decTransfer(R.unhex(x.msg).slice(66)); s += amt((t2.amt << 8n) | t2.dec); } let ex = 0n; for (const m of [m1, m2, m3]) { const dg = S.digestOf(3n, m); if (bed.m.view('isMessageExecuted', dg)) ex += S.decTransfer(m.payload).amt * E(10); if (!noLimit) { const q = bed.m.view('getInboundQueuedTransfer', dg); if (q.txTimestamp) s += amt(q.amount); } } if (!noLimit) { const n = bed.m.view('nextMessageSequence'); for (let i = 0n; i < n; i++) { const q = bed.m.view('getOutboundQueuedTransfer', i); if (q.txTimestamp) s += amt(q.amount); } } return s - ex; };
      const start = held(); if (start !== fund) throw new Error(`reentrancy setup: ${start} ${fund}`);
      for (const [on, outer] of Object.entries(ops)) for (const point of ['token', 'transceiver', 'ether', 'twice']) for (const [inn, inner] of Object.entries(ops)) {
        const mark = W.mark(); let armed = point === 'twice' ? 2 : 1, fired = ''; const hook = () => { if (armed > 0) { armed--; const r = inner(50n); fired += r.ok ? '+' : '-'; } };
        bed.tok.o.hook = point === 'token' || point === 'twice' ? hook : null; bed.mocks[1].hook = point === 'transceiver' || point === 'twice' ? hook : null; W.account(A.evil).native = () => { if (point === 'ether' || point === 'twice') hook(); return new Uint8Array(0); };
        const r = outer(100n); ctx.count(r.ok); ctx.st.states++; bed.tok.o.hook = null; bed.mocks[1].hook = null; W.account(A.evil).native = null; const end = held();
        if (end > start) { ctx.bad('conservation', `${on} with ${inn} re-entered from the ${point} left ${end} of ${start} accounted for`, [`${on} (re-entry at ${point}: ${inn} ${fired})`]); } if (W.acc.get(0x3000n).bal !== 0n) ctx.bad('conservation', `the manager keeps ${W.acc.get(0x3000n).bal} wei`, [`${on} (re-entry at ${point}: ${inn})`]); ctx.sample(`${on} / ${point} / ${inn}`); W.undo(mark); if (ctx.full()) return;
      }
    },
  };
}
const moneyOps = (o = {}) => (Z, bed) => {
  const u = o.unit ?? E(18), l = [];
  for (const n of o.amts ?? [2n, 9n]) l.push(xfer(A.u1, n * u, { queue: true, value: 12n })); l.push(xfer(A.u2, 3n * u, { queue: false, value: 12n }));
  for (const m of o.msgs) { for (const t of [T(0), T(1)]) l.push(attest(t, m)); l.push(exec(A.evil, m), { k: 'compIn', by: A.u2, dg: S.digestOf(3n, m) }); }
  for (let s = 0n; s <= Z.seq; s++) l.push({ k: 'compOut', by: A.u2, seq: s, value: 12n }, { k: 'cancel', by: A.u1, seq: s }, { k: 'cancel', by: A.u2, seq: s });
  l.push(time(50n), time(100n)); if (o.gift) l.push({ k: 'gift', by: A.u2, amt: 20n * u }); return l;
};
export const CUSTODY = {
  focus: t => /^(post:(custody|balance|supply|outq|inq|seq|sent|executed)|conservation|(accepts|rejects|ret):(transfer|transfer3|cancel|compOut|compIn|attest|exec|gift|time)|revert)$/.test(t),
  scenarios: tier => [
    ...[0, 1].flatMap(mode => (tier === 'quick' ? [6n, 9n, 18n] : [0n, 1n, 6n, 7n, 8n, 9n, 12n, 18n, 30n]).flatMap(d => (tier === 'quick' ? [0n, 100n] : [0n, 1n, 100n, 5000n]).map(f => custodySweep(d, mode, f)))),
    ...[0, 1].map(mode => seqScenario(`money-m${mode}`, { mode, duration: 100n, setup: base({ thr: 2n, inL: 10n * E(18), outL: 10n * E(18) }) }, tier === 'quick' ? 5 : 6, moneyOps({ gift: mode === 0, msgs: [mk(1n, 2n * E(8)), mk(2n, 9n * E(8))] }), { weight: 9 })),
    ...[0, 1].map(mode => seqScenario(`money-nolimit-m${mode}`, { mode, duration: 0n, noLimit: true, setup: base({ thr: 2n }) }, tier === 'quick' ? 4 : 5, moneyOps({ gift: mode === 0, msgs: [mk(1n, 2n * E(8)), mk(2n, 9n * E(8))] }), { weight: 6 })),
    seqScenario('money-fee-token', { mode: 0, duration: 100n, fee: 100n, noret: true, setup: base({ thr: 1n, inL: 10n * E(18), outL: 10n * E(18) }) }, tier === 'quick' ? 5 : 6, moneyOps({ gift: true, amts: [2n, 10n], msgs: [mk(1n, 2n * E(8)), mk(2n, 9n * E(8))] }), { weight: 9 }),
    ...[0, 1].map(mode => seqScenario(`fork-m${mode}`, { mode, duration: 100n, setup: [...base({ thr: 1n, inL: 10n * E(18), outL: 10n * E(18) }), xfer(A.u1, 12n * E(18)), attest(T(0), mk(1n, 12n * E(8))), ...(mode === 0 ? [{ k: 'gift', by: A.u2, amt: 30n * E(18) }] : [])] }, tier === 'quick' ? 4 : 5, Z => [{ k: 'fork' }, time(100n), xfer(A.u1, 2n * E(18)), xfer(A.u2, 12n * E(18)), attest(T(0), mk(2n, 2n * E(8))), exec(A.evil, mk(2n, 2n * E(8))), { k: 'compIn', by: A.u2, dg: S.digestOf(3n, mk(1n, 12n * E(8))) }, { k: 'compOut', by: A.u2, seq: 0n, value: 12n }, { k: 'cancel', by: A.u1, seq: 0n }])),
    ...[0, 1].flatMap(m => [reentrancy(m, false), reentrancy(m, true)]),
    ...[[18n, 6n], [6n, 18n], [9n, 9n]].map(([x, y]) => pairScenario(`pair-${x}-${y}`, x, y, tier === 'quick' ? 6 : 7)),
  ],
};

// ------------------------------------------------------------------ C34 attestations
const attTags = /^(post:(executed|votes|approved|attested|balance|custody|supply|inq)|(accepts|rejects):(attest|exec)|revert)$/;
function manyTransceivers(k, removed) {
  return {
    name: `n64-k${k}-r${removed.length}`, bound: '64 transceivers, one attestation each', run(ctx) {
      const bed = new Bed(ctx.K, { mode: 1, mocks: 64, checkQuotes: false, setup: [...rng(0, 63).map(i => ({ k: 'addT', by: D, t: T(i) })), { k: 'setThr', by: D, n: BigInt(k) }, { k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: 8n, limit: E(25) }] });
      let Z = bed.S; const m = mk(1n, 5n); const tr = []; const go = op => { tr.push(op); const r = bed.apply(op, Z); ctx.count(r.ok); if (r.diffs.length) { ctx.sink(r.diffs, tr.slice(-3)); return false; } Z = r.S; return true; };
      for (let i = 0; i < 64; i++) { if (!go(attest(T(i), m))) return; if (removed.includes(i) && !go({ k: 'rmT', by: D, t: T(i) })) return; if (i % 7 === 3 && !go(attest(T(i), m))) return; if (!go(exec(A.evil, m))) return; }
      ctx.st.states += 64; ctx.sample(() => `threshold ${k}: ` + showOp(attest(T(0), m)));
    },
  };
}
export const ATTEST = {
  focus: t => attTags.test(t),
  scenarios: tier => [
    seqScenario('votes', { mode: 1, mocks: 3, setup: base({ n: 3, thr: 2n }) }, tier === 'quick' ? 5 : 6, (Z, bed) => {
      const l = [], ms = [mk(1n, 5n), mk(2n, 5n)]; for (const m of ms) { for (const t of [0, 1, 2]) l.push(attest(T(t), m)); l.push(exec(A.evil, m)); }
      for (const t of [0, 1]) l.push({ k: 'rmT', by: D, t: T(t) }, { k: 'addT', by: D, t: T(t) }); for (const n of [1n, 2n, 3n]) l.push({ k: 'setThr', by: D, n }); return l;
    }, { weight: 9 }),
    seqScenario('sources', { mode: 1, mocks: 2, chains: [3n, 4n], setup: base({ n: 2, thr: 2n, more: [{ k: 'setPeer', by: D, chain: 4n, addr: A.peerB, dec: 9n, limit: E(19) }] }) }, tier === 'quick' ? 4 : 5, (Z, bed) => {
      const l = []; const m = mk(1n, 5n), far = mk(1n, 5n, { toChain: 3n }), other = mk(1n, 6n), snd = mk(1n, 5n, { sender: 0x78n });
      for (const by of [T(0), T(1), A.evil, D]) for (const [chain, src] of [[3n, A.peer], [4n, A.peerB], [3n, A.peerB], [4n, A.peer], [5n, A.peer], [259n, A.peer]]) l.push(attest(by, m, { chain, src }));
      for (const x of [far, other, snd]) for (const by of [T(0), T(1)]) l.push(attest(by, x)); for (const [chain, src] of [[3n, A.peer], [3n, A.evil], [4n, A.peerB]]) l.push(exec(A.evil, m, { chain, src })); l.push(exec(A.evil, other));
      l.push({ k: 'setPeer', by: D, chain: 3n, addr: 0xbdn, dec: 9n, limit: E(19) }, { k: 'pause', by: D }, { k: 'unpause', by: D }); return l;
    }, { weight: 9 }),
    seqScenario('retry-after-failure', { mode: 0, mocks: 2, duration: 100n, setup: base({ n: 2, thr: 2n, inL: 4n * E(18) }) }, tier === 'quick' ? 6 : 7, Z => {
      const l = []; for (const m of [mk(1n, 3n * E(8)), mk(2n, 5n * E(8))]) { for (const t of [0, 1]) l.push(attest(T(t), m)); l.push(exec(A.evil, m), { k: 'compIn', by: A.evil, dg: S.digestOf(3n, m) }); } l.push({ k: 'gift', by: A.u1, amt: 4n * E(18) }, time(100n)); return l;
    }),
    seqScenario('no-transceivers', { mode: 1, mocks: 1, checkQuotes: false, setup: [{ k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: 9n, limit: E(19) }] }, 3, () => [attest(T(0), mk(1n, 5n)), attest(A.evil, mk(1n, 5n)), exec(A.evil, mk(1n, 5n)), exec(D, mk(1n, 5n)), { k: 'addT', by: D, t: T(0) }, { k: 'rmT', by: D, t: T(0) }]),
    {
      name: 'payloads', bound: 'every truncation and extension, prefix bytes, lengths, extra payloads', run(ctx) {
        for (const noLimit of [false, true]) {
          const bed = new Bed(ctx.K, { mode: 1, noLimit, mocks: 1, setup: base({ n: 1 }) }); const list = []; let id = 100n; const good = mk(1n, 5n).payload; const ext = mk(1n, 5n, { extra: R.unhex('aabbcc') }).payload;
          const add = payload => { id++; list.push([attest(T(0), { id, sender: 1n, payload }), attest(T(0), { id, sender: 1n, payload }), exec(A.evil, { id, sender: 1n, payload })]); };
          for (const p of [good, ext]) { for (let n = 0; n <= p.length; n++) add(p.slice(0, n)); for (const x of ['00', '0000', '0001', '000100', '00010203', 'ffff']) add(R.cat(p, R.unhex(x))); for (let i = 0; i < p.length; i++) for (const x of [1, 0x80]) { const q = p.slice(); q[i] ^= x; add(q); } } add(good); add(ext);
          cases(ctx, bed, list);
        }
      },
    },
    ...(tier === 'quick' ? [1, 2, 33, 64] : [1, 2, 3, 8, 9, 16, 17, 31, 32, 33, 40, 63, 64]).map(k => manyTransceivers(k, [])), ...(tier === 'quick' ? [5, 40] : [2, 5, 17, 33, 40, 50]).map(k => manyTransceivers(k, [0, 3, 31, 32, 33])),
  ],
};

// ------------------------------------------------------------------ C35 rate limits and queues
const rateTags = /^(post:(out_rl|in_rl|outq|inq|seq|sent|balance|custody|supply)|(accepts|rejects):(transfer|transfer3|cancel|compOut|compIn|attest|setPeer|setOut|setIn)|ret:(transfer|compOut)|revert)$/;
function limitSweep(decimals, duration) {
  return {
    name: `limits-d${decimals}-w${duration}`, weight: 3, bound: 'limit x first use x elapsed time x change or second use', run(ctx) {
      const d8 = decimals < 8n ? decimals : 8n, u = E(decimals - d8); const lims = ctx.tier === 'quick' ? [0n, 1n, 7n, 1000n, U64] : [0n, 1n, 2n, 7n, 999n, 1000n, U64 - 1n, U64];
      for (const L of lims) {
        const bed = new Bed(ctx.K, { mode: 1, decimals, duration, mocks: 1, funds: 3n * U64 * u, setup: [...base({ n: 1, pdec: 18n, inL: L * u, outL: L * u })] }); const list = []; let id = 1n;
        const near = v => [...new Set([v - 1n, v, v + 1n])].filter(x => x > 0n && x <= U64);
        const dts = [...new Set([0n, 1n, duration / 3n, duration - 1n, duration, duration + 1n, 10n * duration, 1n << 40n])].filter(x => x >= 0n); const uses = [...new Set([...near(L / 2n), ...near(L), 1n])].filter(x => x > 0n && x <= U64);
        for (const use of uses) for (const dt of dts) {
          const first = xfer(A.u1, use * u), m1 = attest(T(0), mk(id++, use)); const refill = L > 0n ? L - (use > L ? 0n : use) + L * dt / duration : 0n; const seconds = [...new Set([...near(refill < L ? refill : L), 1n])];
          for (const s of seconds) { list.push([first, time(dt), xfer(A.u1, s * u, { queue: false })], [m1, time(dt), attest(T(0), mk(id++, s))], [first, time(dt), attest(T(0), mk(id++, s)), xfer(A.u1, s * u, { queue: false })], [m1, time(dt), xfer(A.u1, s * u, { queue: false }), attest(T(0), mk(id++, s))]); }
          for (const L2 of [0n, L > 0n ? L - 1n : 0n, L, L < U64 ? L + 1n : L, L / 2n, U64]) list.push([first, time(dt), { k: 'setOut', by: D, limit: L2 * u }, time(duration / 2n)], [m1, time(dt), { k: 'setIn', by: D, chain: 3n, limit: L2 * u }, time(duration / 2n)], [m1, time(dt), { k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: 8n, limit: L2 * u }]);
          list.push([first, time(dt), { k: 'compOut', by: A.u2, seq: 0n, value: 5n }], [first, time(dt), { k: 'cancel', by: A.u1, seq: 0n }], [m1, time(dt), { k: 'compIn', by: A.u2, dg: S.digestOf(3n, m1.msg) }]);
        }
        for (const bad of [U64 * u + u, (1n << 256n) - 1n]) list.push([{ k: 'setOut', by: D, limit: bad }], [{ k: 'setIn', by: D, chain: 3n, limit: bad }], [{ k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: 8n, limit: bad }]);
        cases(ctx, bed, list);
      }
    },
  };
}
export const RATE = {
  focus: t => rateTags.test(t),
  scenarios: tier => [
    ...(tier === 'quick' ? [[18n, 86400n], [6n, 7n]] : [[18n, 86400n], [6n, 7n], [8n, 1n], [9n, 3600n], [24n, 604800n], [0n, 10n]]).map(([d, w]) => limitSweep(d, w)),
    seqScenario('queues', { mode: 1, mocks: 1, duration: 100n, setup: base({ n: 1, inL: 10n * E(18), outL: 10n * E(18) }) }, tier === 'quick' ? 5 : 6, Z => {
      const l = [xfer(A.u1, 8n * E(18)), xfer(A.u2, 3n * E(18)), xfer(A.u1, 8n * E(18), { queue: false }), attest(T(0), mk(1n, 8n * E(8))), attest(T(0), mk(2n, 5n * E(8)))];
      for (let s = 0n; s <= Z.seq; s++) l.push({ k: 'compOut', by: A.u2, seq: s, value: 5n }, { k: 'cancel', by: A.u1, seq: s }); for (const m of [mk(1n, 8n * E(8)), mk(2n, 5n * E(8))]) l.push({ k: 'compIn', by: A.u2, dg: S.digestOf(3n, m) });
      l.push(time(40n), time(99n), { k: 'setOut', by: D, limit: 6n * E(18) }, { k: 'setIn', by: D, chain: 3n, limit: 20n * E(18) }); return l;
    }, { weight: 9 }),
    seqScenario('two-chains', { mode: 1, mocks: 1, duration: 100n, chains: [3n, 4n], setup: base({ n: 1, inL: 10n * E(18), outL: 20n * E(18), more: [{ k: 'setPeer', by: D, chain: 4n, addr: A.peerB, dec: 6n, limit: 5n * E(18) }] }) }, tier === 'quick' ? 5 : 6, Z => {
      const l = []; for (const [c, src] of [[3n, A.peer], [4n, A.peerB]]) { l.push(xfer(A.u1, 4n * E(18), { chain: c, queue: false }), attest(T(0), mk(1n, 4n * E(8)), { chain: c, src }), attest(T(0), mk(2n, 4n * E(8)), { chain: c, src }), { k: 'setIn', by: D, chain: c, limit: 4n * E(18) }, { k: 'setPeer', by: D, chain: c, addr: 0xbdn, dec: 7n, limit: 7n * E(18) }); } l.push(time(30n), time(100n)); return l;
    }, { weight: 9 }),
    ...[0, 1].map(i => seqScenario(i ? 'no-rate-limiting-contract' : 'rate-limiting-off', { mode: i, mocks: 1, duration: 0n, noLimit: !!i, setup: [...base({ n: 1, inL: 0n, outL: 18446744073709551615n * E(10) })] }, 3, Z => {
      const l = [xfer(A.u1, 8n * E(18)), xfer(A.u1, 8n * E(18), { queue: false }), attest(T(0), mk(1n, 8n * E(8))), time(10n), { k: 'compOut', by: A.u1, seq: 0n, value: 5n }, { k: 'cancel', by: A.u1, seq: 0n }, { k: 'compIn', by: A.u1, dg: S.digestOf(3n, mk(1n, 8n * E(8))) }];
      for (const v of [0n, 5n * E(18), U64 * E(10)]) l.push({ k: 'setOut', by: D, limit: v }, { k: 'setIn', by: D, chain: 3n, limit: v }, { k: 'setPeer', by: D, chain: 3n, addr: 0xbdn, dec: 8n, limit: v }); return l;
    })),
  ],
};

// ------------------------------------------------------------------ C36 authority and pausing
const roles = [D, A.owner2, A.pauser2, A.u1, A.evil, T(0), 0x3000n];
function adminOps(by) {
  return [{ k: 'setPeer', by, chain: 3n, addr: 0xbdn, dec: 7n, limit: E(18) }, { k: 'setPeer', by, chain: 5n, addr: 0xbdn, dec: 7n, limit: E(18) }, { k: 'setOut', by, limit: E(18) }, { k: 'setIn', by, chain: 3n, limit: E(18) }, { k: 'addT', by, t: T(2) }, { k: 'rmT', by, t: T(0) }, { k: 'setThr', by, n: 1n }, { k: 'pause', by }, { k: 'unpause', by }, { k: 'transferOwnership', by, to: A.owner2 }, { k: 'transferPauser', by, to: A.pauser2 }];
}
function abiSweep(which) {
  return {
    name: `every-function-${which}`, bound: 'every external function x caller without a role x argument choices by type', run(ctx) {
      const bed = new Bed(ctx.K, { mode: 1, duration: 100n, mocks: 2, setup: [...base({ thr: 2n, inL: 0n, outL: E(18) }), xfer(A.u1, 5n * E(18)), attest(T(0), mk(1n, 5n))] }); const W = bed.W; let target = bed.m, stranger = A.evil;
      if (which !== 'manager') { const core = new H.Core(ctx.K, W, 0x91n, { fee: 0n, chainId: 2n }); new H.Relayer(ctx.K, W, 0x92n, { base: 1n, provider: 9n }); new H.Special(ctx.K, W, 0x93n, { base: 1n }); target = H.deployProxy(ctx.K, W, 'WormholeTransceiver', D, [0x3000n, 0x91n, 0x92n, 0x93n, 1n, 5n], 0x5000n); H.must(target.tx(D, 'initialize'), 'init'); H.must(target.tx(D, 'setWormholePeer', [3n, 0xb5n]), 'peer'); void core; }
      const impl = which === 'manager' ? ctx.K.con('NttManager').deploy(W, D, [0x70n, 1n, 2n, 100n, false]) : ctx.K.con('WormholeTransceiver').deploy(W, D, [0x3000n, 0x91n, 0x92n, 0x93n, 1n, 5n]);
      const vals = t => {
        t = R.under(t); switch (t.k) {
          case 'uint': return t.bits === 256 ? [1n, E(18)] : t.bits === 64 ? [0n, 1n] : [1n, 3n]; case 'bool': return [true, false]; case 'address': case 'contract': return [stranger, impl]; case 'fbytes': return t.n === 32 ? [A.peer, S.digestOf(3n, mk(1n, 5n))] : [1n]; case 'bytes': return [new Uint8Array(0), I0, H.vaa(3n, 0xb6n, 1n, S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n)))), H.vaa(3n, 0xb5n, 1n, S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n))), false)]; case 'string': return [R.str('x')]; case 'enum': return [0n];
          case 'array': return [[]]; case 'struct': { if (t.name === 'NttManagerMessage') return [mk(1n, 5n), mk(9n, 5n)]; let out = [{}]; for (const f of t.fields) out = out.flatMap(o => vals(f.t).slice(0, 2).map(v => ({ ...o, [f.name]: v }))); return out; }
        } return [0n];
      };
      const snap = () => [target.addr, bed.m.addr].map(x => flat([...W.account(x).st.entries()].sort((p, q) => (p[0] < q[0] ? -1 : 1)).map(([k, v]) => [k, v]))).join('|') + flat([bed.tok.supply(), ...bed.watch.map(a => bed.tok.bal(a))]); const was = snap();
      for (const e of target.con.ext.values()) {
        if (!e.f.body && e.f.type !== 'StateVar') { /* inherited declaration; dispatch finds the implementation */ }
        let combos = [[]]; for (const t of e.p) { combos = combos.flatMap(c => vals(t).map(v => [...c, v])); if (combos.length > 4096) combos = combos.slice(0, 4096); }
        for (const by of [A.evil, A.nope]) for (const value of [0n, 1n]) {
          stranger = by; for (const args of combos) {
            const m = W.mark(); W.account(by).bal = W.account(by).bal || 1000n; const data = R.cat(R.n2b(ctx.K.P.selectorOf(e.f), 4), R.encTuple(e.p, args)); const r = target.raw(by, data, value); ctx.count(r.ok);
            if (r.ok && snap() !== was) ctx.bad('stranger', `${which}.${e.f.name} called by an account without any role changed the contract's state`, [`${e.f.name}(${args.map(flat)}) by ${flat(by)} value ${value}`]); W.undo(m); if (ctx.full()) return;
          }
        }
        ctx.st.states++;
      }
      ctx.sample(`${target.con.ext.size} functions`);
    },
  };
}
export const ADMIN = {
  focus: t => /^(post:(owner|pauser|paused|threshold|transceivers|info|peer|out_rl|in_rl|owners)|stranger|(accepts|rejects):(setPeer|setOut|setIn|addT|rmT|setThr|pause|unpause|transferOwnership|transferPauser)|paused:.*|revert)$/.test(t) || /^accepts:/.test(t),
  scenarios: tier => [
    seqScenario('roles', { mode: 1, mocks: 3, setup: base({ n: 2, thr: 2n }) }, tier === 'quick' ? 3 : 4, () => roles.flatMap(adminOps), { weight: 8 }),
    seqScenario('hand-over', { mode: 1, mocks: 2, setup: base({ n: 2, thr: 2n }) }, tier === 'quick' ? 5 : 6, () => [D, A.owner2, A.pauser2].flatMap(by => [{ k: 'transferOwnership', by, to: A.owner2 }, { k: 'transferOwnership', by, to: D }, { k: 'transferOwnership', by, to: 0n }, { k: 'transferPauser', by, to: A.pauser2 }, { k: 'transferPauser', by, to: 0n }, { k: 'pause', by }, { k: 'unpause', by }, { k: 'setThr', by, n: 1n }]), { weight: 8 }),
    seqScenario('pausing', { mode: 1, mocks: 3, duration: 100n, setup: [...base({ thr: 1n, inL: 5n * E(18), outL: 5n * E(18) }), xfer(A.u1, 6n * E(18)), attest(T(0), mk(1n, 9n * E(8))), time(100n)] }, tier === 'quick' ? 4 : 5, Z => {
      const m = mk(1n, 9n * E(8)), n = mk(2n, E(8)); return [{ k: 'pause', by: D }, { k: 'unpause', by: D }, xfer(A.u1, E(18)), { k: 'transfer3', by: A.u1, amt: E(18), chain: 3n, to: 0x55n, value: 12n }, { k: 'compOut', by: A.u2, seq: 0n, value: 12n }, { k: 'cancel', by: A.u1, seq: 0n }, { k: 'compIn', by: A.u2, dg: S.digestOf(3n, m) }, attest(T(0), n), attest(T(1), n), exec(A.evil, n), ...adminOps(D).slice(0, 7)];
    }, { weight: 6 }),
    seqScenario('pausing-no-limits', { mode: 0, noLimit: true, duration: 0n, mocks: 2, setup: base({ thr: 2n }) }, 3, Z => [{ k: 'pause', by: D }, { k: 'unpause', by: D }, xfer(A.u1, E(18)), attest(T(0), mk(2n, E(8))), attest(T(1), mk(2n, E(8))), exec(A.evil, mk(2n, E(8))), { k: 'compIn', by: A.evil, dg: 1n }, { k: 'cancel', by: A.u1, seq: 0n }]),
    {
      name: 'peer-arguments', bound: 'chain x address x decimals x limit', run(ctx) { const bed = new Bed(ctx.K, { mode: 1, setup: base({}) }); const list = []; for (const chain of [0n, 1n, 2n, 3n, 4n, 65535n]) for (const addr of [0n, 1n, A.peer, (1n << 256n) - 1n]) for (const dec of [0n, 1n, 8n, 18n, 255n]) for (const limit of [0n, 1n, E(18), U64 * E(10), (U64 + 1n) * E(10)]) list.push([{ k: 'setPeer', by: D, chain, addr, dec, limit }]); cases(ctx, bed, list); },
    },
    abiSweep('manager'), abiSweep('transceiver'),
  ],
};

// ------------------------------------------------------------------ C39 transceiver registry
export const REGISTRY = {
  focus: t => /^(post:(transceivers|info|threshold|votes|approved)|(accepts|rejects):(addT|rmT|setThr|attest)|revert)$/.test(t),
  scenarios: tier => [
    seqScenario('registry', { mode: 1, mocks: 4, checkQuotes: false, setup: [] }, tier === 'quick' ? 8 : 9, Z => [...[0, 1, 2].flatMap(i => [{ k: 'addT', by: D, t: T(i) }, { k: 'rmT', by: D, t: T(i) }]), ...[0n, 1n, 2n, 3n].map(n => ({ k: 'setThr', by: D, n }))], { weight: 9 }),
    seqScenario('registry-votes', { mode: 1, mocks: 4, checkQuotes: false, setup: base({ n: 3, thr: 2n }) }, tier === 'quick' ? 5 : 6, Z => [...[0, 1, 3].flatMap(i => [{ k: 'addT', by: D, t: T(i) }, { k: 'rmT', by: D, t: T(i) }]), { k: 'addT', by: D, t: 0n }, { k: 'rmT', by: D, t: 0n }, { k: 'setThr', by: D, n: 1n }, { k: 'setThr', by: D, n: 255n }, ...[0, 1, 2, 3].map(i => attest(T(i), mk(1n, 5n)))], { weight: 9 }),
    {
      name: 'sixty-four', bound: 'registration of 66 transceivers, removal and re-adding at every size', run(ctx) {
        const bed = new Bed(ctx.K, { mode: 1, mocks: 66, checkQuotes: false, setup: [] }); let Z = bed.S; const go = op => { const r = bed.apply(op, Z); ctx.count(r.ok); if (r.diffs.length) { ctx.sink(r.diffs, [op]); return false; } Z = r.S; return true; };
        for (let i = 0; i < 66; i++) { if (!go({ k: 'addT', by: D, t: T(i) })) return; if (i > 0 && (ctx.tier !== 'quick' || i % 9 === 0 || i > 60)) { for (const j of [i, 0, i >> 1]) if (!go({ k: 'rmT', by: D, t: T(j) }) || !go({ k: 'setThr', by: D, n: BigInt(Z.en.length) }) || !go({ k: 'setThr', by: D, n: BigInt(Z.en.length + 1) }) || !go({ k: 'addT', by: D, t: T(j) })) return; } ctx.st.states++; }
        ctx.sample('add 66 transceivers');
      },
    },
  ],
};

// ------------------------------------------------------------------ C40 dispatch and payment
const inst = (...l) => S.encInstr(l.map(([i, h]) => [i, R.unhex(h)]));
export const DISPATCH = {
  focus: t => /^(post:(sent|ether|quote|seq|outq)|quote|(accepts|rejects|ret):(transfer|transfer3|compOut)|revert)$/.test(t),
  scenarios: tier => [
    seqScenario('dispatch', { mode: 1, mocks: 3, perByte: 2n, duration: 100n, setup: base({ n: 2, outL: 5n * E(18) }) }, tier === 'quick' ? 4 : 5, Z => {
      const l = []; for (const instr of [I0, inst([0, 'aa']), inst([1, 'bbbb']), inst([0, 'aa'], [1, '']), inst([2, 'cc'])]) for (const value of [11n, 12n, 16n, 40n]) l.push(xfer(A.u1, E(18), { instr, value })); l.push(xfer(A.u1, 6n * E(18), { instr: inst([1, 'bbbb']), value: 9n }));
      for (let s = 0n; s < Z.seq && s < 2n; s++) for (const value of [11n, 16n, 30n]) l.push({ k: 'compOut', by: A.u2, seq: s, value }); l.push(time(100n), { k: 'addT', by: D, t: T(2) }, { k: 'rmT', by: D, t: T(0) }, { k: 'addT', by: D, t: T(0) }); return l;
    }, { weight: 9 }),
    {
      name: 'instructions', weight: 5, bound: 'all instruction encodings over small alphabets x registry states', run(ctx) {
        const regs = [[], [{ k: 'rmT', by: D, t: T(0) }], [{ k: 'rmT', by: D, t: T(2) }], [{ k: 'rmT', by: D, t: T(0) }, { k: 'addT', by: D, t: T(0) }], [{ k: 'rmT', by: D, t: T(0) }, { k: 'rmT', by: D, t: T(1) }]];
        const B = []; const al = [0, 1, 2, 3, 255]; const rec = (p, n) => { B.push(Uint8Array.from(p)); if (n) for (const x of al) rec([...p, x], n - 1); }; rec([], ctx.tier === 'quick' ? 5 : 6);
        for (const l of [[[0, 'aa'], [1, 'bb'], [2, 'cc']], [[0, 'aa'], [2, 'cc']], [[2, 'cc'], [0, 'aa']], [[1, 'aa'], [1, 'bb']], [[0, 'aa'], [1, 'bb'], [2, 'cc'], [3, 'dd']], [[2, 'aabbccddeeff']], [[0, ''], [1, ''], [2, '']]]) { const e = inst(...l); B.push(e, R.cat(e, I0), e.slice(0, -1)); }
        for (const extra of regs) {
          const bed = new Bed(ctx.K, { mode: 1, mocks: 3, perByte: 2n, setup: [...base({ n: 3 }), ...extra] });
          cases(ctx, bed, B.map(instr => [xfer(A.u1, E(18), { instr, value: 60n })]));
          for (const instr of B) { const dec = S.decInstr(instr, bed.S.reg.length); const q = dec && S.quotes(bed.S, bed.env, 3n, dec); const got = bed.m.view('quoteDeliveryPrice', 3n, instr); const want = dec ? [q, q.reduce((x, y) => x + y, 0n)] : undefined; ctx.count(!!got); if (flat(got) !== flat(want)) { if (ctx.bad('quote', `quoteDeliveryPrice(3, ${R.hex(instr)}) ${got ? 'is ' + flat(got) : 'reverted'}, transfers with these instructions are charged ${flat(want)}`, [...extra, `quoteDeliveryPrice(3, ${R.hex(instr)})`]) && ctx.full()) return; } }
        }
      },
    },
    {
      name: 'payments', bound: 'value x price x caller', run(ctx) {
        for (const prices of [[0n, 0n], [5n, 7n], [1000000n, 1n]]) { const bed = new Bed(ctx.K, { mode: 1, mocks: 2, prices, duration: 100n, setup: [...base({ n: 2, outL: 5n * E(18) }), xfer(A.u1, 6n * E(18), { value: 0n }), time(100n)] }); const tot = prices[0] + prices[1]; const list = []; for (const by of [A.u1, A.noeth]) for (const v of [0n, 1n, tot - 1n, tot, tot + 1n, 2n * tot, 1000000n]) if (v >= 0n) for (const amt of [E(18), 9n * E(18)]) for (const queue of [true, false]) list.push([xfer(by, amt, { value: v, queue })], [{ k: 'transfer3', by, amt, chain: 3n, to: 0x55n, value: v }], [{ k: 'compOut', by, seq: 0n, value: v }], [xfer(by, amt, { value: v, queue }), time(100n), { k: 'compOut', by: A.u2, seq: 1n, value: v }]); cases(ctx, bed, list); }
        const bed = new Bed(ctx.K, { mode: 1, mocks: 2, setup: [{ k: 'setPeer', by: D, chain: 3n, addr: A.peer, dec: 8n, limit: E(20) }] }); cases(ctx, bed, [[xfer(A.u1, E(18))], [{ k: 'addT', by: D, t: T(0) }, xfer(A.u1, E(18))], [{ k: 'fork' }, xfer(A.u1, E(18))], [{ k: 'addT', by: D, t: T(0) }, { k: 'fork' }, xfer(A.u1, E(18)), attest(T(0), mk(1n, 5n)), { k: 'fork' }, xfer(A.u1, E(18))]]);
      },
    },
  ],
};
