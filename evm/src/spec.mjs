// Reference model of the NTT manager, written from the documented behaviour (not from the Solidity text).
// A state is a plain object; step(S, op, env) returns {ok, S', ret} or {ok:false}.
import * as R from './rt.mjs';
export const U64 = (1n << 64n) - 1n;
const min = (a, b) => (a < b ? a : b), max = (a, b) => (a > b ? a : b);
const p10 = n => 10n ** n;
export const u = (v, n) => R.n2b(v, n);
export const be = (...xs) => R.cat(...xs);

// ------------------------------------------------------------------ wire format (docs/NTT message layout)
export function encTransfer(a) { // {dec, amt, token, to, toChain, extra}
  const b = be(R.unhex('994e5454'), u(a.dec, 1), u(a.amt, 8), u(a.token, 32), u(a.to, 32), u(a.toChain, 2));
  return a.extra && a.extra.length ? be(b, u(BigInt(a.extra.length), 2), a.extra) : b;
}
export function decTransfer(b) {
  if (b.length < 79 || R.hex(b.subarray(0, 4)) !== '994e5454') return null; let extra = new Uint8Array(0);
  if (b.length > 79) { if (b.length < 81) return null; const n = b[79] * 256 + b[80]; if (b.length !== 81 + n) return null; extra = b.slice(81); }
  return { dec: BigInt(b[4]), amt: R.b2n(b.subarray(5, 13)), token: R.b2n(b.subarray(13, 45)), to: R.b2n(b.subarray(45, 77)), toChain: R.b2n(b.subarray(77, 79)), extra };
}
export const encMsg = m => be(u(m.id, 32), u(m.sender, 32), u(BigInt(m.payload.length), 2), m.payload);
export const digestOf = (chain, m) => R.keccak(be(u(chain, 2), encMsg(m)));
export const encXcvr = (src, dst, msg, extra = new Uint8Array(0)) => be(R.unhex('9945ff10'), u(src, 32), u(dst, 32), u(BigInt(msg.length), 2), msg, u(BigInt(extra.length), 2), extra);
// transceiver instructions: count, then (index, length, payload) with strictly increasing indices below the number of registered transceivers
export function decInstr(b, n) {
  if (b.length < 1) return null; const out = Array.from({ length: n }, () => ({ index: 0n, payload: new Uint8Array(0) })); let o = 1, last = -1;
  for (let i = 0; i < b[0]; i++) { if (o + 2 > b.length) return null; const ix = b[o], l = b[o + 1]; if (o + 2 + l > b.length) return null; if (ix <= last || ix >= n) return null; last = ix; out[ix] = { index: BigInt(ix), payload: b.slice(o + 2, o + 2 + l) }; o += 2 + l; }
  return o === b.length ? out : null;
}
export const encInstr = l => be(u(BigInt(l.length), 1), ...l.map(([i, p]) => be(u(BigInt(i), 1), u(BigInt(p.length), 1), p)));

// ------------------------------------------------------------------ events, as documented in the interfaces (x: which arguments are indexed)
export const EV = {};
for (const l of `TransferSent(bytes32,bytes32,uint256,uint256,uint16,uint64) 110000|TransferSent(bytes32) 1|PeerUpdated(uint16,bytes32,uint8,bytes32,uint8) 10000|TransferRedeemed(bytes32) 1|OutboundTransferCancelled(uint256,address,uint256) 000|InboundTransferQueued(bytes32) 0|OutboundTransferQueued(uint64) 0|OutboundTransferRateLimited(address,uint64,uint256,uint256) 1000|OutboundTransferLimitUpdated(uint256,uint256) 00|InboundTransferLimitUpdated(uint16,uint256,uint256) 100|MessageAttestedTo(bytes32,address,uint8) 000|ThresholdChanged(uint8,uint8) 00|TransceiverAdded(address,uint256,uint8) 000|TransceiverRemoved(address,uint8) 00|MessageAlreadyExecuted(bytes32,bytes32) 11|Paused(bool) 0|NotPaused(bool) 0|PauserTransferred(address,address) 11|OwnershipTransferred(address,address) 11|ReceivedRelayedMessage(bytes32,uint16,bytes32) 000|ReceivedMessage(bytes32,uint16,bytes32,uint64) 0000|SendTransceiverMessage(uint16,(bytes32,bytes32,bytes,bytes)) 00|RelayingInfo(uint8,bytes32,uint256) 000|SetWormholePeer(uint16,bytes32) 00|SetIsWormholeRelayingEnabled(uint16,bool) 00|SetIsSpecialRelayingEnabled(uint16,bool) 00|SetIsWormholeEvmChain(uint16,bool) 00`.split('|')) { const [s, x] = l.split(' '); EV[s] = x; }
const EVN = new Set(Object.keys(EV).map(s => s.slice(0, s.indexOf('('))));
// the documented events among the logs of one contract, and the expected ones, in a form that can be compared (order within a call is free)
export const gotEvents = (logs, addr) => logs.filter(l => l.a === addr && EVN.has(l.n)).map(l => [l.s, l.x.join(''), ...l.v]);
export const wantEvents = ev => ev.map(([s, ...v]) => [s, EV[s], ...v]);

// ------------------------------------------------------------------ state
export function initial(cfg) {
  const d8 = min(8n, cfg.decimals);
  return {
    owner: cfg.deployer, pauser: cfg.deployer, paused: false, threshold: 0n, reg: [], en: [], peers: {}, seq: 0n,
    out: cfg.noLimit ? null : { limit: U64, cap: U64, last: cfg.time, d: d8 }, inl: {}, outQ: {}, inQ: {}, att: {}, exec: {}, time: cfg.time, fork: false,
    tok: {}, supply: 0n, eth: {}, sent: [], owners: [],
  };
}
export const clone = S => ({
  ...S, reg: [...S.reg], en: [...S.en], peers: { ...S.peers }, out: S.out && { ...S.out }, inl: Object.fromEntries(Object.entries(S.inl).map(([k, v]) => [k, { ...v }])), outQ: { ...S.outQ }, inQ: { ...S.inQ }, att: { ...S.att }, exec: { ...S.exec }, tok: { ...S.tok }, eth: { ...S.eth }, sent: S.sent, owners: S.owners,
});
export const capacity = (cfg, S, l) => {
  if (cfg.duration === 0n) return U64; const dt = S.time - l.last; return min(l.limit, l.cap + l.limit * dt / cfg.duration);
};
const up = (cfg, v) => v * p10(cfg.decimals - min(8n, cfg.decimals)); // limiter units to token units
class No extends Error { }
const no = why => { const e = new No(why); throw e; };
const tok = (S, a) => S.tok[a] ?? 0n, eth = (S, a) => S.eth[a] ?? 0n;
function pay(S, env, from, to, v) { if (v === 0n) return; if (eth(S, from) < v) no('ether'); if (env.refuses.has(to)) no('refused ether'); S.eth[from] = eth(S, from) - v; S.eth[to] = eth(S, to) + v; }
function credit(cfg, S, to, v) { // pay out tokens
  if (S.fork) no('fork'); if (to === 0n) no('zero recipient');
  if (cfg.mode === 0) { if (tok(S, cfg.manager) < v) no('custody'); S.tok[cfg.manager] = tok(S, cfg.manager) - v; const fee = v * cfg.fee / 10000n; S.tok[to] = tok(S, to) + v - fee; S.supply -= fee; }
  else { S.tok[to] = tok(S, to) + v; S.supply += v; }
}
const enabledBits = S => S.en.reduce((b, a) => b | (1n << BigInt(S.reg.indexOf(a))), 0n);
const pop = b => { let n = 0n; while (b) { n += b & 1n; b >>= 1n; } return n; };
export const votes = (S, dg) => pop((S.att[dg] ?? 0n) & enabledBits(S));
export const approved = (S, dg) => S.threshold > 0n && votes(S, dg) >= S.threshold;
export function quotes(S, env, chain, ins) { return S.en.map(a => env.quote(a, chain, ins[S.reg.indexOf(a)])); }
function setLimit(cfg, S, l, lim) { // l: existing or undefined
  if (!l || cfg.duration === 0n && false) return { limit: lim, cap: lim, last: S.time };
  if (cfg.duration === 0n) return { limit: lim, cap: lim, last: S.time };
  const c = capacity(cfg, S, l); return { limit: lim, cap: l.limit > lim ? max(0n, c - (l.limit - lim)) : c + (lim - l.limit), last: S.time };
}
const trimLimit = (cfg, v) => { const t = cfg.decimals > 8n ? v / p10(cfg.decimals - 8n) : v; if (t > U64) no('limit too large'); return t; };
function send(cfg, S, env, caller, value, q) { // dispatch a message; msg.value is already at the manager
  if (S.fork) no('fork'); if (!S.en.length) no('no transceivers');
  const ins = decInstr(q.instr, S.reg.length); if (!ins) no('instructions');
  const qs = quotes(S, env, q.chain, ins); const total = qs.reduce((a, b) => a + b, 0n); if (value < total) no('payment');
  if (value > total) pay(S, env, cfg.manager, caller, value - total);
  const peer = S.peers[q.chain]; if (!peer) no('peer');
  const body = encMsg({ id: q.seq, sender: q.sender, payload: encTransfer({ dec: q.dec, amt: q.amt, token: cfg.token, to: q.to, toChain: q.chain }) });
  S.en.forEach((a, i) => { pay(S, env, cfg.manager, a, qs[i]); const x = ins[S.reg.indexOf(a)]; S.sent = [...S.sent, { to: a, value: qs[i], chain: q.chain, index: x.index, ins: R.hex(x.payload), msg: R.hex(body), peer: peer.addr, refund: q.refund }]; });
  S.ev.push(['TransferSent(bytes32,bytes32,uint256,uint256,uint16,uint64)', q.to, q.refund, q.amt * p10(cfg.decimals - q.dec), total, q.chain, q.seq], ['TransferSent(bytes32)', R.keccak(be(u(cfg.chain, 2), body))]);
}
const scaleAmt = (v, from, to) => from === to ? v : from > to ? v / p10(from - to) : v * p10(to - from);
function handle(cfg, S, env, chain, m, dg) {
  const t = decTransfer(m.payload); if (!t) no('payload'); if (t.toChain !== cfg.chain) no('chain');
  const d8 = min(8n, cfg.decimals); if (t.dec > 77n && t.dec !== cfg.decimals) no('decimals');
  const un = scaleAmt(t.amt, t.dec, cfg.decimals); if (un >> 256n) no('overflow'); const amt = scaleAmt(un, cfg.decimals, d8); if (amt > U64) no('overflow'); if (t.to >> 160n) no('recipient');
  if (!cfg.noLimit && cfg.duration !== 0n) {
    const l = S.inl[chain]; if (!l) no('no limit'); const c = capacity(cfg, S, l);
    if (c < amt) { S.inQ[dg] = { amt, to: t.to, ts: S.time }; S.ev.push(['InboundTransferQueued(bytes32)', dg]); return; }
    S.inl[chain] = { ...l, cap: c - amt, last: S.time };
    S.out = { ...S.out, cap: min(S.out.limit, capacity(cfg, S, S.out) + amt), last: S.time };
  }
  credit(cfg, S, t.to, scaleAmt(amt, d8, cfg.decimals)); S.ev.push(['TransferRedeemed(bytes32)', dg]);
}
function execute(cfg, S, env, chain, m, dg, src) { if (!approved(S, dg)) no('not approved'); if (S.exec[dg]) { S.ev.push(['MessageAlreadyExecuted(bytes32,bytes32)', src, dg]); return; } S.exec[dg] = true; handle(cfg, S, env, chain, m, dg); }

const inEv = (cfg, S, chain, lim) => S.ev.push(['InboundTransferLimitUpdated(uint16,uint256,uint256)', chain, S.inl[chain] ? up(cfg, S.inl[chain].limit) : 0n, up(cfg, lim)]);
// ops: see checks
export function step(cfg, S0, op, env) {
  const S = clone(S0); S.ev = [];
  try { return { ok: true, S, ret: run(cfg, S, op, env) }; } catch (e) { if (!(e instanceof No)) throw e; return { ok: false, S: S0, why: e.message }; }
}
function run(cfg, S, op, env) {
  const live = () => { if (S.paused) no('paused'); }, own = () => { if (op.by !== S.owner) no('not owner'); };
  const value = op.value ?? 0n;
  if (op.k === 'time') { S.time += op.dt; return; }
  if (op.k === 'fork') { S.fork = !S.fork; return; }
  if (op.k === 'gift') { if (tok(S, op.by) < op.amt) no('balance'); S.tok[op.by] = tok(S, op.by) - op.amt; const fee = op.amt * cfg.fee / 10000n; S.tok[cfg.manager] = tok(S, cfg.manager) + op.amt - fee; S.supply -= fee; return; }
  if (value && !['transfer', 'transfer3', 'compOut'].includes(op.k)) no('not payable');
  if (value) { if (eth(S, op.by) < value) no('ether'); S.eth[op.by] = eth(S, op.by) - value; S.eth[cfg.manager] = eth(S, cfg.manager) + value; }
  switch (op.k) {
    case 'transfer': case 'transfer3': {
      live(); const t3 = op.k === 'transfer3', refund = t3 ? op.to : op.refund, queue = t3 ? false : op.queue, instr = t3 ? Uint8Array.of(0) : op.instr;
      if (op.amt === 0n || op.to === 0n || refund === 0n) no('argument'); if (env.unapproved.has(op.by)) no('allowance');
      if (tok(S, op.by) < op.amt) no('balance'); const fee = op.amt * cfg.fee / 10000n, got = op.amt - fee;
      S.tok[op.by] = tok(S, op.by) - op.amt; S.supply -= fee; if (cfg.mode === 0) S.tok[cfg.manager] = tok(S, cfg.manager) + got; else S.supply -= got;
      const peer = S.peers[op.chain]; if (!peer) no('peer'); const dec = min(8n, min(cfg.decimals, peer.dec)); const unit = p10(cfg.decimals - dec);
      const amt = got / unit; if (amt > U64) no('too large'); if (got % unit) no('dust');
      const seq = S.seq; S.seq++;
      const q = { seq, chain: op.chain, to: op.to, refund, sender: op.by, instr, dec, amt };
      if (!cfg.noLimit) {
        const d8 = min(8n, cfg.decimals); const x = scaleAmt(amt, dec, d8); if (x > U64) no('too large');
        if (cfg.duration !== 0n) {
          const c = capacity(cfg, S, S.out);
          if (c < x) { if (!queue) no('capacity'); if (S.fork) no('fork'); S.outQ[seq] = { ...q, ts: S.time }; S.ev.push(['OutboundTransferQueued(uint64)', seq], ['OutboundTransferRateLimited(address,uint64,uint256,uint256)', op.by, seq, got, up(cfg, c)]); if (env.refuses.has(op.by)) no('refused ether'); pay(S, env, cfg.manager, op.by, value); return seq; }
          S.out = { ...S.out, cap: c - x, last: S.time }; const l = S.inl[op.chain]; S.inl[op.chain] = { ...l, cap: min(l.limit, capacity(cfg, S, l) + x), last: S.time };
        }
      }
      send(cfg, S, env, op.by, value, q); return seq;
    }
    case 'compOut': { live(); if (cfg.noLimit) no('n/a'); const q = S.outQ[op.seq]; if (!q) no('missing'); if (S.time - q.ts < cfg.duration) no('early'); delete S.outQ[op.seq]; send(cfg, S, env, op.by, value, q); return op.seq; }
    case 'cancel': { live(); if (cfg.noLimit) no('n/a'); const q = S.outQ[op.seq]; if (!q) no('missing'); if (q.sender !== op.by) no('not sender'); delete S.outQ[op.seq]; const v = scaleAmt(q.amt, q.dec, cfg.decimals); credit(cfg, S, op.by, v); S.ev.push(['OutboundTransferCancelled(uint256,address,uint256)', op.seq, op.by, v]); return; }
    case 'compIn': { live(); if (cfg.noLimit) no('n/a'); const q = S.inQ[op.dg]; if (!q) no('missing'); if (S.time - q.ts < cfg.duration) no('early'); delete S.inQ[op.dg]; credit(cfg, S, q.to, scaleAmt(q.amt, min(8n, cfg.decimals), cfg.decimals)); S.ev.push(['TransferRedeemed(bytes32)', op.dg]); return; }
    case 'attest': {
      if (!S.en.includes(op.by)) no('not a transceiver'); live(); const p = S.peers[op.chain]; if (!p || p.addr !== op.src) no('peer');
      const dg = digestOf(op.chain, op.msg), bit = 1n << BigInt(S.reg.indexOf(op.by)); if ((S.att[dg] ?? 0n) & bit) no('attested'); S.att[dg] = (S.att[dg] ?? 0n) | bit; S.ev.push(['MessageAttestedTo(bytes32,address,uint8)', dg, op.by, BigInt(S.reg.indexOf(op.by))]);
      if (approved(S, dg)) execute(cfg, S, env, op.chain, op.msg, dg, op.src); return;
    }
    case 'exec': { live(); execute(cfg, S, env, op.chain, op.msg, digestOf(op.chain, op.msg), op.src); return; }
    case 'setPeer': {
      own(); if (op.chain === 0n || op.addr === 0n || op.dec === 0n || op.chain === cfg.chain) no('argument');
      const lim = trimLimit(cfg, op.limit); const o = S.peers[op.chain]; S.ev.push(['PeerUpdated(uint16,bytes32,uint8,bytes32,uint8)', op.chain, o ? o.addr : 0n, o ? o.dec : 0n, op.addr, op.dec]); if (!cfg.noLimit) inEv(cfg, S, op.chain, lim); S.peers[op.chain] = { addr: op.addr, dec: op.dec }; if (!cfg.noLimit) S.inl[op.chain] = setLimit(cfg, S, S.inl[op.chain], lim); return;
    }
    case 'setOut': { own(); const lim = trimLimit(cfg, op.limit); if (!cfg.noLimit) S.ev.push(['OutboundTransferLimitUpdated(uint256,uint256)', up(cfg, S.out.limit), up(cfg, lim)]); if (!cfg.noLimit) S.out = setLimit(cfg, S, S.out, lim); return; }
    case 'setIn': { own(); const lim = trimLimit(cfg, op.limit); if (!cfg.noLimit) inEv(cfg, S, op.chain, lim); if (!cfg.noLimit) S.inl[op.chain] = setLimit(cfg, S, S.inl[op.chain], lim); return; }
    case 'addT': { own(); if (op.t === 0n || S.en.includes(op.t)) no('argument'); if (!S.reg.includes(op.t)) { if (S.reg.length >= 64) no('full'); S.reg.push(op.t); } S.en.push(op.t); if (S.threshold === 0n) S.threshold = 1n; S.ev.push(['TransceiverAdded(address,uint256,uint8)', op.t, BigInt(S.en.length), S.threshold]); return; }
    case 'rmT': { own(); if (!S.en.includes(op.t)) no('argument'); const i = S.en.indexOf(op.t), l = S.en.pop(); if (l !== op.t) S.en[i] = l; if (S.threshold > BigInt(S.en.length)) S.threshold = BigInt(S.en.length); if (S.threshold === 0n) no('last'); S.ev.push(['TransceiverRemoved(address,uint8)', op.t, S.threshold]); return; }
    case 'setThr': { own(); if (op.n === 0n || op.n > BigInt(S.en.length)) no('argument'); S.ev.push(['ThresholdChanged(uint8,uint8)', S.threshold, op.n]); S.threshold = op.n; return; }
    case 'pause': if (op.by !== S.owner && op.by !== S.pauser) no('role'); if (S.paused) no('paused'); S.paused = true; S.ev.push(['Paused(bool)', true]); return;
    case 'unpause': own(); if (!S.paused) no('not paused'); S.paused = false; S.ev.push(['NotPaused(bool)', false]); return;
    case 'transferOwnership': own(); if (op.to === 0n) no('zero'); S.ev.push(['OwnershipTransferred(address,address)', S.owner, op.to]); S.owner = op.to; S.owners = [...S.owners, ...S.reg.map(a => [a, op.to])]; return;
    case 'transferPauser': if (op.by !== S.owner && op.by !== S.pauser) no('role'); S.ev.push(['PauserTransferred(address,address)', S.pauser, op.to]); S.pauser = op.to; return;
  }
  throw new Error('op ' + op.k);
}
