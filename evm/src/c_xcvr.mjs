// The Wormhole transceiver (C37): reference model and the spaces in which the contract is compared with it.
import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
import { A, flat } from './bind.mjs';
const D = A.dep, MGR = 0x3000n, XC = 0x5000n, CORE = 0x91n, REL = 0x92n, SPC = 0x93n, TOK = 0x70n, GAS = 5n, LEVEL = 15n, HI = 1n << 200n;
const u = S.u, be = S.be, E0 = new Uint8Array(0);
class No extends Error { }
const no = w => { throw new No(w); };
export class XBed { // one transceiver in front of a recording manager
  constructor(K, cfg = {}) {
    this.K = K; this.cfg = cfg = { fee: 3n, mode: 1n, dec: 18n, owner: D, ...cfg }; const W = this.W = new R.World(); W.time = 1000n; W.chainid = 1n; this.delivered = []; this.refuse = false;
    W.account(MGR).name = 'manager';
    const mgr = K.con('INttManager'), own = K.con('IOwnableUpgradeable');
    const fns = { token: () => TOK, getMode: () => cfg.mode, tokenDecimals: () => cfg.dec, attestationReceived: (x, chain, src, m) => { if (this.refuse) throw new R.Revert(E0, 'manager refuses'); x.W.push(this.delivered, [x.sender, chain, src, m.id, m.sender, m.payload, x.value]); } };
    W.account(MGR).native = H.native(mgr, fns, H.native(own, { owner: () => cfg.owner }));
    this.core = new H.Core(K, W, CORE, { fee: cfg.fee, chainId: 2n }); this.rel = new H.Relayer(K, W, REL, { base: 100n, provider: 0x99n }); this.spc = new H.Special(K, W, SPC, { base: 40n });
    this.x = H.deployProxy(K, W, 'WormholeTransceiver', D, [MGR, CORE, REL, SPC, LEVEL, GAS], XC);
    for (const a of [D, MGR, REL, A.evil, A.u1, A.owner2]) W.account(a).bal = 100000n;
    this.S = { init: false, owner: 0n, pauser: 0n, peers: {}, evm: {}, relay: {}, special: {}, used: {}, pub: [], rsent: [], ssent: [], got: [], eth: Object.fromEntries([[XC, 0n], [CORE, 0n], [REL, 100000n], [SPC, 0n], [D, 100000n], [MGR, 100000n], [A.evil, 100000n], [A.u1, 100000n], [A.owner2, 100000n]]), fork: false, refuse: false, seq: 0n };
    this.chains = [3n, 4n]; this.hashes = new Set();
    for (const op of cfg.setup ?? [{ k: 'init', by: D, value: cfg.fee }]) { const r = this.apply(op, this.S); if (r.diffs.length) { const e = new Error(r.diffs.map(d => d.text).join('; ')); e.diffs = r.diffs; e.op = op; throw e; } this.S = r.S; }
  }
  vaa(op) { return H.vaa(op.chain, op.emitter, op.seq ?? 1n, op.payload, op.valid ?? true); }
  exec(op) {
    const x = this.x, by = op.by, v = op.value ?? 0n, W = this.W;
    switch (op.k) {
      case 'init': return x.tx(by, 'initialize', [], v);
      case 'fork': W.set(W, 'chainid', W.chainid === 1n ? 99n : 1n); return { ok: true };
      case 'refuse': W.set(this, 'refuse', !this.refuse); return { ok: true };
      case 'recv': return x.tx(by, 'receiveMessage', [this.vaa(op)], v);
      case 'relayed': return x.tx(by, 'receiveWormholeMessages', [op.payload, op.extra ?? [], op.emitter, op.chain, op.hash], v);
      case 'send': return x.tx(by, 'sendMessage', [op.chain, { index: 0n, payload: op.ins }, op.msg, op.peer, op.refund], v);
      case 'setPeer': return x.tx(by, 'setWormholePeer', [op.chain, op.addr], v);
      case 'setEvm': return x.tx(by, 'setIsWormholeEvmChain', [op.chain, op.on], v);
      case 'setRelay': return x.tx(by, 'setIsWormholeRelayingEnabled', [op.chain, op.on], v);
      case 'setSpecial': return x.tx(by, 'setIsSpecialRelayingEnabled', [op.chain, op.on], v);
      case 'mgrOwner': return x.tx(by, 'transferTransceiverOwnership', [op.to], v);
      case 'ownOwner': return x.tx(by, 'transferOwnership', [op.to], v);
      case 'pauser': return x.tx(by, 'transferPauserCapability', [op.to], v);
    }
    throw new Error(op.k);
  }
  price(Z, chain, ins) { // null: rejected
    const skip = skipFlag(ins); if (skip === null) return null; if (skip) return { how: 'manual', v: this.cfg.fee };
    if (Z.relay[chain] && !Z.evm[chain]) return null; if (Z.relay[chain]) return { how: 'standard', v: 100n + chain * 3n + GAS }; if (Z.special[chain]) return { how: 'special', v: 40n + chain * 5n + this.cfg.fee }; return { how: 'manual', v: this.cfg.fee };
  }
  step(Z0, op) {
    const Z = { ...Z0, peers: { ...Z0.peers }, evm: { ...Z0.evm }, relay: { ...Z0.relay }, special: { ...Z0.special }, used: { ...Z0.used }, eth: { ...Z0.eth }, ev: [] }; const v = op.value ?? 0n;
    const pay = (to, amt) => { if (Z.eth[op.by] < amt) no('ether'); Z.eth[op.by] -= amt; Z.eth[to] += amt; }; const own = () => { if (op.by !== Z.owner) no('owner'); }; const free = () => { if (v) no('not payable'); };
    const publish = payload => { if (v !== this.cfg.fee) no('fee'); pay(CORE, v); Z.pub = [...Z.pub, [XC, Z.seq, 0n, payload, LEVEL, v]]; Z.seq++; };
    const accept = (chain, payload) => { const m = decXcvr(payload); if (!m) no('payload'); if (m.dst !== MGR) no('recipient'); if (Z.refuse) no('manager'); Z.got = [...Z.got, [XC, chain, m.src, m.id, m.sender, m.payload, 0n]]; };
    try {
      switch (op.k) {
        case 'init': if (Z.init || op.by !== D) no('init'); if (this.cfg.owner === 0n) no('owner'); Z.init = true; Z.owner = this.cfg.owner; Z.pauser = op.by; publish(be(R.unhex('9c23bd3b'), u(MGR, 32), u(this.cfg.mode, 1), u(TOK, 32), u(this.cfg.dec, 1))); break;
        case 'fork': Z.fork = !Z.fork; break;
        case 'refuse': Z.refuse = !Z.refuse; break;
        case 'recv': { free(); if (Z.fork || !(op.valid ?? true)) no('vaa'); if (Z.peers[op.chain] === undefined || Z.peers[op.chain] !== op.emitter) no('peer'); const h = H.vaaHash(this.vaa(op)); if (Z.used[h]) no('replay'); Z.used[h] = true; Z.ev.push(['ReceivedMessage(bytes32,uint16,bytes32,uint64)', h, op.chain, op.emitter, op.seq ?? 1n]); accept(op.chain, op.payload); break; }
        case 'relayed': if (op.by !== REL) no('relayer'); if (Z.peers[op.chain] === undefined || Z.peers[op.chain] !== op.emitter) no('peer'); if (Z.used[op.hash]) no('replay'); if ((op.extra ?? []).length) no('extra'); pay(XC, v); Z.used[op.hash] = true; Z.ev.push(['ReceivedRelayedMessage(bytes32,uint16,bytes32)', op.hash, op.chain, op.emitter]); accept(op.chain, op.payload); break;
        case 'send': {
          if (op.by !== MGR) no('manager'); const p = this.price(Z, op.chain, op.ins); if (!p) no('config'); if (v !== p.v) no('price'); if (op.msg.length > 65535) no('length'); const full = S.encXcvr(MGR, op.peer, op.msg);
          if (p.how === 'standard') { const to = Z.peers[op.chain] ?? 0n; if (to >> 160n || op.refund >> 160n) no('address'); pay(REL, v); Z.rsent = [...Z.rsent, [v, op.chain, to, full, 0n, 0n, GAS, op.chain, op.refund, 0x99n, [], LEVEL]]; }
          else { if (Z.eth[op.by] < v) no('ether'); const sq = Z.seq; pay(CORE, this.cfg.fee); Z.pub = [...Z.pub, [XC, sq, 0n, full, LEVEL, this.cfg.fee]]; Z.seq++; if (p.how === 'special') { pay(SPC, v - this.cfg.fee); Z.ssent = [...Z.ssent, [v - this.cfg.fee, TOK, op.chain, 0n, sq, XC]]; } }
          Z.ev.push(['RelayingInfo(uint8,bytes32,uint256)', { standard: 0n, special: 1n, manual: 2n }[p.how], p.how === 'standard' ? op.refund : 0n, v], ['SendTransceiverMessage(uint16,(bytes32,bytes32,bytes,bytes))', op.chain, { sourceNttManagerAddress: MGR, recipientNttManagerAddress: op.peer, nttManagerPayload: op.msg, transceiverPayload: E0 }]);
          break;
        }
        case 'setPeer': own(); if (!op.chain || !op.addr || Z.peers[op.chain] !== undefined) no('argument'); Z.peers[op.chain] = op.addr; Z.ev.push(['SetWormholePeer(uint16,bytes32)', op.chain, op.addr]); publish(be(R.unhex('18fc67c2'), u(op.chain, 2), u(op.addr, 32))); break;
        case 'setEvm': case 'setRelay': case 'setSpecial': free(); own(); if (!op.chain) no('chain'); Z[{ setEvm: 'evm', setRelay: 'relay', setSpecial: 'special' }[op.k]][op.chain] = op.on; Z.ev.push([{ setEvm: 'SetIsWormholeEvmChain(uint16,bool)', setRelay: 'SetIsWormholeRelayingEnabled(uint16,bool)', setSpecial: 'SetIsSpecialRelayingEnabled(uint16,bool)' }[op.k], op.chain, op.on]); break;
        case 'mgrOwner': free(); if (op.by !== MGR) no('manager'); Z.ev.push(['OwnershipTransferred(address,address)', Z.owner, op.to]); Z.owner = op.to; break;
        case 'ownOwner': free(); own(); if (!op.to) no('zero'); Z.ev.push(['OwnershipTransferred(address,address)', Z.owner, op.to]); Z.owner = op.to; break;
        case 'pauser': free(); if (op.by !== Z.owner && op.by !== Z.pauser) no('role'); Z.ev.push(['PauserTransferred(address,address)', Z.pauser, op.to]); Z.pauser = op.to; break;
      }
      return { ok: true, S: Z };
    } catch (e) { if (!(e instanceof No)) throw e; return { ok: false, S: Z0, why: e.message }; }
  }
  apply(op, Z0) {
    if (op.k === 'recv') this.hashes.add(H.vaaHash(this.vaa(op))); if (op.hash !== undefined) this.hashes.add(op.hash); if (op.chain !== undefined && !this.chains.includes(op.chain)) this.chains.push(op.chain);
    const want = this.step(Z0, op), before = this.W.j.length, nlog = this.W.logs.length, got = this.exec(op), diffs = [];
    if (want.ok !== got.ok) diffs.push({ tag: `${want.ok ? 'rejects' : 'accepts'}:${op.k}`, text: `${op.k} ${got.ok ? 'was accepted' : `was rejected (${got.err})`}, expected ${want.ok ? 'acceptance' : `rejection (${want.why})`}` });
    else if (got.ok) { diffs.push(...this.compare(want.S, op)); const a = S.gotEvents(this.W.logs.slice(nlog), XC).map(flat).sort().join(' '), b = S.wantEvents(want.S.ev).map(flat).sort().join(' '); if (a !== b && op.k !== 'init') diffs.push({ tag: 'post:event', text: `${op.k} emitted ${a || 'no event'}, expected ${b || 'none'}` }); } else if (this.W.j.length !== before) diffs.push({ tag: 'revert', text: 'a rejected call changed state' });
    return { ok: got.ok, agreed: want.ok === got.ok, S: want.S, diffs };
  }
  compare(Z, op) {
    const d = [], x = this.x; const eq = (tag, g, w) => { const a = flat(g), b = flat(w); if (a !== b) d.push({ tag: `post:${tag}`, text: `after ${op.k}: ${tag} is ${a}, expected ${b}` }); };
    if (Z.init) { eq('owner', x.view('owner'), Z.owner); eq('pauser', x.view('pauser'), Z.pauser); }
    for (const c of this.chains) {
      eq('peer', x.view('getWormholePeer', c), Z.peers[c] ?? 0n); eq('flags', [x.view('isWormholeEvmChain', c), x.view('isWormholeRelayingEnabled', c), x.view('isSpecialRelayingEnabled', c)], [!!Z.evm[c], !!Z.relay[c], !!Z.special[c]]);
      for (const ins of [E0, Uint8Array.of(1)]) { const p = this.price(Z, c, ins); eq('quote', x.view('quoteDeliveryPrice', c, { index: 0n, payload: ins }), p ? p.v : undefined); }
    }
    for (const h of this.hashes) eq('consumed', x.view('isVAAConsumed', h), !!Z.used[h]);
    eq('published', this.core.sent.map(s => [s.emitter, s.seq, s.nonce, s.payload, s.cl, s.value]), Z.pub); eq('relayed', this.rel.sent.map(s => [s.value, ...s.args]), Z.rsent); eq('special', this.spc.sent.map(s => [s.value, s.token, s.chain, s.extra, s.seq, s.sender]), Z.ssent); eq('delivered', this.delivered, Z.got);
    for (const a in Z.eth) eq('ether', this.W.account(BigInt(a)).bal, Z.eth[a]); return d;
  }
}
export function skipFlag(b) { if (b.length === 0) return false; if (b.length !== 1 || b[0] > 1) return null; return b[0] === 1; }
export function decXcvr(b) {
  if (b.length < 70 || R.hex(b.subarray(0, 4)) !== '9945ff10') return null; const n = b[68] * 256 + b[69]; let o = 70 + n; if (b.length < o + 2) return null; const k = b[o] * 256 + b[o + 1]; if (b.length !== o + 2 + k) return null;
  const m = b.slice(70, 70 + n); if (m.length < 66) return null; const l = m[64] * 256 + m[65]; if (m.length !== 66 + l) return null;
  return { src: R.b2n(b.subarray(4, 36)), dst: R.b2n(b.subarray(36, 68)), id: R.b2n(m.subarray(0, 32)), sender: R.b2n(m.subarray(32, 64)), payload: m.slice(66) };
}
const msg = (id, o = {}) => S.encXcvr(o.src ?? A.peer, o.dst ?? MGR, S.encMsg({ id, sender: 0x77n, payload: o.payload ?? R.unhex('aabb') }), o.extra);
const recv = (o = {}) => ({ k: 'recv', by: o.by ?? A.u1, chain: o.chain ?? 3n, emitter: o.emitter ?? 0xb5n, seq: o.seq ?? 1n, payload: o.payload ?? msg(1n), valid: o.valid ?? true, value: o.value ?? 0n });
const relayed = (o = {}) => ({ k: 'relayed', by: o.by ?? REL, chain: o.chain ?? 3n, emitter: o.emitter ?? 0xb5n, hash: o.hash ?? 0x1234n, payload: o.payload ?? msg(1n), extra: o.extra ?? [], value: o.value ?? 0n });
const send = (o = {}) => ({ k: 'send', by: o.by ?? MGR, chain: o.chain ?? 3n, ins: o.ins ?? E0, msg: o.msg ?? R.unhex('c0ffee'), peer: o.peer ?? A.peer, refund: o.refund ?? 0x56n, value: o.value });
const peer = (chain, addr, o = {}) => ({ k: 'setPeer', by: o.by ?? D, chain, addr, value: o.value ?? 3n });
const show = op => op.k + '(' + Object.entries(op).filter(([k]) => k !== 'k').map(([k, v]) => `${k}=${flat(v)}`).join(' ') + ')';
function cases(ctx, bed, list) {
  for (const seq of list) { const m = bed.W.mark(), keep = new Set(bed.hashes), kc = [...bed.chains]; let Z = bed.S; const tr = []; for (const op of seq) { tr.push(show(op)); const r = bed.apply(op, Z); ctx.count(r.ok); if (r.diffs.length && (ctx.sink(r.diffs, tr) || !r.agreed)) break; Z = r.S; } ctx.st.states++; ctx.sample(() => seq.map(show).join(' ; ')); bed.W.undo(m); bed.hashes = keep; bed.chains = kc; if (ctx.full()) return; }
}
function sequences(name, cfg, depth, ops, weight = 5) {
  return {
    name, weight, bound: `all sequences of up to ${depth} operations`, run(ctx) {
      const bed = new XBed(ctx.K, cfg); const seen = new Map(), tr = [];
      const rec = (Z, left) => { const k = H.stateKey(bed.W) + bed.W.chainid + bed.refuse + bed.delivered.length; const had = seen.get(k); if (had !== undefined && had >= left) return; if (had === undefined) ctx.st.states++; seen.set(k, left); if (!left || ctx.full()) return; for (const op of ops(Z, bed)) { const m = bed.W.mark(); tr.push(show(op)); const r = bed.apply(op, Z); ctx.count(r.ok); const foul = r.diffs.length && ctx.sink(r.diffs, tr); if (!foul && r.ok && r.agreed) rec(r.S, left - 1); tr.pop(); bed.W.undo(m); } };
      rec(bed.S, depth); ctx.sample(() => ops(bed.S, bed).slice(0, 2).map(show).join(' ; '));
    },
  };
}
const ready = { setup: [{ k: 'init', by: D, value: 3n }, peer(3n, 0xb5n), peer(4n, 0xb6n)] };
export const TRANSCEIVER = {
  focus: t => t !== 'post:event',
  scenarios: tier => [
    sequences('receive', ready, tier === 'quick' ? 4 : 5, () => [recv(), recv({ seq: 2n }), recv({ payload: msg(2n) }), recv({ valid: false }), recv({ valid: 2 }), recv({ emitter: 0xb6n }), recv({ chain: 4n, emitter: 0xb6n }), recv({ chain: 4n }), recv({ chain: 5n }), recv({ chain: 259n }), recv({ emitter: HI | 0xb5n }), recv({ payload: msg(1n, { dst: 0x3001n }) }), recv({ payload: msg(1n, { dst: HI | MGR }) }), recv({ payload: msg(1n, { src: 0xeen }) }), recv({ value: 1n }), relayed(), relayed({ hash: 0x1235n, value: 2n }), relayed({ by: A.evil }), relayed({ by: D }), relayed({ emitter: 0xb6n }), relayed({ chain: 5n }), relayed({ extra: [R.unhex('00')] }), relayed({ payload: msg(1n, { dst: 1n }) }), relayed({ hash: H.vaaHash(H.vaa(3n, 0xb5n, 1n, msg(1n))) }), { k: 'refuse' }], 9),
    sequences('configuration', { setup: [{ k: 'init', by: D, value: 3n }] }, tier === 'quick' ? 4 : 5, () => [...[3n, 4n, 0n].flatMap(c => [peer(c, 0xb5n), ...['setEvm', 'setRelay', 'setSpecial'].map(k => ({ k, by: D, chain: c, on: true }))]), peer(3n, 0xb7n), peer(3n, 0n), peer(3n, 0xb5n, { by: A.evil }), peer(3n, 0xb5n, { by: MGR }), peer(3n, 0xb5n, { value: 0n }), peer(3n, 0xb5n, { by: A.owner2 }), ...['setEvm', 'setRelay', 'setSpecial'].flatMap(k => [{ k, by: D, chain: 3n, on: false }, { k, by: A.evil, chain: 3n, on: true }, { k, by: MGR, chain: 3n, on: true }, { k, by: A.owner2, chain: 3n, on: true }]), { k: 'mgrOwner', by: MGR, to: A.owner2 }, { k: 'mgrOwner', by: D, to: A.evil }, { k: 'mgrOwner', by: A.evil, to: A.evil }, { k: 'ownOwner', by: D, to: A.owner2 }, { k: 'ownOwner', by: A.evil, to: A.evil }, { k: 'pauser', by: D, to: A.u1 }, { k: 'pauser', by: A.evil, to: A.evil }, { k: 'init', by: D, value: 3n }, { k: 'init', by: A.evil, value: 3n }, recv(), recv({ emitter: 0xb7n })], 9),
    {
      name: 'routes', weight: 5, bound: 'relaying flags x chain x instruction x payment x addresses x message length', run(ctx) {
        for (const fee of [0n, 3n]) for (let f = 0; f < 8; f++) {
          const setup = [{ k: 'init', by: D, value: fee }, ...[3n, 4n].map(c => peer(c, c === 3n ? 0xb5n : HI, { value: fee })), ...['setEvm', 'setRelay', 'setSpecial'].flatMap((k, i) => f >> i & 1 ? [3n, 4n].map(c => ({ k, by: D, chain: c, on: true })) : [])];
          const bed = new XBed(ctx.K, { fee, setup }); const list = [];
          for (const chain of [3n, 4n, 7n]) for (const ins of [E0, Uint8Array.of(0), Uint8Array.of(1), Uint8Array.of(2), Uint8Array.of(255), Uint8Array.of(1, 0), Uint8Array.of(0, 1)]) {
            const p = bed.price(bed.S, chain, ins); const vals = p ? [...new Set([p.v, 0n, p.v - 1n, p.v + 1n, fee])].filter(v => v >= 0n) : [0n, fee, 120n];
            const q = bed.x.view('quoteDeliveryPrice', chain, { index: 0n, payload: ins }); ctx.count(q !== undefined); if (flat(q) !== flat(p ? p.v : undefined)) ctx.bad('quote', `quote for chain ${chain} with instruction "${R.hex(ins)}" is ${flat(q)}, expected ${flat(p ? p.v : undefined)}`, setup.map(show));
            for (const refund of [0x56n, 0n, HI | 1n]) for (const v of p ? vals : []) list.push([send({ chain, ins, refund, value: v })]); // an invalid relaying configuration has no price, so no payment can be made for it
            if (p) list.push([send({ chain, ins, by: A.evil, value: p.v })], [send({ chain, ins, by: D, value: p.v })], [send({ chain, ins, value: p.v }), send({ chain, ins, value: p.v, msg: E0, peer: HI })], [send({ chain, ins, value: p.v, msg: new Uint8Array(65535) })], [send({ chain, ins, value: p.v, msg: new Uint8Array(65536) })]);
          }
          cases(ctx, bed, list);
        }
      },
    },
    {
      name: 'payloads', bound: 'every truncation, extension and single-byte change of an encoded message, through both entry points', run(ctx) {
        const bed = new XBed(ctx.K, ready); const list = []; const P = []; for (const g of [msg(7n), msg(8n, { payload: E0 }), msg(9n, { extra: R.unhex('010203') })]) { for (let n = 0; n <= g.length; n++) P.push(g.slice(0, n)); for (const x of ['00', '0000', 'ff']) P.push(R.cat(g, R.unhex(x))); for (let i = 0; i < g.length; i++) for (const x of ctx.tier === 'quick' ? [1, 0x80] : [1, 2, 4, 8, 16, 32, 64, 128]) { const q = g.slice(); q[i] ^= x; P.push(q); } }
        P.forEach((payload, i) => { list.push([recv({ payload }), recv({ payload })], [relayed({ payload, hash: BigInt(i) + 1n }), relayed({ payload, hash: BigInt(i) + 1n })]); }); cases(ctx, bed, list);
        const f = { k: 'fork' }; cases(ctx, bed, [[f, recv()], [f, recv(), f, recv(), recv()], [recv(), f, recv({ seq: 2n })], [{ k: 'refuse' }, recv(), { k: 'refuse' }, recv()], [{ k: 'refuse' }, relayed(), { k: 'refuse' }, relayed(), relayed()]]);
        for (let c = 0n; c < (ctx.tier === 'quick' ? 64n : 65536n); c++) { const chain = c < 32n || ctx.tier !== 'quick' ? c : 65535n - (c - 32n); if (chain === 3n || chain === 4n) continue; cases(ctx, bed, [[recv({ chain })], [relayed({ chain })]]); }
      },
    },
    {
      name: 'initialization', bound: 'mode x decimals x owner x fee x caller', run(ctx) {
        for (const mode of [0n, 1n]) for (const dec of [0n, 6n, 18n, 255n]) for (const owner of [D, A.owner2, 0n]) for (const fee of [0n, 3n]) { const bed = new XBed(ctx.K, { mode, dec, owner, fee, setup: [] }); cases(ctx, bed, [[{ k: 'init', by: D, value: fee }, { k: 'init', by: D, value: fee }], [{ k: 'init', by: A.evil, value: fee }], [{ k: 'init', by: owner || A.u1, value: fee }], [{ k: 'init', by: D, value: fee + 1n }]]); }
      },
    },
  ],
};
