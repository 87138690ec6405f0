// Binds the reference model to the compiled contracts: the same operation is run on both, and every observable is compared.
import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
export const A = { dep: 0xd0n, owner2: 0xd2n, pauser2: 0xd3n, u1: 0x11n, u2: 0x12n, nope: 0x13n, noeth: 0x14n, sink: 0x15n, evil: 0x66n, peer: 0xbbn, peerB: 0xbcn };
const pk = (amt, d) => (amt << 8n) | d;
export class Bed { // one manager deployment
  constructor(K, cfg) {
    this.K = K; this.cfg = cfg = { mode: 0, decimals: 18n, chain: 2n, duration: 86400n, noLimit: false, fee: 0n, time: 1000000n, mocks: 2, prices: [5n, 7n, 11n, 13n], perByte: 0n, deployer: A.dep, manager: 0x3000n, token: 0x70n, users: [A.u1, A.u2], chains: [3n], funds: null, ...cfg };
    const W = this.W = new R.World(); W.time = cfg.time; W.chainid = 1n;
    this.tok = new H.Token(W, cfg.token, { decimals: cfg.decimals, fee: cfg.fee, noret: !!cfg.noret, minter: cfg.mode === 1 ? cfg.manager : null });
    this.m = cfg.noLimit ? H.deployProxy(K, W, 'NttManagerNoRateLimiting', cfg.deployer, [cfg.token, BigInt(cfg.mode), cfg.chain], cfg.manager) : H.deployProxy(K, W, 'NttManager', cfg.deployer, [cfg.token, BigInt(cfg.mode), cfg.chain, cfg.duration, cfg.duration === 0n], cfg.manager);
    H.must(this.m.tx(cfg.deployer, 'initialize'), 'initialize');
    this.mocks = []; for (let i = 0; i < cfg.mocks; i++) this.mocks.push(new H.Mock(K, W, 0xa0n + BigInt(i), { price: cfg.prices[i % cfg.prices.length], perByte: cfg.perByte, name: 't' + i }));
    W.account(A.noeth).native = ctx => { throw new R.Revert(new Uint8Array(0), 'refuses ether'); };
    this.env = { refuses: new Set([A.noeth]), unapproved: new Set([A.nope]), quote: (a, chain, ins) => { const t = this.mocks.find(x => x.addr === a); return t.quote(chain, ins); } };
    this.tok.unapproved.add(A.nope);
    this.S = S.initial(cfg); const fund = cfg.funds ?? 10n ** (cfg.decimals + 12n);
    for (const x of [A.u1, A.u2, A.nope, A.noeth]) { this.tok.give(x, fund); this.S.tok[x] = fund; this.S.supply += fund; W.account(x).bal = 1000000n; this.S.eth[x] = 1000000n; }
    this.watch = [A.u1, A.u2, A.nope, A.noeth, A.sink, A.evil, A.dep, cfg.manager, ...this.mocks.map(t => t.addr)];
    this.digests = new Set(); this.chains = [...cfg.chains];
    for (const op of cfg.setup ?? []) { const r = this.apply(op, this.S); if (r.diffs.length) throw new Mismatch(r.diffs, op); this.S = r.S; }
  }
  // executes op on the contracts only
  exec(op) {
    const m = this.m, by = op.by, v = op.value ?? 0n, W = this.W;
    switch (op.k) {
      case 'time': W.set(W, 'time', W.time + op.dt); return { ok: true };
      case 'fork': W.set(W, 'chainid', W.chainid === 1n ? 99n : 1n); return { ok: true };
      case 'gift': { try { this.tok.move({ W, a: this.tok.a, stat: false }, op.by, this.cfg.manager, op.amt); return { ok: true }; } catch (e) { return { ok: false }; } }
      case 'transfer': return m.tx(by, 'transfer', [op.amt, op.chain, op.to, op.refund, op.queue, op.instr], v);
      case 'transfer3': return m.tx(by, 'transfer', [op.amt, op.chain, op.to], v);
      case 'compOut': return m.tx(by, 'completeOutboundQueuedTransfer', [op.seq], v);
      case 'cancel': return m.tx(by, 'cancelOutboundQueuedTransfer', [op.seq], v);
      case 'compIn': return m.tx(by, 'completeInboundQueuedTransfer', [op.dg], v);
      case 'attest': return m.tx(by, 'attestationReceived', [op.chain, op.src, op.msg], v);
      case 'exec': return m.tx(by, 'executeMsg', [op.chain, op.src, op.msg], v);
      case 'setPeer': return m.tx(by, 'setPeer', [op.chain, op.addr, op.dec, op.limit], v);
      case 'setOut': return m.tx(by, 'setOutboundLimit', [op.limit], v);
      case 'setIn': return m.tx(by, 'setInboundLimit', [op.limit, op.chain], v);
      case 'addT': return m.tx(by, 'setTransceiver', [op.t], v);
      case 'rmT': return m.tx(by, 'removeTransceiver', [op.t], v);
      case 'setThr': return m.tx(by, 'setThreshold', [op.n], v);
      case 'pause': case 'unpause': return m.tx(by, op.k, [], v);
      case 'transferOwnership': return m.tx(by, 'transferOwnership', [op.to], v);
      case 'transferPauser': return m.tx(by, 'transferPauserCapability', [op.to], v);
    }
    throw new Error('op ' + op.k);
  }
  // runs op on both sides; returns {ok, S, diffs:[{tag, text}]}
  apply(op, S0) {
    if (op.msg) this.digests.add(S.digestOf(op.chain, op.msg)); if (op.chain !== undefined && !this.chains.includes(op.chain)) this.chains.push(op.chain);
    const want = S.step(this.cfg, S0, op, this.env); const before = this.W.mark(), nlog = this.W.logs.length; const got = this.exec(op); const diffs = [];
    if (want.ok !== got.ok) diffs.push({ tag: `${want.ok ? 'rejects' : 'accepts'}:${op.k}`, text: `${op.k} ${got.ok ? 'was accepted' : `was rejected (${got.err})`}, expected ${want.ok ? 'acceptance' : `rejection (${want.why})`}` });
    else { if (want.ok && want.ret !== undefined && got.ret !== want.ret) diffs.push({ tag: `ret:${op.k}`, text: `${op.k} returned ${got.ret}, expected ${want.ret}` }); if (!got.ok && this.W.j.length !== before) diffs.push({ tag: 'revert', text: 'a rejected call changed state' }); if (got.ok) { diffs.push(...this.compare(want.S, op)); const a = S.gotEvents(this.W.logs.slice(nlog), this.cfg.manager).map(flat).sort().join(' '), b = S.wantEvents(want.S.ev).map(flat).sort().join(' '); if (a !== b) diffs.push({ tag: 'post:event', text: `${op.k} emitted ${a || 'no event'}, expected ${b || 'none'}` }); } }
    return { ok: got.ok, agreed: want.ok === got.ok, S: want.S, diffs, err: got.err };
  }
  compare(Z, op) {
    const d = [], m = this.m, cfg = this.cfg; const eq = (tag, got, want) => { const a = flat(got), b = flat(want); if (a !== b) d.push({ tag: `post:${tag}`, text: `after ${op.k}: ${tag} is ${a}, expected ${b}` }); };
    eq('owner', m.view('owner'), Z.owner); eq('pauser', m.view('pauser'), Z.pauser); eq('paused', m.view('isPaused'), Z.paused); eq('threshold', m.view('getThreshold'), Z.threshold);
    eq('transceivers', m.view('getTransceivers'), Z.en); eq('info', m.view('getTransceiverInfo'), Z.en.map(a => ({ registered: true, enabled: true, index: BigInt(Z.reg.indexOf(a)) })));
    eq('seq', m.view('nextMessageSequence'), Z.seq);
    for (const c of this.chains) { const p = Z.peers[c]; eq(`peer`, m.view('getPeer', c), { peerAddress: p ? p.addr : 0n, tokenDecimals: p ? p.dec : 0n }); }
    if (!cfg.noLimit) {
      const d8 = cfg.decimals < 8n ? cfg.decimals : 8n, up = 10n ** (cfg.decimals - d8);
      if (cfg.duration !== 0n) {
        const o = m.view('getOutboundLimitParams'); eq('out_rl', o && o.limit, pk(Z.out.limit, d8)); eq('out_rl', m.view('getCurrentOutboundCapacity'), S.capacity(cfg, Z, Z.out) * up);
        for (const c of this.chains) { const l = Z.inl[c]; if (!l) continue; const g = m.view('getInboundLimitParams', c); eq('in_rl', g && g.limit, pk(l.limit, d8)); eq('in_rl', m.view('getCurrentInboundCapacity', c), S.capacity(cfg, Z, l) * up); }
      }
      for (let s = 0n; s < Z.seq; s++) { const q = Z.outQ[s]; const g = m.view('getOutboundQueuedTransfer', s); eq('outq', g && [g.recipient, g.refundAddress, g.amount, g.txTimestamp, g.recipientChain, g.sender, g.transceiverInstructions], q ? [q.to, q.refund, pk(q.amt, q.dec), q.ts, q.chain, q.sender, q.instr] : [0n, 0n, 0n, 0n, 0n, 0n, new Uint8Array(0)]); }
      for (const dg of this.digests) { const q = Z.inQ[dg]; const g = m.view('getInboundQueuedTransfer', dg); eq('inq', g && [g.amount, g.txTimestamp, g.recipient], q ? [pk(q.amt, d8), q.ts, q.to] : [0n, 0n, 0n]); }
    }
    for (const dg of this.digests) {
      eq('executed', m.view('isMessageExecuted', dg), !!Z.exec[dg]); eq('votes', m.view('messageAttestations', dg), S.votes(Z, dg)); eq('approved', m.view('isMessageApproved', dg), S.approved(Z, dg));
      for (let i = 0; i < Z.reg.length; i++) eq('attested', m.view('transceiverAttestedToMessage', dg, BigInt(i)), ((Z.att[dg] ?? 0n) >> BigInt(i) & 1n) === 1n);
    }
    for (const a of this.watch) { eq(a === cfg.manager ? 'custody' : 'balance', this.tok.bal(a), Z.tok[a] ?? 0n); eq('ether', this.W.acc.get(a)?.bal ?? 0n, Z.eth[a] ?? 0n); }
    eq('supply', this.tok.supply(), Z.supply);
    const sent = this.mocks.flatMap(t => t.sent.map(x => [t.addr, x.from, x.value, x.chain, x.index, x.ins, x.msg, x.peer, x.refund])); const want = this.mocks.flatMap(t => Z.sent.filter(x => x.to === t.addr).map(x => [t.addr, cfg.manager, x.value, x.chain, x.index, x.ins, x.msg, x.peer, x.refund])); eq('sent', sent, want);
    eq('owners', this.mocks.flatMap(t => t.owners.map(o => [t.addr, o])), this.mocks.flatMap(t => Z.owners.filter(o => o[0] === t.addr)));
    if (this.cfg.checkQuotes !== false && Z.en.length) for (const c of this.chains) { const ins = S.decInstr(Uint8Array.of(0), Z.reg.length); const q = S.quotes(Z, this.env, c, ins); eq('quote', m.view('quoteDeliveryPrice', c, Uint8Array.of(0)), [q, q.reduce((a, b) => a + b, 0n)]); }
    return d;
  }
}
export class Mismatch extends Error { constructor(diffs, op) { super(diffs.map(d => d.text).join('; ')); this.diffs = diffs; this.op = op; } }
export function flat(x) {
  if (x === undefined) return 'reverted'; if (typeof x === 'bigint') return '0x' + x.toString(16); if (x instanceof Uint8Array) return '"' + R.hex(x) + '"'; if (Array.isArray(x)) return '[' + x.map(flat).join(',') + ']';
  if (x && typeof x === 'object') return '{' + Object.keys(x).sort().map(k => k + ':' + flat(x[k])).join(',') + '}'; return String(x);
}
export const showOp = op => op.k + '(' + Object.entries(op).filter(([k]) => k !== 'k' && k !== 'label').map(([k, v]) => `${k}=${k === 'msg' ? flat({ ...v }) : flat(v)}`).join(' ') + ')';

// exhaustive depth-bounded exploration; ops(S, depth) lists the operations tried in a state
export function explore(bed, depth, ops, sink) {
  const seen = new Map(); let states = 0, transitions = 0, accepted = 0; const trace = [];
  const rec = (Z, left) => {
    const key = H.stateKey(bed.W) + bed.W.chainid; const had = seen.get(key); if (had !== undefined && had >= left) return; if (had === undefined) states++; seen.set(key, left);
    if (left === 0) return;
    for (const op of ops(Z, depth - left)) {
      const m = bed.W.mark(); trace.push(op); const r = bed.apply(op, Z); transitions++; if (r.ok) accepted++;
      let foul = false; if (r.diffs.length) foul = sink(r.diffs, trace, Z); const extra = bed.invariant && r.ok ? bed.invariant(r.S) : null; if (extra) { sink([extra], trace, Z); foul = true; }
      if (!foul && r.agreed && r.ok) rec(r.S, left - 1);
      trace.pop(); bed.W.undo(m);
    }
  };
  rec(bed.S, depth); return { states, transitions, accepted };
}
