// C47: the TypeScript client of the EVM contracts against the contracts. Every call of the client is made in every state of the space;
// the transactions it builds are executed and compared with the direct calls they stand for, and what it reads with what the contracts hold.
import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
const E = n => 10n ** BigInt(n), U64 = S.U64;
const D = 0xd0d1d2d3d4d5d6d7d8d9dadbdcdddedfe0e1e2e3n, OWN2 = 0xabcdef0123456789abcdef0123456789abcdef01n, PAU2 = 0x00c0ffee00c0ffee00c0ffee00c0ffee00c0ffeen, U1 = 0x1111222233334444555566667777888899990000n, U2 = 0x2222333344445555666677778888999900001111n, SINK = 0x5151515151515151515151515151515151515151n;
const MGR = 0x3aeb13b1f24a5f1f1d0f5eca5c4a5d6f7e8f9a0bn, XC = 0x5cfe54f2f75c0b5d5c4b3a29180716f5e4d3c2b1n, TOK = 0x70fa0c4dc2be0f5dd4a3b2c1908f7e6d5c4b3a29n, CORE = 0x91n, REL = 0x92n, SPC = 0x93n, GAS = 5n, LEVEL = 15n;
const PB = 0xb5c0b5c0b5c0b5c0b5c0b5c0b5c0b5c0b5c0b5c1n, PS = 0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20n, XB = 0xb5e7b5e7b5e7b5e7b5e7b5e7b5e7b5e7b5e7b5e8n, XS = 0x2122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f40n;
const hx = v => R.hex(R.n2b(v, 32)), flat = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? `${v}n` : v instanceof Uint8Array ? R.hex(v) : v && v.toUniversalAddress ? 'A:' + R.hex(v.toUniversalAddress().toUint8Array()) : v) ?? 'undefined';
class Bed {
  constructor(K, m, cfg) {
    this.cfg = cfg; this.m = m; const W = this.W = new R.World(); W.time = 1000000n; W.chainid = 1n; const x = cfg.prec = cfg.decimals < 8n ? cfg.decimals : 8n; this.unit = E(cfg.decimals - x) * 1000n;
    this.tok = new H.Token(W, TOK, { decimals: cfg.decimals, minter: cfg.mode ? MGR : null, strict: true, noret: false });
    this.core = new H.Core(K, W, CORE, { fee: 0n, chainId: 2n }); this.rel = new H.Relayer(K, W, REL, { base: 100n, provider: 0x99n }); this.spc = new H.Special(K, W, SPC, { base: 40n });
    this.mgr = cfg.noLimit ? H.deployProxy(K, W, 'NttManagerNoRateLimiting', D, [TOK, BigInt(cfg.mode), 2n], MGR) : H.deployProxy(K, W, 'NttManager', D, [TOK, BigInt(cfg.mode), 2n, cfg.duration, cfg.duration === 0n], MGR); H.must(this.mgr.tx(D, 'initialize'), 'initialize');
    this.x = H.deployProxy(K, W, 'WormholeTransceiver', D, [MGR, CORE, REL, SPC, LEVEL, GAS], XC); H.must(this.x.tx(D, 'initialize'), 'initialize transceiver'); H.must(this.mgr.tx(D, 'setTransceiver', [XC]), 'setTransceiver');
    this.mock = new H.Mock(K, W, 0xa0n, { price: 7n, name: 'second' }); for (const a of [0xa0n, D, OWN2, PAU2, U1, U2, SINK, MGR, XC, CORE, REL, SPC, TOK]) W.account(a).bal = [MGR, XC].includes(a) ? 0n : 10n ** 9n; for (const a of [U1, U2]) this.tok.give(a, 500n * this.unit); if (!cfg.mode) this.tok.give(MGR, 50n * this.unit);
    const { EvmAddress, UniversalAddress, EvmNtt } = { ...m.sdk_definitions, ...m.evm }; this.ev = a => new EvmAddress(R.n2b(a, 20)); this.ua = a => new UniversalAddress(R.n2b(a, 32)); this.str = a => this.ev(a).toString();
    this.provider = { where: [cfg.network, 'Ethereum'], call: async tx => { const mk = W.mark(); try { return '0x' + R.hex(W.call(0xfefen, BigInt(tx.to), BigInt(tx.value ?? 0n), R.unhex(tx.data ?? '0x'))); } catch (e) { if (!(e instanceof R.Revert)) throw e; throw Object.assign(new Error('call exception'), { code: 'CALL_EXCEPTION' }); } finally { W.undo(mk); } } };
    this.contracts = { coreBridge: this.str(CORE), ntt: { token: this.str(TOK), manager: this.str(MGR), transceiver: { wormhole: this.str(XC) } } };
    this.client = new EvmNtt(cfg.network, 'Ethereum', this.provider, this.contracts, cfg.version); this.msgs = [];
  }
  lists() { return [this.core.sent, this.rel.sent, this.spc.sent, this.mock.sent, this.mock.owners]; }
  key(n0 = this.W.logs.length) {
    const W = this.W, p = [W.time, this.core.o.fee, flat(this.lists()), flat(W.logs.slice(n0).map(l => [l.a, l.s, l.v]))]; for (const a of [...W.acc.values()].sort((x, y) => x.addr < y.addr ? -1 : 1)) { if (!a.st.size && !a.bal) continue; p.push('#', a.addr.toString(36), a.bal.toString(36)); for (const k of [...a.st.keys()].sort((x, y) => x < y ? -1 : x > y ? 1 : 0)) p.push(k.toString(36), a.st.get(k).toString(36)); }
    return p.join(' ');
  }
  // one message from another chain, and its VAA as the SDK hands it out
  message(name, chainId, mgr, emitter, units, o = {}) {
    const B = this.m.sdk_base, amt = units * 1000n, dec = Number(this.cfg.prec); const chain = B.toChain(chainId);
    const mm = { id: R.n2b(BigInt(o.id), 32), sender: this.ua(0x77n), payload: { trimmedAmount: { decimals: dec, amount: amt }, sourceToken: this.ua(5n), recipientAddress: this.ua(SINK), recipientChain: 'Ethereum', additionalPayload: new Uint8Array(0) } };
    const tp = S.encTransfer({ dec: BigInt(dec), amt, token: 5n, to: SINK, toChain: 2n }); const em = { id: BigInt(o.id), sender: 0x77n, payload: tp }, body = S.encMsg(em), env = S.encXcvr(mgr, MGR, body);
    const payload = { sourceNttManager: this.ua(mgr), recipientNttManager: this.ua(MGR), nttManagerPayload: mm, transceiverPayload: new Uint8Array(0) }; const raw = H.vaa(BigInt(chainId), emitter, BigInt(o.id), env, o.valid ?? true);
    const common = { emitterChain: chain, emitterAddress: this.ua(emitter), sequence: BigInt(o.id), protocolName: 'Ntt', raw };
    return { name, chain, chainId: BigInt(chainId), em, mm, raw, dg: S.digestOf(BigInt(chainId), em), att: { ...common, payloadName: 'WormholeTransfer', payload }, relayed: { ...common, payloadName: 'WormholeTransferStandardRelayer', payload: { targetChainId: 'Ethereum', payload } } };
  }
}
function operations(b) { // the direct calls that make up the state space
  const { mgr, x, W, unit } = b, L = []; const owner = () => mgr.view('owner'), xo = () => x.view('owner'), fee = () => b.core.o.fee;
  const add = (n, f) => L.push([n, f]);
  add('peer Bsc', () => mgr.tx(owner(), 'setPeer', [4n, PB, 18n, 5n * unit])); add('peer Solana', () => mgr.tx(owner(), 'setPeer', [1n, PS, 9n, 40n * unit]));
  add('out limit', () => mgr.tx(owner(), 'setOutboundLimit', [4n * unit])); add('in limit Bsc', () => mgr.tx(owner(), 'setInboundLimit', [50n * unit, 4n]));
  add('xpeer Bsc', () => x.tx(xo(), 'setWormholePeer', [4n, XB], fee())); add('xpeer Solana', () => x.tx(xo(), 'setWormholePeer', [1n, XS], fee()));
  add('evm Bsc', () => x.tx(xo(), 'setIsWormholeEvmChain', [4n, true])); add('relay Bsc', () => x.tx(xo(), 'setIsWormholeRelayingEnabled', [4n, true])); add('special Bsc', () => x.tx(xo(), 'setIsSpecialRelayingEnabled', [4n, true])); add('special Solana', () => x.tx(xo(), 'setIsSpecialRelayingEnabled', [1n, true]));
  add('pause', () => mgr.tx(mgr.view('pauser'), 'pause')); add('owner', () => mgr.tx(owner(), 'transferOwnership', [OWN2])); add('pauser', () => mgr.tx(mgr.view('pauser'), 'transferPauserCapability', [PAU2])); add('xpauser', () => x.tx(x.view('pauser'), 'transferPauserCapability', [U2]));
  for (const n of [3n, 9n]) add(`approve ${n}`, () => b.direct(U1, TOK, 'approve(address,uint256)', R.encTuple([{ k: 'address' }, { k: 'uint', bits: 256 }], [MGR, n * unit])));
  add('fee', () => { W.set(b.core.o, 'fee', fee() ? 0n : 3n); return { ok: true }; });
  add('transfer', () => mgr.tx(U1, 'transfer', [3n * unit, 4n, 0x55n, 0x56n, true, Uint8Array.of(1, 0, 1, 1)], fee()));
  for (const q of b.msgs) add(`receive ${q.name}`, () => x.tx(U2, 'receiveMessage', [q.raw]));
  add('second transceiver', () => mgr.tx(owner(), 'setTransceiver', [b.mock.addr])); for (const n of [2n, 1n]) add(`threshold ${n}`, () => mgr.tx(owner(), 'setThreshold', [n])); add('vote small', () => mgr.tx(b.mock.addr, 'attestationReceived', [4n, PB, b.msgs[0].em]));
  add('complete', () => mgr.tx(U2, 'completeInboundQueuedTransfer', [b.msgs[1].dg])); add('time', () => { W.set(W, 'time', W.time + 43200n); return { ok: true }; });
  return L;
}
// what the client reads: [name, run, expected]; undefined expected: the client must fail
function reads(b) {
  const { mgr, x, client: c, cfg } = b, L = []; const v = (i, n, ...a) => i.view(n, ...a); const add = (n, f, want) => L.push([n, f, want]);
  const un = p => p === undefined ? undefined : (p >> 8n) * E(30) / E(p & 255n) * E(cfg.decimals) / E(30); const CH = [['Solana', 1n], ['Bsc', 4n], ['Polygon', 5n], ['Ethereum', 2n]];
  add('getMode', () => c.getMode(), cfg.mode ? 'burning' : 'locking'); add('isPaused', () => c.isPaused(), v(mgr, 'isPaused')); add('getOwner', () => c.getOwner(), b.ev(v(mgr, 'owner'))); add('getPauser', () => c.getPauser(), b.ev(v(mgr, 'pauser'))); add('getThreshold', () => c.getThreshold(), Number(v(mgr, 'getThreshold')));
  add('getTokenDecimals', () => c.getTokenDecimals(), Number(cfg.decimals)); add('getCustodyAddress', async () => b.ev(BigInt(await c.getCustodyAddress())), b.ev(MGR)); add('getRateLimitDuration', () => c.getRateLimitDuration(), v(mgr, 'rateLimitDuration')); add('getCurrentOutboundCapacity', () => c.getCurrentOutboundCapacity(), v(mgr, 'getCurrentOutboundCapacity'));
  add('getOutboundLimit', () => c.getOutboundLimit(), un(v(mgr, 'getOutboundLimitParams')?.limit)); add('getVersion', () => b.m.evm.EvmNtt.getVersion(b.provider, b.contracts), new TextDecoder().decode(v(mgr, 'NTT_MANAGER_VERSION')));
  add('verifyAddresses', () => c.verifyAddresses(), null);
  for (const [w, ntt] of [['token', { ...b.contracts.ntt, token: b.str(U1) }], ['transceiver', { ...b.contracts.ntt, transceiver: { wormhole: b.str(U2) } }], ['both', { ...b.contracts.ntt, token: b.str(U1), transceiver: { wormhole: b.str(U2) } }]]) add(`verifyAddresses with another ${w}`, () => new b.m.evm.EvmNtt(cfg.network, 'Ethereum', b.provider, { ...b.contracts, ntt }, cfg.version).verifyAddresses(), { ...(w !== 'transceiver' && { token: b.str(TOK) }), ...(w !== 'token' && { transceiver: { wormhole: b.str(XC) } }) });
  for (const net of ['Mainnet', 'Testnet']) add(`fromRpc ${net}`, async () => { const n = await b.m.evm.EvmNtt.fromRpc(b.provider, { Ethereum: { network: net, contracts: b.contracts } }); return [n.network, n.chain, n.managerAddress, n.tokenAddress, n.version, n.xcvrs.length, n.chainId]; }, net === cfg.network ? [net, 'Ethereum', b.str(MGR), b.str(TOK), '1.1.0', 1, b.m.sdk_base.nativeChainId(net, 'Ethereum')] : undefined);
  add('getTransceiver 0', async () => (await c.getTransceiver(0)).getAddress(), { chain: 'Ethereum', address: b.ua(XC) }); add('getTransceiver 1', () => c.getTransceiver(1), null); const t = c.xcvrs[0]; add('getTransceiverType', () => t.getTransceiverType(), 'wormhole'); add('transceiver getPauser', () => t.getPauser(), b.ev(v(x, 'pauser')));
  for (const f of [true, false]) add(`encodeFlags ${f}`, async () => t.encodeFlags({ skipRelay: f }), Uint8Array.of(f ? 1 : 0));
  for (const [ch, id] of CH) {
    const p = v(mgr, 'getPeer', id), il = cfg.noLimit ? 0n : un(v(mgr, 'getInboundLimitParams', id)?.limit); add(`getInboundLimit ${ch}`, () => c.getInboundLimit(ch), il); add(`getCurrentInboundCapacity ${ch}`, () => c.getCurrentInboundCapacity(ch), v(mgr, 'getCurrentInboundCapacity', id));
    add(`getPeer ${ch}`, () => c.getPeer(ch), p.peerAddress === 0n ? null : { address: { chain: ch, address: b.ua(p.peerAddress) }, tokenDecimals: Number(p.tokenDecimals), inboundLimit: il });
    const xp = v(x, 'getWormholePeer', id); add(`transceiver getPeer ${ch}`, () => t.getPeer(ch), xp === 0n ? null : { chain: ch, address: b.ua(xp) }); const re = v(x, 'isWormholeRelayingEnabled', id), sp = v(x, 'isSpecialRelayingEnabled', id);
    add(`isEvmChain ${ch}`, () => t.isEvmChain(ch), v(x, 'isWormholeEvmChain', id)); add(`isWormholeRelayingEnabled ${ch}`, () => t.isWormholeRelayingEnabled(ch), re); add(`isSpecialRelayingEnabled ${ch}`, () => t.isSpecialRelayingEnabled(ch), sp); add(`isRelayingAvailable ${ch}`, () => c.isRelayingAvailable(ch), re || sp);
    for (const a of [true, false, undefined]) add(`quoteDeliveryPrice ${ch} automatic=${a}`, () => c.quoteDeliveryPrice(ch, { queue: true, automatic: a }), v(mgr, 'quoteDeliveryPrice', id, Uint8Array.of(1, 0, 1, a ? 0 : 1))?.[1]);
  }
  for (const q of b.msgs) {
    const ex = v(mgr, 'isMessageExecuted', q.dg), iq = v(mgr, 'getInboundQueuedTransfer', q.dg), queued = !!iq && iq.txTimestamp > 0n; const item = queued ? { recipient: b.ev(iq.recipient), amount: un(iq.amount), rateLimitExpiryTimestamp: Number(iq.txTimestamp + cfg.duration) } : null;
    for (const [k, att] of [['', q.att], [' (relayed)', q.relayed]]) { add(`getIsExecuted ${q.name}${k}`, () => c.getIsExecuted(att), ex && !queued); add(`getIsTransferInboundQueued ${q.name}${k}`, () => c.getIsTransferInboundQueued(att), queued); add(`getIsApproved ${q.name}${k}`, () => c.getIsApproved(att), v(mgr, 'isMessageApproved', q.dg)); }
    add(`getInboundQueuedTransfer ${q.name}`, () => c.getInboundQueuedTransfer(q.chain, q.mm), item); add(`getInboundQueuedTransfer ${q.name} from another chain`, () => c.getInboundQueuedTransfer('Base', q.mm), null);
  }
  return L;
}
// what the client sends: [name, callers, generator, reference(caller) -> ok, declared sender or null]
function writes(b, deep) {
  const { mgr, x, client: c, unit } = b, L = [], t = c.xcvrs[0], W = b.W; const add = (n, by, g, ref, from = null) => L.push([n, by, g, ref, from]); const ca = (chain, a) => ({ chain, address: b.ua(a) }); const ADM = [D, OWN2, PAU2, U1], NO = () => ({ ok: false });
  add('pause', ADM, () => c.pause(), by => mgr.tx(by, 'pause')); add('unpause', ADM, () => c.unpause(), by => mgr.tx(by, 'unpause'));
  for (const [n, a] of [['native', b.ev(OWN2)], ['universal', b.ua(OWN2)], ['text', b.str(OWN2)]]) add(`setOwner ${n}`, ADM, () => c.setOwner(a), by => mgr.tx(by, 'transferOwnership', [OWN2])); add('setPauser', ADM, () => c.setPauser(b.ev(PAU2)), by => mgr.tx(by, 'transferPauserCapability', [PAU2]));
  for (const a of [b.ev(U2), b.ua(U2)]) add('transceiver setPauser', [...ADM, U2], () => t.setPauser(a), by => x.tx(by, 'transferPauserCapability', [U2]));
  for (const [ch, id, a] of [['Bsc', 4n, PB], ['Solana', 1n, PS], ['Ethereum', 2n, PB], ['Polygon', 5n, 0n]]) {
    for (const dec of [0, 9]) for (const lim of [0n, 5n * unit + 1n, U64 * E(b.cfg.decimals - b.cfg.prec), (U64 + 1n) * E(b.cfg.decimals - b.cfg.prec)]) add(`setPeer ${ch} ${dec} ${lim}`, [D, U1], () => c.setPeer(ca(ch, a), dec, lim), by => mgr.tx(by, 'setPeer', [id, a, BigInt(dec), lim]));
    const xa = id === 4n ? XB : id === 1n ? XS : a; for (const [n, g] of [['setWormholeTransceiverPeer', () => c.setWormholeTransceiverPeer(ca(ch, xa))], ['setTransceiverPeer 0', () => c.setTransceiverPeer(0, ca(ch, xa))], ['transceiver setPeer', () => t.setPeer(ca(ch, xa))]]) add(`${n} ${ch}`, [D, U1], g, by => x.tx(by, 'setWormholePeer', [id, xa])); add(`setTransceiverPeer 1 ${ch}`, [D], () => c.setTransceiverPeer(1, ca(ch, xa)), NO);
    for (const on of [true, false]) { add(`setIsEvmChain ${ch} ${on}`, [D, U1], () => t.setIsEvmChain(ch, on), by => x.tx(by, 'setIsWormholeEvmChain', [id, on])); add(`setIsWormholeRelayingEnabled ${ch} ${on}`, [D, U1], () => t.setIsWormholeRelayingEnabled(ch, on), by => x.tx(by, 'setIsWormholeRelayingEnabled', [id, on])); add(`setIsSpecialRelayingEnabled ${ch} ${on}`, [D, U1], () => t.setIsSpecialRelayingEnabled(ch, on), by => x.tx(by, 'setIsSpecialRelayingEnabled', [id, on])); }
    for (const lim of [0n, 7n * unit]) add(`setInboundLimit ${ch} ${lim}`, [D, U1], () => c.setInboundLimit(ch, lim), by => mgr.tx(by, 'setInboundLimit', [lim, id]));
  }
  for (const lim of [0n, 7n * unit, 7n * unit + 1n]) add(`setOutboundLimit ${lim}`, [D, U1], () => c.setOutboundLimit(lim), by => mgr.tx(by, 'setOutboundLimit', [lim]));
  for (const q of b.msgs) {
    add(`redeem ${q.name}`, [U2], () => c.redeem([q.att]), by => x.tx(by, 'receiveMessage', [q.raw])); add(`receive ${q.name}`, [U1], () => t.receive(q.att), by => x.tx(by, 'receiveMessage', [q.raw])); add(`redeem ${q.name} (relayed)`, [U2], () => c.redeem([q.relayed]), NO);
    add(`completeInboundQueuedTransfer ${q.name}`, [U2], () => c.completeInboundQueuedTransfer(q.chain, q.mm, b.ev(U2)), by => mgr.tx(by, 'completeInboundQueuedTransfer', [q.dg])); add(`completeInboundQueuedTransfer ${q.name} from another chain`, [U2], () => c.completeInboundQueuedTransfer('Base', q.mm), by => mgr.tx(by, 'completeInboundQueuedTransfer', [R.keccak(R.str('no such message'))]));
  }
  add('redeem nothing', [U2], () => c.redeem([]), NO); add('redeem two', [U2], () => c.redeem([b.msgs[0].att, b.msgs[1].att]), NO);
  const amts = [0n, 1n, unit, 3n * unit, 3n * unit + 1n, 9n * unit, 600n * unit];
  for (const [ch, id, to] of [['Bsc', 4n, U2], ['Solana', 1n, PS], ['Polygon', 5n, U2]]) for (const amt of amts) for (const queue of [true, false]) for (const automatic of [true, false]) {
    if (!deep && amt === 9n * unit && !automatic) continue; const who = automatic ? b.ev(U1) : b.ua(U1);
    add(`transfer ${amt} to ${ch} queue=${queue} automatic=${automatic}`, [U1], () => c.transfer(who, amt, ca(ch, to), { queue, automatic }), by => {
      const ins = Uint8Array.of(1, 0, 1, automatic ? 0 : 1), q = mgr.view('quoteDeliveryPrice', id, ins); if (!q) return { ok: false };
      if (b.tok.allowance(U1, MGR) < amt) b.direct(U1, TOK, 'approve(address,uint256)', R.encTuple([{ k: 'address' }, { k: 'uint', bits: 256 }], [MGR, amt]));
      return { ...mgr.tx(U1, 'transfer', [amt, id, to, to, queue, ins], q[1]), price: q[1] };
    }, U1);
  }
  return L;
}
Bed.prototype.direct = function (from, to, sig, body, value = 0n) { try { return { ok: true, ret: this.W.call(from, to, value, R.cat(R.n2b(R.selector(sig), 4), body)) }; } catch (e) { if (!(e instanceof R.Revert)) throw e; return { ok: false }; } };
async function inState(ctx, b, trace) {
  const W = b.W, { client } = b; const bad = (t, m) => ctx.bad('client', m, [...trace, t]);
  for (const [n, f, want] of reads(b)) {
    let got, err; try { got = await f(); } catch (e) { err = e; if (e instanceof R.Unsupported) throw e; } ctx.count(!err);
    if (want === undefined ? !err : err || flat(got) !== flat(want)) bad(n, `${n} ${err ? `fails (${err.message})` : `gives ${flat(got)}`}, expected ${want === undefined ? 'a failure' : flat(want)}`); if (ctx.full()) return;
  }
  for (const [n, callers, g, ref, from] of writes(b, ctx.tier !== 'quick')) for (const by of callers) {
    const m = W.mark(), n0 = W.logs.length; W.origin = by; const rr = ref(by), want = rr.ok, price = rr.price ?? null, wk = b.key(n0); W.undo(m);
    let got = true, err, odd = null, cnt = 0;
    try { for await (const u of g()) { cnt++; const tx = u.transaction; if (u.network !== b.cfg.network || u.chain !== 'Ethereum') odd = `is for ${u.network} ${u.chain}`; if (BigInt(tx.chainId ?? -1) !== b.m.sdk_base.nativeChainId(b.cfg.network, 'Ethereum')) odd = `has chain id ${tx.chainId}`; if (u.parallelizable && from !== null) odd = 'is marked as independent of the others'; if (tx.from !== undefined && BigInt(tx.from) !== by) odd = `is from ${tx.from}`; if (from !== null && tx.from === undefined) odd = 'names no sender'; if (from !== null && BigInt(tx.to) === MGR && price !== null && BigInt(tx.value ?? 0n) !== price) odd = `pays ${tx.value} for ${price}`; W.origin = by; try { W.call(by, BigInt(tx.to), BigInt(tx.value ?? 0n), R.unhex(tx.data)); } catch (e) { if (!(e instanceof R.Revert)) throw e; got = false; break; } } } catch (e) { if (e instanceof R.Unsupported) throw e; err = e; got = false; }
    const gk = b.key(n0); W.undo(m); ctx.count(got); const t = `${n} by ${by === D ? 'the deployer' : b.str(by)}`;
    if (odd) bad(t, `a transaction of ${n} ${odd}`); else if (got !== want) bad(t, `${n} ${got ? 'succeeds' : `fails${err ? ` (${err.message})` : ''}`}, the direct call ${want ? 'succeeds' : 'fails'}`); else if (gk !== wk) bad(t, `${n} leaves another state than the direct call: ${firstDiff(gk, wk)}`); else if (want && !cnt) bad(t, `${n} sends nothing`); if (ctx.full()) return;
  }
  void client;
}
const firstDiff = (a, b) => { const x = a.split(' '), y = b.split(' '); for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `${x.slice(Math.max(0, i - 1), i + 2).join(' ')} instead of ${y.slice(Math.max(0, i - 1), i + 2).join(' ')}`; return ''; };
let M; // the bundle of the client, made once per worker
const STARTS = { fresh: [], configured: ['peer Bsc', 'peer Solana', 'out limit', 'xpeer Bsc', 'xpeer Solana', 'evm Bsc', 'special Solana', 'approve 9'], busy: ['peer Bsc', 'peer Solana', 'out limit', 'in limit Bsc', 'xpeer Bsc', 'xpeer Solana', 'evm Bsc', 'relay Bsc', 'approve 3', 'transfer', 'peer Bsc', 'receive small', 'receive big', 'fee'], votes: ['peer Bsc', 'peer Solana', 'xpeer Bsc', 'xpeer Solana', 'special Solana', 'approve 3', 'second transceiver', 'threshold 2', 'receive small', 'receive big'] };
const scenario = (name, cfg, start, depth) => ({
  name: `${name}-${start}`, weight: depth * (start === 'fresh' ? 1 : 2), bound: `every client call in every state reached by up to ${depth} direct operations`, async run(ctx) {
    if (!M) { const { load } = await import('../../ts/src/bundle.mjs'); try { M = await load(['defs', 'evm']); } catch (e) { throw new R.Unsupported(`the TypeScript sources: ${e.message}`); } } const b = new Bed(ctx.K, M, { mode: 0, decimals: 18n, duration: 86400n, version: '1.1.0', network: 'Mainnet', ...cfg });
    b.msgs = [b.message('small', 4, PB, XB, 2n, { id: 1 }), b.message('big', 4, PB, XB, 9n, { id: 2 }), b.message('unsigned', 4, PB, XB, 2n, { id: 3, valid: false }), b.message('solana', 1, PS, XS, 2n, { id: 4 })];
    const ops = operations(b); for (const n of STARTS[start]) { const r = ops.find(o => o[0] === n)[1](); if (!r.ok) throw new Error(`setup: ${n}: ${r.err}`); }
    const seen = new Map(), trace = []; ctx.sample(() => `${start}: every read, and every write by every caller`);
    const rec = async left => {
      const k = b.key(); const had = seen.get(k); if (had !== undefined && had >= left) return; if (had === undefined) { ctx.st.states++; await inState(ctx, b, trace); if (ctx.full()) return; } seen.set(k, left); if (!left) return;
      for (const [n, f] of ops) { const m = b.W.mark(); trace.push(n); if (f().ok) await rec(left - 1); trace.pop(); b.W.undo(m); if (ctx.full()) return; }
    };
    await rec(depth);
  },
});
export const CLIENT = {
  focus: t => t === 'client', scenarios: tier => {
    const q = tier === 'quick', l = [];
    for (const [name, cfg] of [['locking-18', {}], ['burning-6', { mode: 1, decimals: 6n, version: '1.0.0', network: 'Testnet' }]]) for (const s of Object.keys(STARTS)) l.push(scenario(name, cfg, s, q ? 2 : 3));
    for (const [name, cfg] of [['burning-8', { mode: 1, decimals: 8n, version: '0.1.0' }], ['locking-unlimited', { duration: 0n, decimals: 9n }], ['locking-nolimit', { duration: 0n, noLimit: true }]]) for (const s of Object.keys(STARTS)) l.push(scenario(name, cfg, s, q ? 1 : 2));
    return l;
  },
};
