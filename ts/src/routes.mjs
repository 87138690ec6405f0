// C48: the automatic and manual routes. Every configuration and request of the stated products, and every state of a transfer's life
// (source transaction, signature, delivery, queue, release, by the route or by others) with every call of the route in it.
import { parts } from './rwire.mjs';
const E = n => 10n ** BigInt(n), flat = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? `${v}n` : v instanceof Uint8Array ? Buffer.from(v).toString('hex') : v && v.toUniversalAddress ? 'A:' + Buffer.from(v.toUniversalAddress().toUint8Array()).toString('hex') : v) ?? 'undefined';
const ND = { Ethereum: 18, Bsc: 18, Polygon: 18, Solana: 9 };
class Fails extends Error {}
// the deployments and the chains they are on; manager and token addresses are shared by different tokens on different chains
function plan(B, order, upper) {
  const evm = (n, f = 'ab') => { const s = '0x' + (n.toString(16).padStart(2, '0') + f).repeat(10); return upper ? '0x' + s.slice(2).toUpperCase() : s; }, sol = n => B.encoding.b58.encode(new Uint8Array(32).fill(n));
  const mk = (chain, t, mg, x, quoter) => ({ chain, token: t, manager: mg, transceiver: [{ type: 'wormhole', address: x }], ...(quoter && { quoter }) });
  const foo = [mk('Ethereum', evm(0x11), evm(0x21), evm(0x31)), mk('Bsc', evm(0x12), evm(0x25), evm(0x32)), mk('Solana', sol(13), sol(23), sol(23), sol(43))];
  const bar = [mk('Bsc', evm(0x11), evm(0x24), evm(0x34)), mk('Ethereum', evm(0x12), evm(0x25), evm(0x35)), mk('Polygon', evm(0x16), evm(0x21), evm(0x36)), mk('Solana', sol(17), sol(27), sol(27))];
  const one = [mk('Polygon', evm(0x18), evm(0x28), evm(0x38))];
  return { tokens: order ? { BAR: bar, ONE: one, FOO: [...foo].reverse() } : { FOO: foo, BAR: bar, ONE: one } };
}
const same = (chain, a, b) => chain === 'Solana' ? a === b : a.toLowerCase() === b.toLowerCase();
const contractsOf = t => ({ token: t.token, manager: t.manager, transceiver: { wormhole: t.transceiver[0].address }, quoter: t.quoter });
class Net {
  constructor(m, config) {
    this.m = m; this.config = config; this.C = m.sdk_connect; this.log = []; this.env = null; this.relay = true; this.price = 0n; this.cap = 0n; this.dur = 0n; this.approve = false; this.nth = 0; this.vaas = new Map(); this.ctx = {};
    for (const c of Object.keys(ND)) this.ctx[c] = { chain: c, network: 'Testnet', config: { nativeTokenDecimals: ND[c] }, supportsProtocol: p => p === 'Ntt', getProtocol: async (p, o) => this.ntt(c, p, o), submit: async (u, s) => { if (s.chain() !== c) throw new Fails('the signer is of another chain'); u.run(s); return `tx${++this.nth}`; } };
  }
  getChain(c) { if (!this.ctx[c]) throw new Error('no such chain'); return this.ctx[c]; }
  async getVaa(id, name, timeout) { this.log.push(['getVaa', id, timeout]); const v = this.vaas.get(id); if (!v || !this.env.signed) return null; if (name !== `Ntt:${v.payloadName}`) throw new Error(`the message is no ${name}`); return v; }
  ntt(chain, p, o) {
    const all = Object.values(this.config.tokens).flat(), d = all.find(t => t.chain === chain && same(chain, t.manager, o.ntt.manager)); if (p !== 'Ntt' || !d) throw new Fails(`no deployment ${o.ntt.manager} on ${chain}`);
    if (!same(chain, d.token, o.ntt.token) || !same(chain, d.transceiver[0].address, o.ntt.transceiver.wormhole)) throw new Fails('contracts of different deployments'); const net = this, e = this.env, at = n => `${chain}/${d.manager.toLowerCase()}/${n}`, log = (n, ...a) => net.log.push([at(n), ...a]);
    const mine = () => !!e && e.dst === d, isIt = a => mine() && a === e.vaa, msgOf = () => (e.vaa.payloadName === 'WormholeTransfer' ? e.vaa.payload : e.vaa.payload.payload).nttManagerPayload, its = (c, x) => mine() && c === e.vaa.emitterChain && x === msgOf();
    return {
      isRelayingAvailable: async c => (net.relay instanceof Function ? net.relay(d, c) : net.relay), quoteDeliveryPrice: async (c, opt) => net.price(d, c, opt), getRateLimitDuration: async () => net.dur(d), getCurrentInboundCapacity: async c => net.cap(d, c), getCurrentOutboundCapacity: async () => 1n,
      getIsApproved: async a => isIt(a) && e.approved, getIsExecuted: async a => isIt(a) && e.executed && e.queued === null, getIsTransferInboundQueued: async a => isIt(a) && e.queued !== null,
      getInboundQueuedTransfer: async (c, x) => its(c, x) && e.queued !== null ? { recipient: 'somebody', amount: 5n, rateLimitExpiryTimestamp: e.queued } : null,
      async *transfer(sender, amt, to, opt) { if (net.approve) yield { run() { log('approve'); } }; yield { run() { log('transfer', sender, amt, to, opt); } }; },
      async *redeem(l, payer) { yield { run() { log('redeem', l.length, payer); if (l.length !== 1 || !isIt(l[0]) || e.approved) throw new Fails('reverted'); net.deliver(); } }; },
      async *completeInboundQueuedTransfer(c, x, payer) { yield { run() { log('complete', payer); if (!its(c, x) || e.queued === null || !e.expired) throw new Fails('reverted'); e.queued = null; e.executed = true; } }; },
    };
  }
  deliver() { const e = this.env; e.approved = true; if (e.outcome === 'queue' || e.outcome === 'later') e.queued = e.outcome === 'queue' ? 1700000000 : 4102444800; if (e.outcome !== 'vote') e.executed = true; }
}
const signer = (chain, a) => ({ chain: () => chain, address: () => a });
const missing = e => e instanceof TypeError && /is not a (function|constructor)/.test(e.message); // the stand-ins lack something
const attempt = async f => { try { return { ok: true, v: await f() }; } catch (e) { if (missing(e)) throw e; return { ok: false, e }; } };
export function checks(m, tier) {
  const q = tier === 'quick', B = m.sdk_base, C = m.sdk_connect, R = m.route, { UniversalAddress } = m.sdk_definitions, L = [], T = C.TransferState;
  const plans = () => [[0, 0], [1, 0], [0, 1], [1, 1]].map(([o, u]) => plan(B, o, u)), routesOf = cfg => [['manual', R.nttManualRoute(cfg)], ['automatic', R.nttAutomaticRoute(cfg)]], tid = t => C.Wormhole.tokenId(t.chain, t.token), text = t => `${t.chain}:${C.canonicalAddress(t).toLowerCase()}`;
  const lc = (chain, o) => flat({ token: chain === 'Solana' ? o.token : o.token.toLowerCase(), manager: chain === 'Solana' ? o.manager : o.manager.toLowerCase(), wormhole: chain === 'Solana' ? o.transceiver.wormhole : o.transceiver.wormhole.toLowerCase() });
  L.push({ name: 'configuration', bound: 'all tokens, chains and pairs of four configurations (addresses shared between chains and tokens, any letter case)', async run(c) {
    for (const cfg of plans()) for (const [n, K] of routesOf(cfg)) {
      const net = new Net(m, cfg), all = Object.values(cfg.tokens).flat(), cmp = (what, got, want) => { c.st.states++; c.count(true); const a = [...got].map(x => typeof x === 'string' ? x : text(x)).sort(), b = [...want].map(x => typeof x === 'string' ? x : text(x)).sort(); if (flat(a) !== flat(b)) c.bad(`${n} route: ${what} is ${flat(a)}, expected ${flat(b)}`); };
      cmp('supportedNetworks', K.supportedNetworks(), ['Mainnet', 'Testnet']); cmp('supportedChains', new Set(K.supportedChains('Testnet')), new Set(all.map(t => t.chain)));
      for (const f of Object.keys(ND)) {
        cmp(`supportedSourceTokens ${f}`, await K.supportedSourceTokens(net.ctx[f]), all.filter(t => t.chain === f).map(tid));
        for (const t of Object.keys(ND)) for (const s of all) cmp(`supportedDestinationTokens ${s.chain}:${s.token} ${f} ${t}`, await K.supportedDestinationTokens(tid(s), net.ctx[f], net.ctx[t]), f !== s.chain ? Object.values(cfg.tokens).filter(l => l.some(x => x.chain === f && same(f, x.token, C.canonicalAddress(tid(s))))).flatMap(l => l.filter(x => x.chain === t).map(tid)) : Object.values(cfg.tokens).find(l => l.includes(s)).filter(x => x.chain === t).map(tid));
        cmp(`isProtocolSupported ${f}`, [String(K.isProtocolSupported(net.ctx[f]))], ['true']); if (K.isProtocolSupported({ ...net.ctx[f], supportsProtocol: () => false })) c.bad(`${n} route: isProtocolSupported ignores the chain`);
      }
      const r = new K(net), o = r.getDefaultOptions(); c.count(true); if (o.automatic !== (n === 'automatic') || !/^(0(\.0*)?)?$/.test(o.gasDropoff ?? '')) c.bad(`${n} route: default options ${flat(o)}`);
      for (const s of all) { c.count(true); const got = R.NttRoute.resolveNttContracts(cfg, tid(s)); if (lc(s.chain, got) !== lc(s.chain, contractsOf(s)) || got.quoter !== s.quoter) c.bad(`contracts of ${s.chain}:${s.token} are ${flat(got)}`);
        for (const d of Object.keys(ND)) { const l = Object.values(cfg.tokens).find(x => x.includes(s)), w = l.find(x => x.chain === d), g = await attempt(async () => R.NttRoute.resolveDestinationNttContracts(cfg, { chain: s.chain, address: C.Wormhole.parseAddress(s.chain, s.manager) }, d)); c.count(g.ok); if (g.ok !== !!w || (w && lc(d, g.v) !== lc(d, contractsOf(w)))) c.bad(`destination contracts of ${s.chain}:${s.manager} on ${d} are ${flat(g.v)}, expected ${flat(w && contractsOf(w))}`); } }
      for (const [ch, a] of [['Ethereum', '0x' + '99'.repeat(20)], ['Polygon', all.find(t => t.chain === 'Ethereum').token]]) if ((await attempt(async () => R.NttRoute.resolveNttContracts(cfg, C.Wormhole.tokenId(ch, a)))).ok) c.bad(`an unknown token on ${ch} has contracts`); c.sample(`${n}: ${all.length} deployments`); if (c.full()) return;
    }
  } });
  const decs = q ? [[18, 18], [18, 9], [9, 18], [6, 8], [8, 6], [18, 6], [5, 2], [0, 18]] : [0, 2, 5, 6, 7, 8, 9, 10, 18].flatMap(a => [0, 2, 6, 8, 9, 18].map(b => [a, b]));
  L.push({ name: 'requests', bound: 'pairs of tokens × decimals × amounts × drop-offs × capacities × durations × relaying × default options (full product)', async run(c) {
    const P = plans(); for (const cfg of q ? [P[0], P[3]] : P) for (const [n, K] of routesOf(cfg)) for (const l of Object.values(cfg.tokens)) for (const s of l) for (const d of l) if (s !== d) for (const [sd, dd] of decs) {
      const net = new Net(m, cfg), route = new K(net), auto = n === 'automatic', unit = E(sd), p = Math.min(sd, dd, 8), cut = E(sd - p); const request = { source: { id: tid(s), decimals: sd }, destination: { id: tid(d), decimals: dd }, fromChain: net.ctx[s.chain], toChain: net.ctx[d.chain] };
      const amts = [...new Set([1n, cut - 1n, cut, cut + 1n, unit, 12n * unit + 345n, unit * 123456789n + cut * 7n + cut / 2n, E(30)].filter(a => a > 0n))], show = (a, k) => { const t = a.toString().padStart(k + 1, '0'); return k ? `${t.slice(0, -k)}.${t.slice(-k)}` : t; };
      for (const amt of amts) for (const drop of [undefined, '0.0', '0.5', '2.000000001']) {
        c.st.states++; const options = drop === undefined ? undefined : { automatic: auto, gasDropoff: drop }, where = `${n} ${s.chain}→${d.chain} ${sd}/${dd} decimals, ${amt} units, drop-off ${drop}`; const wantDrop = drop === '0.5' ? E(ND[d.chain]) / 2n : drop === '2.000000001' ? 2n * E(ND[d.chain]) + E(ND[d.chain] - 9) : 0n, want = amt / cut * cut, arrives = want * E(dd) / unit;
        const v = await attempt(() => route.validate(request, { amount: show(amt, sd), ...(options && { options }) })); c.count(v.ok); if (!v.ok || !v.v.valid) { c.bad(`${where}: not valid (${v.e?.message})`); return; } const np = v.v.params.normalizedParams;
        if (C.amount.units(np.amount) !== want || np.amount.decimals !== sd) c.bad(`${where}: the amount becomes ${flat(np.amount)}, expected ${want} units`); if (np.options.queue !== false || np.options.automatic !== auto || np.options.gasDropoff !== wantDrop) c.bad(`${where}: options ${flat(np.options)}, expected drop-off ${wantDrop}`);
        if (lc(s.chain, np.sourceContracts) !== lc(s.chain, contractsOf(s)) || np.sourceContracts.quoter !== s.quoter || lc(d.chain, np.destinationContracts) !== lc(d.chain, contractsOf(d))) c.bad(`${where}: contracts ${flat([np.sourceContracts, np.destinationContracts])}`);
        const edge = (arrives * 100n + 94n) / 95n; // the smallest capacity that draws no warning
        for (const [dur, cap] of [[86400n, 0n], [86400n, edge - 1n], [86400n, edge], [86400n, arrives * 2n], [100n, 0n], [0n, 0n]]) { if (cap < 0n) continue;
          for (const relay of auto ? [true, false] : [true]) { net.dur = x => x === d ? dur : 7n; net.cap = (x, ch) => x === d && ch === s.chain ? cap : x === d ? cap + 10n ** 40n : 0n; net.relay = (x, ch) => (x === s && ch === d.chain) === relay; net.price = (x, ch, o) => x === s && ch === d.chain ? 1000n + (o.gasDropoff ?? 0n) + (o.automatic ? 5n : 0n) : 1n;
            if (auto) { const a = await attempt(() => route.isAvailable(request)); c.count(true); if (!a.ok || a.v !== relay) c.bad(`${where}: isAvailable is ${a.v}`); }
            const g = await attempt(() => route.quote(request, v.v.params)); c.count(g.ok); if (!g.ok) { c.bad(`${where}: no quote (${g.e.message})`); continue; } const Q = g.v; if (Q.success !== relay) { c.bad(`${where}: quoted although relaying is ${relay ? '' : 'not '}available: ${flat(Q)}`); continue; } if (!relay) continue;
            const warn = dur > 0n && arrives > cap * 95n / 100n; if (C.amount.units(Q.sourceToken.amount) * E(sd) !== want * E(Q.sourceToken.amount.decimals) || text(Q.sourceToken.token) !== text(tid(s))) c.bad(`${where}: quoted source ${flat(Q.sourceToken)}`); if (C.amount.units(Q.destinationToken.amount) !== arrives || Q.destinationToken.amount.decimals !== dd || text(Q.destinationToken.token) !== text(tid(d))) c.bad(`${where}: quoted destination ${flat(Q.destinationToken)}, expected ${arrives}`);
            if (warn ? Q.warnings?.length !== 1 || Q.warnings[0].type !== 'DestinationCapacityWarning' || Q.warnings[0].delayDurationSec !== Number(dur) : Q.warnings?.length) c.bad(`${where}: warnings ${flat(Q.warnings)} with a capacity of ${cap} and duration ${dur} for ${arrives}`);
            if (auto && (Q.relayFee.token.chain !== s.chain || Q.relayFee.token.address !== 'native' || C.amount.units(Q.relayFee.amount) !== 1005n + wantDrop || Q.relayFee.amount.decimals !== ND[s.chain])) c.bad(`${where}: relay fee ${flat(Q.relayFee)}`); if (auto && (C.amount.units(Q.destinationNativeGas) !== wantDrop || Q.destinationNativeGas.decimals !== ND[d.chain])) c.bad(`${where}: destination gas ${flat(Q.destinationNativeGas)}`); if (flat(Q.params) !== flat(v.v.params)) c.bad(`${where}: the quote changes the parameters`); if (c.full()) return;
            if (dur !== 86400n || cap !== 0n) continue; const me = s.chain === 'Solana' ? B.encoding.b58.encode(new Uint8Array(32).fill(77)) : '0x' + '77'.repeat(20), to = { chain: d.chain, address: C.Wormhole.parseAddress(d.chain, d.chain === 'Solana' ? B.encoding.b58.encode(new Uint8Array(32).fill(78)) : '0x' + '78'.repeat(20)) };
            for (const two of [false, true]) { net.approve = two; net.log = []; net.nth = 0; const i = await attempt(() => route.initiate(request, signer(s.chain, me), Q, to)); c.count(i.ok); if (!i.ok) { c.bad(`${where}: initiate fails (${i.e.message})`); continue; } const at = k => `${s.chain}/${s.manager.toLowerCase()}/${k}`;
              const wl = flat([...(two ? [[at('approve')]] : []), [at('transfer'), C.Wormhole.parseAddress(s.chain, me), want, to, { queue: false, automatic: auto, gasDropoff: wantDrop }]]); const gl = net.log.map(x => x[0].endsWith('/transfer') ? [x[0], x[1], x[2], x[3], { queue: x[4].queue, automatic: !!x[4].automatic, gasDropoff: x[4].gasDropoff ?? 0n }] : x); if (flat(gl) !== wl) c.bad(`${where}: initiate submits ${flat(gl)}, expected ${wl}`);
              const r = i.v; if (r.from !== s.chain || r.to !== d.chain || r.state !== T.SourceInitiated || flat(r.originTxs) !== flat((two ? ['tx1', 'tx2'] : ['tx1']).map(txid => ({ chain: s.chain, txid }))) || flat(r.params) !== flat(v.v.params)) c.bad(`${where}: receipt ${flat(r)}`); if (c.full()) return; }
          } }
      }
    }
    c.sample('validate, quote and initiate of every request');
  } });
  L.push({ name: 'life of a transfer', bound: 'every reachable state of one transfer (closure), every call in it; every pair of chains, both routes, four outcomes of a delivery', async run(c) {
    const P = plans(); for (const cfg of q ? [P[0], P[3]] : P) for (const [n, K] of routesOf(cfg)) for (const l of Object.values(cfg.tokens)) for (const s of l) for (const d of l) if (s !== d) for (const outcome of ['done', 'queue', 'later', 'vote']) for (const txs of [1, 2]) {
      const net = new Net(m, cfg), route = new K(net), auto = n === 'automatic', evm2 = s.chain !== 'Solana' && d.chain !== 'Solana', p = parts(m, s, d), vaa = auto && evm2 ? p.relayed : p.plain, originTxs = Array.from({ length: txs }, (_, i) => ({ chain: s.chain, txid: `origin${i}` })); net.vaas.set(`origin${txs - 1}`, vaa);
      const params = { amount: '1.5', options: { automatic: auto }, normalizedParams: { amount: { amount: '1500', decimals: 3 }, options: { queue: false, automatic: auto, gasDropoff: 0n }, sourceContracts: contractsOf(s), destinationContracts: contractsOf(d) } };
      const env0 = { dst: d, vaa, outcome, signed: false, approved: false, executed: false, queued: null, expired: false }, where0 = `${n} ${s.chain}→${d.chain} (${outcome})`; const me = d.chain === 'Solana' ? B.encoding.b58.encode(new Uint8Array(32).fill(77)) : '0x' + '77'.repeat(20), sg = signer(d.chain, me), at = k => `${d.chain}/${d.manager.toLowerCase()}/${k}`;
      const id = { chain: vaa.emitterChain, emitter: vaa.emitterAddress, sequence: vaa.sequence }, key = (e, r) => flat([e.signed, e.approved, e.executed, e.queued, e.expired, r.state, r.destinationTxs?.length, r.queueReleaseTime?.getTime(), !!r.attestation]);
      const start = state => ({ from: s.chain, to: d.chain, state, originTxs, params }); const todo = [[env0, start(T.SourceInitiated), []], [env0, start(T.SourceFinalized), []]], seen = new Set(todo.map(([e, r]) => key(e, r)));
      while (todo.length) {
        const [e, r, tr] = todo.pop(); c.st.states++; if (c.full()) return; const where = `${where0} after [${tr.join(', ')}]`; const push = (e2, r2, t) => { const k = key(e2, r2); if (!seen.has(k)) { seen.add(k); todo.push([e2, r2, [...tr, t]]); } };
        const env = (t, f) => { const x = { ...e }; net.env = x; f(x); push(x, r, t); }; if (!e.signed) env('signed', x => { x.signed = true; }); else if (!e.approved) env('delivered', () => net.deliver()); if (e.approved && !e.executed) env('executed', x => { x.executed = true; }); if (e.queued !== null && !e.expired) env('expired', x => { x.expired = true; }); if (e.queued !== null && e.expired) env('released', x => { x.queued = null; });
        const call = async f => { const x = { ...e }; net.env = x; net.log = []; net.nth = (r.destinationTxs?.length ?? 0); const g = await attempt(f); c.count(g.ok); return [g, x]; }, sub = () => flat(net.log.filter(x => x[0] !== 'getVaa')), tx = k => ({ chain: d.chain, txid: `tx${k}` });
        const eq = (what, got, want) => { const f = z => flat({ ...z, queueReleaseTime: z.state === T.DestinationQueued ? z.queueReleaseTime?.getTime() : undefined, attestation: z.attestation && [z.attestation.id, z.attestation.attestation === vaa], destinationTxs: z.destinationTxs ?? [], params: z.params === r.params ? 0 : flat(z.params) === flat(r.params) ? 0 : z.params, originTxs: z.originTxs, from: z.from, to: z.to, state: T[z.state] }).split('').join(''); const o = z => { const j = JSON.parse(f(z)); return flat(Object.fromEntries(Object.entries(j).sort(([a], [b]) => a < b ? -1 : 1))); }; if (o(got) !== o(want)) c.bad(`${where}: ${what} gives ${o(got)}, expected ${o(want)}`); };
        { // track
          const out = []; const [g, x] = await call(async () => { for await (const y of route.track({ ...r }, 4321)) out.push(y); }); const pre = r.state === T.SourceInitiated || r.state === T.SourceFinalized; let w = { ...r }, steps = [r.state];
          if (pre && !e.signed) { if (g.ok) c.bad(`${where}: track reports ${flat(out.map(y => T[y.state]))} for an unsigned message`); }
          else if (!g.ok) c.bad(`${where}: track fails (${g.e.message})`);
          else { const to = (st, o = {}) => { w = { ...w, state: st, ...o }; steps.push(st); }; if (pre) to(T.Attested, { attestation: { id, attestation: vaa } }); if (w.state === T.Attested && e.approved) to(T.DestinationInitiated); if (w.state === T.DestinationInitiated || w.state === T.DestinationQueued) { if (e.queued !== null) to(T.DestinationQueued, { queueReleaseTime: new Date(e.queued * 1000) }); else if (e.executed) to(T.DestinationFinalized); }
            if (!out.length) c.bad(`${where}: track reports nothing`); else { eq('track', out[out.length - 1], w); for (const y of out) if (!steps.includes(y.state)) c.bad(`${where}: track passes through ${T[y.state]}`); for (let i = 1; i < out.length; i++) if (out[i].state < out[i - 1].state) c.bad(`${where}: track goes back`); for (const y of out) if (y.state >= T.Attested && y.attestation?.attestation !== vaa) c.bad(`${where}: track reports a stage without the attestation`); for (const y of out) push(x, y, 'track'); }
            for (const z of net.log) if (z[0] === 'getVaa' && (z[1] !== `origin${txs - 1}` || z[2] !== 4321)) c.bad(`${where}: track asks for ${flat(z)}`); }
          if (sub() !== '[]') c.bad(`${where}: track submits ${sub()}`);
        }
        if (!auto) { // complete
          const [g, x] = await call(() => route.complete(sg, { ...r })), ready = r.state === T.Attested, good = ready && !e.approved || r.state === T.DestinationInitiated; if (g.ok !== good) c.bad(`${where}: complete of a receipt ${T[r.state]} ${g.ok ? 'succeeds' : `fails (${g.e.message})`}`); else if (good) { eq('complete', g.v, ready ? { ...r, state: T.DestinationInitiated, destinationTxs: [tx(1)] } : r); push(x, g.v, 'complete'); }
          const w = ready ? flat([[at('redeem'), 1, C.Wormhole.parseAddress(d.chain, me)]]) : '[]'; if (sub() !== w) c.bad(`${where}: complete submits ${sub()}, expected ${w}`);
        }
        { // finalize
          const [g, x] = await call(() => route.finalize(sg, { ...r })), ready = r.state === T.DestinationQueued, good = ready && e.queued !== null && e.expired; if (g.ok !== good) c.bad(`${where}: finalize of a receipt ${T[r.state]} ${g.ok ? 'succeeds' : `fails (${g.e.message})`}`); else if (good) { eq('finalize', g.v, { ...r, state: T.DestinationFinalized, destinationTxs: [...(r.destinationTxs ?? []), tx((r.destinationTxs?.length ?? 0) + 1)] }); push(x, g.v, 'finalize'); }
          const w = ready ? flat([[at('complete'), C.Wormhole.parseAddress(d.chain, me)]]) : '[]'; if (sub() !== w) c.bad(`${where}: finalize submits ${sub()}, expected ${w}`);
        }
        if (!auto || evm2) { // resume
          const t = originTxs[txs - 1], [g] = await call(() => route.resume(t)); if (g.ok !== e.signed) c.bad(`${where}: resume ${g.ok ? 'succeeds' : `fails (${g.e.message})`}`);
          else if (g.ok) { const y = g.v, np = y.params.normalizedParams; if (y.from !== s.chain || y.to !== d.chain || y.state !== T.Attested || flat(y.originTxs) !== flat([t]) || flat(y.attestation.id) !== flat(id) || y.attestation.attestation !== vaa) c.bad(`${where}: resume gives ${flat({ ...y, attestation: y.attestation.id })}`);
            if (lc(s.chain, np.sourceContracts) !== lc(s.chain, contractsOf(s)) || lc(d.chain, np.destinationContracts) !== lc(d.chain, contractsOf(d))) c.bad(`${where}: resume finds the contracts ${flat([np.sourceContracts, np.destinationContracts])}`); if (C.amount.units(np.amount) * E(p.dec) !== p.amt * E(np.amount.decimals) || np.options.queue || !!np.options.automatic !== auto || y.params.options.automatic !== auto) c.bad(`${where}: resume gives ${flat(y.params)}`); const back = C.amount.parse(y.params.amount, 20); if (BigInt(back.amount) * E(p.dec) !== p.amt * E(20)) c.bad(`${where}: resume shows the amount ${y.params.amount}`);
            const out = []; const [h] = await call(async () => { for await (const z of route.track(y)) out.push(z); }); const last = out[out.length - 1], want = !e.approved ? T.Attested : e.queued !== null ? T.DestinationQueued : e.executed ? T.DestinationFinalized : T.DestinationInitiated; if (!h.ok || last?.state !== want) c.bad(`${where}: after resume, track reports ${h.ok ? T[last?.state] : h.e.message}, expected ${T[want]}`); }
        }
      }
      const other = new Net(m, cfg); other.env = env0; if ((await attempt(() => new K(other).resume({ chain: s.chain, txid: 'nothing' }))).ok) c.bad(`${where0}: resume of an unknown transaction succeeds`); c.sample(`${where0}: ${seen.size} states`);
    }
  } });
  return L.map(x => ({ ...x, async run(c) { try { await x.run(c); } catch (e) { if (missing(e)) throw e; c.bad(`an exception: ${e.message}`); } } }));
}
