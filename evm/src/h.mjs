// Harness: deployments of the repository's contracts in the world of rt.mjs, with mocked counterparts.
import path from 'path';
import { fileURLToPath } from 'url';
import { Project } from './comp.mjs';
import * as R from './rt.mjs';
export const HERE = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const SRC = (process.env.NTT_REPO || '/repo') + '/evm/src/';
export const U64 = (1n << 64n) - 1n;

const FILES = {
  NttManager: 'NttManager/NttManager.sol', NttManagerNoRateLimiting: 'NttManager/NttManagerNoRateLimiting.sol',
  WormholeTransceiver: 'Transceiver/WormholeTransceiver/WormholeTransceiver.sol', Governance: 'wormhole/Governance.sol',
  ITransceiver: 'interfaces/ITransceiver.sol', ISpecialRelayer: 'interfaces/ISpecialRelayer.sol', TransceiverStructs: 'libraries/TransceiverStructs.sol', INttManager: 'interfaces/INttManager.sol', IOwnableUpgradeable: 'interfaces/IOwnableUpgradeable.sol',
};
export class Kit {
  constructor() {
    const L = path.join(HERE, 'lib');
    this.P = new Project([['openzeppelin-contracts/', L + '/openzeppelin-contracts'], ['wormhole-solidity-sdk/', L + '/wormhole-solidity-sdk'], ['repo/', SRC]]);
    this.c = new Map();
  }
  con(name) {
    let c = this.c.get(name); if (c) return c;
    const L = path.join(HERE, 'lib/wormhole-solidity-sdk/interfaces/');
    const f = FILES[name] ? SRC + FILES[name] : name.startsWith('IWormhole') ? L + (name === 'IWormhole' ? 'IWormhole.sol' : 'IWormholeRelayer.sol') : path.join(HERE, 'harness', name + '.sol');
    c = this.P.contract(name, f); this.c.set(name, c); return c;
  }
}

// a native contract: handlers by function name of an interface, called with (ctx, ...decoded arguments)
export function native(con, handlers, fallback) {
  return ctx => {
    const e = ctx.data.length >= 4 ? con.ext.get(R.b2n(ctx.data.subarray(0, 4))) : null;
    const h = e && handlers[e.f.name];
    if (!h) { if (fallback) return fallback(ctx); throw new R.Revert(new Uint8Array(0), 'mock: no such function'); }
    const r = h(ctx, ...R.decTuple(e.p, ctx.data, 4));
    return R.encTuple(e.r, e.r.length === 0 ? [] : e.r.length === 1 ? [r] : r);
  };
}
const sset = (ctx, k, v) => R.rawPut({ W: ctx.W, a: ctx.a, stat: ctx.stat }, k, v);
const sget = (a, k) => a.st.get(k) ?? 0n;

// ---- ERC20 with options: {decimals, fee (basis points kept from every transfer), noret, minter (address or null: locking token), hook(W,from,to)}
const SELS = {}; const sel = s => SELS[s] ?? (SELS[s] = R.selector(s));
const A = { k: 'address' }, U = { k: 'uint', bits: 256 }, B = { k: 'bool' }, U8 = { k: 'uint', bits: 8 };
export const SUPPLY = 1n << 250n;
export class Token {
  constructor(W, addr, o) {
    this.W = W; this.addr = addr; this.o = { fee: 0n, noret: false, minter: null, ...o }; this.a = W.account(addr); this.a.name = 'token'; this.unapproved = new Set();
    this.a.native = ctx => this.run(ctx);
  }
  bal(x) { return sget(this.a, x); }
  supply() { return sget(this.a, SUPPLY); }
  // {strict}: allowances as in ERC20; otherwise everybody but `unapproved` has approved everything
  aslot(o, s) { return R.keccak(R.cat(R.n2b(o, 32), R.n2b(s, 32))); }
  allowance(o, s) { return sget(this.a, this.aslot(o, s)); }
  give(x, v) { this.W.set(this.a.st, x, this.bal(x) + v); this.W.set(this.a.st, SUPPLY, this.supply() + v); }
  move(ctx, from, to, v) {
    const no = m => { throw new R.Revert(new Uint8Array(0), m); };
    if (to === 0n || from === 0n) no('erc20: zero address'); if (this.bal(from) < v) no('erc20: balance');
    const fee = v * this.o.fee / 10000n; sset(ctx, from, this.bal(from) - v); sset(ctx, to, this.bal(to) + v - fee); if (fee) sset(ctx, SUPPLY, this.supply() - fee);
    if (this.o.hook) this.o.hook(ctx, from, to, v);
  }
  run(ctx) {
    const s = ctx.data.length >= 4 ? R.b2n(ctx.data.subarray(0, 4)) : -1n; const d = (...ts) => R.decTuple(ts, ctx.data, 4); const no = m => { throw new R.Revert(new Uint8Array(0), m); };
    if (ctx.value) no('erc20: not payable');
    const ok = () => this.o.noret ? new Uint8Array(0) : R.encTuple([B], [true]);
    switch (s) {
      case sel('decimals()'): return R.encTuple([U8], [BigInt(this.o.decimals)]);
      case sel('balanceOf(address)'): return R.encTuple([U], [this.bal(d(A)[0])]);
      case sel('totalSupply()'): return R.encTuple([U], [this.supply()]);
      case sel('transfer(address,uint256)'): { const [to, v] = d(A, U); this.move(ctx, ctx.sender, to, v); return ok(); }
      case sel('transferFrom(address,address,uint256)'): { const [from, to, v] = d(A, A, U); if (this.unapproved.has(from)) no('erc20: allowance'); if (this.o.strict) { const k = this.aslot(from, ctx.sender), al = sget(this.a, k); if (al < v) no('erc20: allowance'); sset(ctx, k, al - v); } this.move(ctx, from, to, v); return ok(); }
      case sel('approve(address,uint256)'): if (this.o.strict) { const [sp, v] = d(A, U); sset(ctx, this.aslot(ctx.sender, sp), v); } return ok();
      case sel('allowance(address,address)'): { if (!this.o.strict) no('erc20: no such function'); const [o, sp] = d(A, A); return R.encTuple([U], [this.allowance(o, sp)]); }
      case sel('mint(address,uint256)'): { const [to, v] = d(A, U); if (this.o.minter === null || ctx.sender !== this.o.minter) no('erc20: not the minter'); if (to === 0n) no('erc20: zero address'); sset(ctx, to, this.bal(to) + v); sset(ctx, SUPPLY, this.supply() + v); if (this.o.hook) this.o.hook(ctx, 0n, to, v); return new Uint8Array(0); }
      case sel('burn(uint256)'): { const [v] = d(U); if (this.o.minter === null) no('erc20: not burnable'); if (this.bal(ctx.sender) < v) no('erc20: balance'); sset(ctx, ctx.sender, this.bal(ctx.sender) - v); sset(ctx, SUPPLY, this.supply() - v); return new Uint8Array(0); }
    }
    no('erc20: no such function');
  }
}

// ---- wormhole core: a VAA is signatures(1: 0 invalid, 1 or 2 two sufficient sets of signatures) chain(2) emitter(32) seq(8) payload; the hash excludes the signatures
export const vaa = (chain, emitter, seq, payload, valid = true) => R.cat(R.n2b(BigInt(Number(valid)), 1), R.n2b(chain, 2), R.n2b(emitter, 32), R.n2b(seq, 8), payload);
export const vaaHash = v => R.keccak(v.subarray(1));
export class Core {
  constructor(K, W, addr, o) {
    this.W = W; this.addr = addr; this.o = o; this.sent = []; this.a = W.account(addr); this.a.name = 'wormhole';
    this.a.native = native(K.con('IWormhole'), {
      publishMessage: (x, nonce, payload, cl) => { if (x.value !== this.o.fee) throw new R.Revert(new Uint8Array(0), 'core: fee'); const q = sget(x.a, x.sender); sset(x, x.sender, q + 1n); x.W.push(this.sent, { emitter: x.sender, seq: q, nonce, payload, cl, value: x.value }); return q; },
      messageFee: () => this.o.fee, chainId: () => this.o.chainId, governanceChainId: () => this.o.govChain ?? 1n, governanceContract: () => this.o.govContract ?? 4n,
      parseAndVerifyVM: (x, e) => {
        if (e.length < 43) throw new R.Revert(new Uint8Array(0), 'core: parse');
        const vm = { version: 1n, timestamp: 1n, nonce: 0n, emitterChainId: R.b2n(e.subarray(1, 3)), emitterAddress: R.b2n(e.subarray(3, 35)), sequence: R.b2n(e.subarray(35, 43)), consistencyLevel: 1n, payload: e.slice(43), guardianSetIndex: BigInt(e[0]), signatures: [], hash: vaaHash(e) };
        return [vm, e[0] >= 1, R.str(e[0] >= 1 ? '' : 'VM signature invalid')];
      },
    });
  }
}
export class Relayer {
  constructor(K, W, addr, o) {
    this.W = W; this.addr = addr; this.o = o; this.sent = []; this.a = W.account(addr); this.a.name = 'relayer';
    this.a.native = native(K.con('IWormholeRelayer'), {
      sendToEvm: (x, ...args) => { if (x.value !== this.price(args[0], args[5])) throw new R.Revert(new Uint8Array(0), 'relayer: price'); x.W.push(this.sent, { value: x.value, args }); return 7n; },
      quoteEVMDeliveryPrice: (x, chain, rv, gas) => { if (rv !== 0n) throw new R.Revert(new Uint8Array(0), 'relayer: value'); return [this.price(chain, gas), 1n]; },
      getDefaultDeliveryProvider: () => this.o.provider,
    });
  }
  price(chain, gas) { return this.o.base + chain * 3n + gas; }
}
export class Special {
  constructor(K, W, addr, o) {
    this.W = W; this.addr = addr; this.o = o; this.sent = []; this.a = W.account(addr); this.a.name = 'special relayer';
    this.a.native = native(K.con('ISpecialRelayer'), {
      quoteDeliveryPrice: (x, token, chain, extra) => this.price(chain) + extra,
      requestDelivery: (x, token, chain, extra, seq) => { if (x.value !== this.price(chain) + extra) throw new R.Revert(new Uint8Array(0), 'special: price'); x.W.push(this.sent, { value: x.value, token, chain, extra, seq, sender: x.sender }); },
    });
  }
  price(chain) { return this.o.base + chain * 5n; }
}
// ---- a transceiver stand-in: records what it is given
export class Mock {
  constructor(K, W, addr, o = {}) {
    this.W = W; this.addr = addr; this.price = o.price ?? 0n; this.sent = []; this.owners = []; this.a = W.account(addr); this.a.name = o.name || 'transceiver'; this.hook = null; this.perByte = o.perByte ?? 0n;
    this.a.native = native(K.con('ITransceiver'), {
      quoteDeliveryPrice: (x, chain, ins) => this.quote(chain, ins),
      sendMessage: (x, chain, ins, msg, peer, refund) => { x.W.push(this.sent, { from: x.sender, value: x.value, chain, index: ins.index, ins: R.hex(ins.payload), msg: R.hex(msg), peer, refund }); if (this.hook) this.hook(); },
      transferTransceiverOwnership: (x, o) => { x.W.push(this.owners, o); }, getTransceiverType: () => R.str('mock'),
    });
  }
  quote(chain, ins) { return this.price + this.perByte * BigInt(ins.payload.length); }
}

// ---- instances
export class Inst {
  constructor(K, W, con, addr) { this.K = K; this.W = W; this.con = con; this.addr = addr; }
  entry(name, n) { const l = (this.con.byName.get(name) || []).filter(e => n === undefined || e.p.length === n); if (!l.length) throw new R.Unsupported(`${this.con.name} has no function ${name}`); return l[0]; }
  data(name, args) { const e = this.entry(name, args.length); return R.cat(R.n2b(this.K.P.selectorOf(e.f), 4), R.encTuple(e.p, args)); }
  raw(from, data, value = 0n) {
    this.W.tx = (this.W.tx || 0) + 1; this.W.origin = from;
    try { return { ok: true, ret: this.W.call(from, this.addr, value, data) }; } catch (e) { if (!(e instanceof R.Revert)) throw e; return { ok: false, err: this.why(e) }; }
  }
  tx(from, name, args = [], value = 0n) {
    const e = this.entry(name, args.length); const r = this.raw(from, this.data(name, args), value); if (r.ok) { const v = R.decTuple(e.r, r.ret); r.ret = v.length === 1 ? v[0] : v; } return r;
  }
  view(name, ...args) { const m = this.W.mark(); const r = this.tx(0xfefen, name, args); this.W.undo(m); return r.ok ? r.ret : undefined; }
  why(e) { const d = e.data; if (d && d.length >= 4) { const s = R.b2n(d.subarray(0, 4)); const n = this.errors().get(s); if (n) return n; } return e.what || 'revert'; }
  errors() { if (this.con._errs) return this.con._errs; const m = new Map(); for (const f of this.K.P.files.values()) for (const it of f.items) { const l = it.type === 'ErrorDef' ? [it] : it.type === 'Contract' ? it.parts.filter(p => p.type === 'ErrorDef') : []; for (const d of l) try { m.set(this.K.P.selectorOf(d), d.name); } catch { } } return this.con._errs = m; }
}
// deploys an implementation and an ERC1967 proxy in front of it (not initialized)
export function deployProxy(K, W, name, from, args, addr) {
  const con = K.con(name); const impl = con.deploy(W, from, args); const p = addr ?? W.fresh(); const a = W.account(p); W.set(a, 'proxy', true); W.set(a, 'name', name); W.set(a.st, R.IMPL_SLOT, impl);
  const i = new Inst(K, W, con, p); i.impl = impl; return i;
}
export function must(r, what) { if (!r.ok) throw new Error(`setup: ${what}: ${r.err}`); return r.ret; }
// complete dump of the world (storage, balances, time) as a state key
export function stateKey(W, lists = []) {
  const parts = [W.time, W.next];
  const accs = [...W.acc.values()].sort((a, b) => (a.addr < b.addr ? -1 : 1));
  for (const a of accs) { if (!a.st.size && !a.bal) continue; parts.push('#', a.addr.toString(36), a.bal.toString(36)); const ks = [...a.st.keys()].sort((x, y) => (x < y ? -1 : x > y ? 1 : 0)); for (const k of ks) parts.push(k.toString(36), a.st.get(k).toString(36)); }
  return R.keccak(R.str(parts.join(' '))).toString(36).slice(0, 24);
}
