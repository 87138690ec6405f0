// Stand-in for ethers 6: contracts driven by their ABI. Calls go to runner.call({to, data}).
import * as R from './rt.mjs';
import { EvmAddress } from './sdk-definitions.mjs';
const split = s => { const r = []; let d = 0, c = ''; for (const x of s) { if (x === '(') d++; if (x === ')') d--; if (x === ',' && !d) { r.push(c); c = ''; } else c += x; } if (c.trim()) r.push(c); return r; };
const frag = s => { const m = /^function\s+(\w+)\s*\(([^)]*)\)([^(]*?)(?:returns\s*\((.*)\))?\s*$/.exec(s); if (!m) throw new Error(`unsupported fragment ${s}`); const ps = l => split(l || '').map(p => { const w = p.trim().split(/\s+/); return { type: w[0].replace(/^u?int$/, x => x + '256'), name: w.length > 1 ? w[w.length - 1] : '' }; }); return { type: 'function', name: m[1], inputs: ps(m[2]), outputs: ps(m[4]), stateMutability: (/\b(view|pure|payable)\b/.exec(m[3]) ?? [, 'nonpayable'])[1] }; };
const ty = p => {
  const a = /^(.*)\[(\d*)\]$/.exec(p.type); if (a) return { k: 'array', base: ty({ ...p, type: a[1] }), len: a[2] === '' ? null : BigInt(a[2]) };
  if (p.type === 'tuple') return { k: 'struct', name: '', fields: p.components.map((c, i) => ({ name: c.name || String(i), t: ty(c) })) };
  let m; if ((m = /^(u?int)(\d*)$/.exec(p.type))) return { k: m[1], bits: Number(m[2] || 256) }; if ((m = /^bytes(\d+)$/.exec(p.type))) return { k: 'fbytes', n: Number(m[1]) };
  if (['address', 'bool', 'bytes', 'string'].includes(p.type)) return { k: p.type }; throw new Error(`unsupported type ${p.type}`);
};
const invalid = (t, v) => { throw Object.assign(new Error(`invalid argument for ${R.canon(t)}: ${v}`), { code: 'INVALID_ARGUMENT' }); };
const bytesOf = (t, v) => v instanceof Uint8Array ? v : typeof v === 'string' && /^0x([0-9a-f]{2})*$/i.test(v) ? R.unhex(v) : invalid(t, v);
function inp(t, v) {
  switch (t.k) {
    case 'uint': case 'int': { let x; if (typeof v === 'number' && !Number.isSafeInteger(v)) invalid(t, v); try { x = typeof v === 'boolean' || v === null ? invalid(t, v) : BigInt(v); } catch { invalid(t, v); } if (t.k === 'uint' ? x < 0n || x >> BigInt(t.bits) : x < -(1n << BigInt(t.bits - 1)) || x >> BigInt(t.bits - 1)) invalid(t, v); return x; }
    case 'bool': return !!v;
    case 'address': { if (typeof v !== 'string' || !/^(0x)?[0-9a-f]{40}$/i.test(v)) invalid(t, v); return BigInt('0x' + v.replace(/^0x/, '')); }
    case 'fbytes': { const b = bytesOf(t, v); if (b.length !== t.n) invalid(t, v); return R.b2n(b); }
    case 'bytes': return bytesOf(t, v); case 'string': return new TextEncoder().encode(v);
    case 'array': if (!Array.isArray(v) || (t.len !== null && BigInt(v.length) !== t.len)) invalid(t, v); return v.map(x => inp(t.base, x));
    case 'struct': return Object.fromEntries(t.fields.map((f, i) => [f.name, inp(f.t, Array.isArray(v) ? v[i] : v[f.name])]));
  }
}
const result = (names, vals) => { const r = [...vals]; names.forEach((n, i) => { if (n && !(n in r)) Object.defineProperty(r, n, { value: vals[i], enumerable: false }); }); r.toArray = () => [...vals]; r.toObject = () => Object.fromEntries(names.map((n, i) => [n, vals[i]])); return r; };
function out(t, v) {
  switch (t.k) {
    case 'address': return new EvmAddress(R.n2b(v, 20)).toString(); case 'fbytes': return '0x' + R.hex(R.n2b(v, t.n)); case 'bytes': return '0x' + R.hex(v); case 'string': return new TextDecoder().decode(v);
    case 'array': return result([], v.map(x => out(t.base, x))); case 'struct': return result(t.fields.map(f => f.name), t.fields.map(f => out(f.t, v[f.name])));
  }
  return v;
}
export class Interface {
  constructor(abi) { this.fragments = (typeof abi === 'string' ? JSON.parse(abi) : [...abi]).map(f => typeof f === 'string' ? frag(f) : f); this.fns = this.fragments.filter(f => f.type === 'function').map(f => { const ins = f.inputs.map(ty), outs = f.outputs.map(ty), sig = `${f.name}(${ins.map(R.canon).join(',')})`; return { f, name: f.name, ins, outs, sig, sel: R.n2b(R.selector(sig), 4) }; }); }
  find(key) { const k = key.replace(/\s/g, ''), l = this.fns.filter(x => x.name === k || x.sig === k || '0x' + R.hex(x.sel) === k); return l; }
  getFunction(key, args) { const l = this.find(key).filter(x => !args || l0(x, args)); if (l.length > 1) throw Object.assign(new Error(`ambiguous function ${key}`), { code: 'INVALID_ARGUMENT' }); return l[0] ?? null; }
  encodeFunctionData(key, args = []) { const e = typeof key === 'string' ? this.getFunction(key, args) : key; if (!e) throw new Error(`no function ${key}`); if (args.length !== e.ins.length) throw new Error(`${e.sig}: ${args.length} arguments`); return '0x' + R.hex(R.cat(e.sel, R.encTuple(e.ins, e.ins.map((t, i) => inp(t, args[i]))))); }
  decodeFunctionResult(key, data) { const e = typeof key === 'string' ? this.getFunction(key) : key; const v = R.decTuple(e.outs, typeof data === 'string' ? R.unhex(data) : data); return result(e.f.outputs.map(o => o.name), v.map((x, i) => out(e.outs[i], x))); }
}
const l0 = (x, args) => args.length === x.ins.length || (args.length === x.ins.length + 1 && args[args.length - 1] && typeof args[args.length - 1] === 'object' && !(args[args.length - 1] instanceof Uint8Array));
const isOver = o => o && typeof o === 'object' && !Array.isArray(o) && !(o instanceof Uint8Array);
const OVER = ['value', 'from', 'gasLimit', 'gasPrice', 'nonce', 'maxFeePerGas', 'maxPriorityFeePerGas', 'chainId', 'to', 'data', 'blockTag', 'customData', 'type', 'accessList', 'enableCcipRead'];
function method(c, key) {
  const pick = args => { const e = c.interface.getFunction(key, args); if (!e) throw Object.assign(new Error(`no matching function ${key} for ${args.length} arguments`), { code: 'UNSUPPORTED_OPERATION' }); return e; };
  const populate = async (...args) => {
    const e = pick(args); let o = {}; if (args.length === e.ins.length + 1) { o = args.pop(); if (!isOver(o)) throw new Error('invalid overrides'); for (const k of Object.keys(o)) if (!OVER.includes(k)) throw new Error(`invalid override ${k}`); }
    args = await Promise.all(args); if (o.value !== undefined && BigInt(o.value) !== 0n && e.f.stateMutability !== 'payable') throw Object.assign(new Error('cannot send value to a non-payable method'), { code: 'INVALID_ARGUMENT' });
    return { ...o, to: c.target, data: c.interface.encodeFunctionData(e, args) };
  };
  const staticCall = async (...args) => { const e = pick(args), tx = await populate(...args); const r = await c.runner.call(tx); const v = c.interface.decodeFunctionResult(e, r); return v.length === 1 ? v[0] : v; };
  const send = async (...args) => { const tx = await populate(...args); if (!c.runner.sendTransaction) throw Object.assign(new Error('contract runner does not support sending transactions'), { code: 'UNSUPPORTED_OPERATION' }); return c.runner.sendTransaction(tx); };
  const view = args => ['view', 'pure'].includes(pick(args).f.stateMutability);
  const m = (...args) => view(args) ? staticCall(...args) : send(...args);
  return Object.assign(m, { populateTransaction: populate, staticCall, staticCallResult: async (...a) => [await staticCall(...a)], send, estimateGas: async (...a) => { await populate(...a); return 100000n; }, getFragment: (...a) => pick(a).f, get fragment() { return c.interface.getFunction(key)?.f; } });
}
export class BaseContract {
  constructor(target, abi, runner) {
    this.target = target; this.interface = abi instanceof Interface ? abi : new Interface(abi); this.runner = runner ?? null; const ms = new Map();
    this.getFunction = key => { if (!this.interface.find(key).length) return null; if (!ms.has(key)) ms.set(key, method(this, key)); return ms.get(key); };
    return new Proxy(this, { get: (t, p, r) => typeof p !== 'string' || p in t || p === 'then' ? Reflect.get(t, p, r) : t.getFunction(p) ?? undefined });
  }
  async getAddress() { return this.target; } connect(r) { return new Contract(this.target, this.interface, r); } attach(a) { return new Contract(a, this.interface, this.runner); }
  getEvent() { throw new Error('events are not part of this stand-in'); }
}
export class Contract extends BaseContract { }
export class ContractFactory { constructor(abi, bytecode, runner) { Object.assign(this, { interface: new Interface(abi), bytecode, runner }); } connect(r) { return new ContractFactory(this.interface.fragments, this.bytecode, r); } deploy() { throw new Error('no deployment'); } }
export const getBytes = v => typeof v === 'string' ? R.unhex(v) : Uint8Array.from(v), hexlify = v => '0x' + R.hex(getBytes(v)), keccak256 = v => '0x' + R.hex(R.keccakBytes(getBytes(v))), getAddress = a => new EvmAddress(a).toString(), isAddress = a => /^(0x)?[0-9a-f]{40}$/i.test(a), ZeroAddress = '0x' + '0'.repeat(40), ZeroHash = '0x' + '0'.repeat(64), MaxUint256 = (1n << 256n) - 1n, zeroPadValue = (v, n) => { const b = getBytes(v); if (b.length > n) throw new Error('too long'); return '0x' + '0'.repeat(2 * (n - b.length)) + R.hex(b); }, toBigInt = v => BigInt(v), getBigInt = v => BigInt(v), concat = l => '0x' + l.map(x => R.hex(getBytes(x))).join(''), id = s => keccak256(new TextEncoder().encode(s));
export const isHexString = (v, n) => typeof v === 'string' && /^0x[0-9a-f]*$/i.test(v) && (n === undefined || v.length === 2 + 2 * n);
export const ethers = { Contract, Interface, BaseContract, ContractFactory, getBytes, hexlify, keccak256, getAddress, isAddress, ZeroAddress, ZeroHash, MaxUint256, zeroPadValue, concat, id };
export const isError = (e, code) => !!e && e.code === code, isCallException = e => isError(e, 'CALL_EXCEPTION');
