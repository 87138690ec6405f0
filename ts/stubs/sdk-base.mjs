// Stand-in for @wormhole-foundation/sdk-base 1.0: chains, encodings and binary layouts.
import { be, le, cat, hex as toHex, unhex, num, utf8, b58, unb58 } from './bytes.mjs';
const NAMES = { 1: 'Solana', 2: 'Ethereum', 3: 'Terra', 4: 'Bsc', 5: 'Polygon', 6: 'Avalanche', 8: 'Algorand', 10: 'Fantom', 13: 'Klaytn', 14: 'Celo', 15: 'Near', 16: 'Moonbeam', 21: 'Sui', 22: 'Aptos', 23: 'Arbitrum', 24: 'Optimism', 30: 'Base', 10002: 'Sepolia', 10003: 'ArbitrumSepolia', 10004: 'BaseSepolia', 10005: 'OptimismSepolia' };
const IDS = Object.fromEntries(Object.entries(NAMES).map(([i, n]) => [n, Number(i)]));
export const isChainId = v => Number.isInteger(v) && v >= 0 && v < 65536;
export const chainIdToChain = i => { if (!isChainId(i)) throw new Error(`${i} is not a chain id`); return NAMES[i] ?? `Chain${i}`; };
export const toChain = c => typeof c === 'number' || typeof c === 'bigint' ? chainIdToChain(Number(c)) : chainIdToChain(toChainId(c));
export const toChainId = c => { if (typeof c === 'number' || typeof c === 'bigint') { if (!isChainId(Number(c))) throw new Error(`${c} is not a chain id`); return Number(c); } if (c in IDS) return IDS[c]; const m = /^Chain(\d+)$/.exec(c); if (m && isChainId(Number(m[1]))) return Number(m[1]); throw new Error(`Cannot convert to ChainId: ${c}`); };
export const isChain = c => typeof c === 'string' && (c in IDS || /^Chain\d+$/.test(c));
export const chains = Object.keys(IDS);
const OTHER = { Solana: 'Solana', Terra: 'Cosmwasm', Algorand: 'Algorand', Near: 'Near', Sui: 'Sui', Aptos: 'Aptos' };
export const chainToPlatform = c => OTHER[c] ?? 'Evm';
export const encoding = {
  bytes: { encode: utf8, decode: b => new TextDecoder().decode(b), equals: (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0, concat: cat, zpad: (b, n, left = true) => { if (b.length > n) throw new Error('too long'); const z = new Uint8Array(n - b.length); return left ? cat(z, b) : cat(b, z); } },
  bignum: { toBytes: (v, n) => be(v, n ?? Math.max(1, Math.ceil(BigInt(v).toString(16).length / 2))), decode: h => BigInt(h), encode: (v, p = false) => (p ? '0x' : '') + v.toString(16), fromBytes: num },
  hex: { encode: (b, p = false) => (p ? '0x' : '') + toHex(typeof b === 'string' ? utf8(b) : b), decode: unhex, valid: s => /^(0x)?[0-9a-f]*$/i.test(s) },
  b64: { encode: b => Buffer.from(b).toString('base64'), decode: s => Uint8Array.from(Buffer.from(s, 'base64')), valid: () => true },
  b58: { encode: b58, decode: unb58, valid: () => true },
};
export const rpc = { rpcAddress: (n, c) => `https://${n}.${c}.example` };
const isLayout = x => Array.isArray(x) || (x && typeof x === 'object' && 'binary' in x);
const conv = c => c && typeof c === 'object' && !(c instanceof Uint8Array) && 'to' in c && 'from' in c;
const isSpecLayout = x => isLayout(x) && !conv(x) && !(Array.isArray(x) && x.length === 2 && isLayout(x[0]) && conv(x[1]));
export const customizableBytes = (base, spec) => ({ ...base, binary: 'bytes', ...(spec === undefined ? {} : spec instanceof Uint8Array || (conv(spec) && !Array.isArray(spec)) ? { custom: spec } : isSpecLayout(spec) ? { layout: spec } : { layout: spec[0], custom: spec[1] }) });
const bytesEq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
function encUint(it, v) {
  const signed = it.binary === 'int'; if (typeof v !== 'number' && typeof v !== 'bigint') throw new Error(`${it.name ?? 'item'}: expected a number, got ${v}`);
  let x = BigInt(v); const n = BigInt(8 * it.size); if (signed ? x < -(1n << (n - 1n)) || x >= 1n << (n - 1n) : x < 0n || x >> n) throw new Error(`${it.name ?? 'item'}: ${x} is out of bounds`);
  if (x < 0n) x += 1n << n; return it.endianness === 'little' ? le(x, it.size) : be(x, it.size);
}
function encItem(it, v) {
  if (it.binary === 'uint' || it.binary === 'int') {
    if (it.custom !== undefined) { if (typeof it.custom === 'number' || typeof it.custom === 'bigint') { if (!it.omit && v !== undefined && BigInt(v) !== BigInt(it.custom)) throw new Error('constant mismatch'); v = it.custom; } else v = typeof it.custom.from === 'function' ? it.custom.from(v) : it.custom.from; }
    return encUint(it, v);
  }
  if (it.binary === 'bytes') {
    let b;
    if (it.layout) b = ser(it.layout, conv(it.custom) ? (typeof it.custom.from === 'function' ? it.custom.from(v) : it.custom.from) : v);
    else if (it.custom instanceof Uint8Array) { if (!it.omit && v !== undefined && !bytesEq(v, it.custom)) throw new Error(`${it.name ?? 'item'}: constant mismatch`); b = it.custom; }
    else if (conv(it.custom)) b = typeof it.custom.from === 'function' ? it.custom.from(v) : it.custom.from;
    else { if (!(v instanceof Uint8Array)) throw new Error(`${it.name ?? 'item'}: expected bytes`); b = v; }
    if ('size' in it && it.size !== undefined && b.length !== it.size) throw new Error(`${it.name ?? 'item'}: ${b.length} bytes instead of ${it.size}`);
    if (it.lengthSize !== undefined) return cat(encUint({ binary: 'uint', size: it.lengthSize, endianness: it.lengthEndianness, name: it.name }, b.length), b);
    return b;
  }
  if (it.binary === 'array') {
    if (it.length !== undefined && v.length !== it.length) throw new Error('array length'); const body = cat(...v.map(x => ser(it.layout, x)));
    return it.lengthSize !== undefined ? cat(encUint({ binary: 'uint', size: it.lengthSize, endianness: it.lengthEndianness }, v.length), body) : body;
  }
  if (it.binary === 'switch') {
    const tag = it.idTag ?? 'id'; const e = it.layouts.find(([i]) => (Array.isArray(i) ? i[1] : i) === v[tag]); if (!e) throw new Error(`no layout for ${v[tag]}`);
    const id = Array.isArray(e[0]) ? e[0][0] : e[0]; return cat(encUint({ binary: 'uint', size: it.idSize, endianness: it.idEndianness }, id), ser(e[1], v));
  }
  throw new Error(`unknown layout item ${it.binary}`);
}
function ser(l, v) { if (!Array.isArray(l)) return encItem(l, v); return cat(...l.map(it => { if (!it.omit && !(it.name in Object(v)) && !(it.custom instanceof Uint8Array)) throw new Error(`missing ${it.name}`); return encItem(it, Object(v)[it.name]); })); }
export function serializeLayout(l, v) { return ser(l, v); }
const take = (r, n) => { if (r.o + n > r.e) throw new Error(`chunk is shorter than expected: ${r.e - r.o} < ${n}`); const b = r.b.slice(r.o, r.o + n); r.o += n; return b; };
const rdUint = (it, r) => { const b = take(r, it.size); if (it.endianness === 'little') b.reverse(); let x = num(b); const n = BigInt(8 * it.size); if (it.binary === 'int' && x >> (n - 1n)) x -= 1n << n; return it.size > 6 ? x : Number(x); };
function decItem(it, r) {
  if (it.binary === 'uint' || it.binary === 'int') {
    const v = rdUint(it, r); const c = it.custom; if (c === undefined) return v;
    if (typeof c === 'number' || typeof c === 'bigint') { if (BigInt(c) !== BigInt(v)) throw new Error('constant mismatch'); return v; }
    if (typeof c.to === 'function') return c.to(v); if (BigInt(c.from) !== BigInt(v)) throw new Error('constant mismatch'); return c.to;
  }
  if (it.binary === 'bytes') {
    let n; if (it.lengthSize !== undefined) n = Number(rdUint({ binary: 'uint', size: it.lengthSize, endianness: it.lengthEndianness }, r)); else if (it.size !== undefined) n = it.size; else if (it.custom instanceof Uint8Array) n = it.custom.length; else if (conv(it.custom) && it.custom.from instanceof Uint8Array) n = it.custom.from.length;
    if (it.layout) {
      let v; if (n === undefined) v = des(it.layout, r); else { if (r.o + n > r.e) throw new Error('chunk is shorter than expected'); const s = { b: r.b, o: r.o, e: r.o + n }; v = des(it.layout, s); if (s.o !== s.e) throw new Error('nested layout did not consume its bytes'); r.o = s.e; }
      return conv(it.custom) ? (typeof it.custom.to === 'function' ? it.custom.to(v) : it.custom.to) : v;
    }
    const b = take(r, n ?? r.e - r.o); const c = it.custom; if (c === undefined) return b;
    if (c instanceof Uint8Array) { if (!bytesEq(b, c)) throw new Error(`${it.name ?? 'item'}: constant mismatch`); return b; }
    if (typeof c.to === 'function') return c.to(b); if (!bytesEq(b, c.from)) throw new Error('constant mismatch'); return c.to;
  }
  if (it.binary === 'array') {
    const v = []; let n = it.length; if (it.lengthSize !== undefined) n = Number(rdUint({ binary: 'uint', size: it.lengthSize, endianness: it.lengthEndianness }, r));
    if (n === undefined) while (r.o < r.e) v.push(des(it.layout, r)); else for (let i = 0; i < n; i++) v.push(des(it.layout, r)); return v;
  }
  if (it.binary === 'switch') { const id = Number(rdUint({ binary: 'uint', size: it.idSize, endianness: it.idEndianness }, r)); const e = it.layouts.find(([i]) => (Array.isArray(i) ? i[0] : i) === id); if (!e) throw new Error(`unknown id ${id}`); return { [it.idTag ?? 'id']: Array.isArray(e[0]) ? e[0][1] : id, ...des(e[1], r) }; }
  throw new Error(`unknown layout item ${it.binary}`);
}
function des(l, r) { if (!Array.isArray(l)) return decItem(l, r); const v = {}; for (const it of l) { const x = decItem(it, r); if (!it.omit) v[it.name] = x; } return v; }
export function deserializeLayout(l, b, opts) { const all = opts === undefined ? true : typeof opts === 'object' ? opts.consumeAll ?? true : opts; const r = { b: Uint8Array.from(b), o: 0, e: b.length }; const v = des(l, r); if (all) { if (r.o !== r.e) throw new Error(`encoded data is longer than expected: ${r.e - r.o} bytes left`); return v; } return [v, r.o]; }
export const calcLayoutSize = (l, v) => ser(l, v).length;
export const lazyInstantiate = f => { let x; return () => (x ??= f()); };
export const amount = {
  fromBaseUnits: (v, decimals) => ({ amount: v.toString(), decimals }), units: a => BigInt(a.amount), decimals: a => a.decimals,
  display: a => { const s = a.amount.padStart(a.decimals + 1, '0'); return a.decimals ? `${s.slice(0, -a.decimals)}.${s.slice(-a.decimals)}` : s; }, whole: a => Number(amount.display(a)),
};
export const nativeChainId = (network, chain) => BigInt({ Mainnet: 1, Testnet: 2, Devnet: 3 }[network] * 1000000 + toChainId(chain));
export const nativeChainIds = { networkChainToNativeChainId: { get: nativeChainId, has: () => true } }, platforms = ['Evm', 'Solana'];
