// Stand-in for @wormhole-foundation/sdk-definitions: addresses and layout items.
import { toChain, toChainId, encoding, chainToPlatform } from './sdk-base.mjs';
import { keccak256 as k256, hex, unhex, sha256 as s256, cat } from './bytes.mjs';
export const keccak256 = d => k256(typeof d === 'string' ? unhex(d) : Uint8Array.from(d));
export const sha256 = d => s256(d);
export class UniversalAddress {
  constructor(a, format) { let b; if (a instanceof UniversalAddress) b = a.b; else if (typeof a === 'string') b = format === 'base58' || (format === undefined && !/^0x|^[0-9a-f]{64}$/i.test(a)) ? encoding.b58.decode(a) : unhex(a); else if (a.toUniversalAddress) b = a.toUniversalAddress().b; else b = Uint8Array.from(a); if (b.length !== 32) throw new Error(`Invalid address: ${b.length} bytes`); this.b = b; }
  toUint8Array() { return this.b.slice(); } toUniversalAddress() { return this; } unwrap() { return this.b.slice(); } toString() { return '0x' + hex(this.b); } equals(o) { return hex(this.b) === hex(o.toUniversalAddress().b); } toNative() { return this; }
}
// EVM addresses: 20 bytes, written with the checksum of EIP-55
const padded = b => b.length === 20 ? b : b.length === 32 && b.slice(0, 12).every(x => x === 0) ? b.slice(12) : null;
export class EvmAddress {
  constructor(a) { const b = a instanceof EvmAddress ? a.b : a && a.toUniversalAddress ? padded(a.toUniversalAddress().b) : typeof a === 'string' ? (/^(0x)?([0-9a-f]{40}|[0-9a-f]{64})$/i.test(a) ? padded(unhex(a)) : null) : a instanceof Uint8Array ? padded(Uint8Array.from(a)) : null; if (!b) throw new Error(`Invalid EVM address ${a}`); this.b = b; this.address = this.toString(); }
  toString() { const h = hex(this.b), k = hex(k256(Uint8Array.from(Buffer.from(h)))); return '0x' + [...h].map((c, i) => parseInt(k[i], 16) >= 8 ? c.toUpperCase() : c).join(''); }
  unwrap() { return this.toString(); } toUint8Array() { return this.b.slice(); } toUniversalAddress() { return new UniversalAddress(cat(new Uint8Array(12), this.b)); } toNative() { return this; } equals(o) { return hex(this.b) === hex(new EvmAddress(o).b); }
}
export const universalAddress = a => a.address.toUniversalAddress().toString();
// a VAA carries its bytes
export const serialize = v => { if (!(v.raw instanceof Uint8Array)) throw new Error('not a VAA'); return v.raw.slice(); };
export const toUniversal = (chain, a) => typeof a === 'string' && chainToPlatform(toChain(chain)) === 'Evm' ? new EvmAddress(a).toUniversalAddress() : typeof a === 'string' ? new UniversalAddress(a, /^0x/.test(a) ? 'hex' : 'base58') : new UniversalAddress(a.length < 32 ? cat(new Uint8Array(32 - a.length), a) : a);
export const toNative = toUniversal;
export const layoutItems = {
  universalAddressItem: { binary: 'bytes', size: 32, custom: { to: b => new UniversalAddress(b), from: a => a.toUniversalAddress().toUint8Array() } },
  chainItem: () => ({ binary: 'uint', size: 2, custom: { to: n => toChain(n), from: c => toChainId(c) } }),
  amountItem: { binary: 'uint', size: 32 }, sequenceItem: { binary: 'uint', size: 8 },
};
export const payloads = new Map();
export const registerPayloadTypes = (protocol, list) => { for (const [n, l] of list) { if (payloads.has(`${protocol}:${n}`)) throw new Error(`already registered ${n}`); payloads.set(`${protocol}:${n}`, l); } };
export const registerProtocol = () => {}, protocolIsRegistered = () => false;
export const getPayloadLayout = n => payloads.get(n), composeLiteral = (a, b) => `${a}:${b}`;
export const deliveryInstructionLayout = l => ({ relayed: l });
export const isSameAddress = (a, b) => a.equals(b), canonicalAddress = a => chainToPlatform(toChain(a.chain)) === 'Evm' ? new EvmAddress(a.address).toString() : a.address.toString();
