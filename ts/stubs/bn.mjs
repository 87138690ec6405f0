// The part of bn.js a client needs, on BigInt.
import { num, be } from './bytes.mjs';
export class BN {
  constructor(v = 0, base = 10, endian = 'be') {
    if (v instanceof BN) this.v = v.v; else if (typeof v === 'bigint') this.v = v;
    else if (typeof v === 'number') { if (!Number.isFinite(v) || Math.abs(v) >= 2 ** 53) throw new Error('Assertion failed'); this.v = BigInt(Math.trunc(v)); }
    else if (typeof v === 'string') { const neg = v[0] === '-'; const s = neg ? v.slice(1) : v; this.v = base === 16 || base === 'hex' ? BigInt('0x' + s) : BigInt(s); if (neg) this.v = -this.v; }
    else { const b = Uint8Array.from(v); this.v = num((base === 'le' ? 'le' : endian) === 'le' ? b.reverse() : b); }
  }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.gt(b) ? a : b; } static min(a, b) { return a.lt(b) ? a : b; }
  toString(base = 10) { return this.v.toString(base === 'hex' ? 16 : base); } toJSON() { return this.v.toString(16); }
  toNumber() { const a = this.v < 0n ? -this.v : this.v; if (a >> 53n) throw new Error('Number can only safely store up to 53 bits'); return Number(this.v); }
  byteLength() { return Math.ceil(this.bitLength() / 8); } bitLength() { const a = this.v < 0n ? -this.v : this.v; return a === 0n ? 0 : a.toString(2).length; }
  toArray(endian = 'be', len) { const n = Math.max(1, this.byteLength()); const l = len ?? n; if (n > l && this.v !== 0n) throw new Error('byte array longer than desired length'); const r = Array.from(be(this.v < 0n ? -this.v : this.v, l)); return endian === 'le' ? r.reverse() : r; }
  toArrayLike(T, endian, len) { return T.from(this.toArray(endian, len)); } toBuffer(endian, len) { return Buffer.from(this.toArray(endian, len)); }
  isNeg() { return this.v < 0n; } isZero() { return this.v === 0n; } neg() { return new BN(-this.v); } abs() { return new BN(this.v < 0n ? -this.v : this.v); } clone() { return new BN(this.v); } isEven() { return (this.v & 1n) === 0n; } isOdd() { return !this.isEven(); }
}
const o = x => x instanceof BN ? x.v : BigInt(x);
for (const [n, f] of Object.entries({ add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / b, mod: (a, b) => a % b, pow: (a, b) => a ** b, and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b, shln: (a, b) => a << b, shrn: (a, b) => a >> b })) { BN.prototype[n] = function (x) { return new BN(f(this.v, o(x))); }; BN.prototype[n + 'n'] ??= BN.prototype[n]; }
for (const [n, f] of Object.entries({ eq: (a, b) => a === b, gt: (a, b) => a > b, gte: (a, b) => a >= b, lt: (a, b) => a < b, lte: (a, b) => a <= b })) { BN.prototype[n] = function (x) { return f(this.v, o(x)); }; BN.prototype[n + 'n'] = BN.prototype[n]; }
BN.prototype.cmp = function (x) { const y = o(x); return this.v < y ? -1 : this.v > y ? 1 : 0; };
export default BN;
