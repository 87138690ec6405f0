// Byte helpers, hashes and the ed25519 curve test the stand-ins share.
import crypto from 'node:crypto';
export const cat = (...a) => { const r = new Uint8Array(a.reduce((n, x) => n + x.length, 0)); let o = 0; for (const x of a) { r.set(x, o); o += x.length; } return r; };
export const hex = b => Buffer.from(b).toString('hex');
export const unhex = s => Uint8Array.from(Buffer.from(s.replace(/^0x/, ''), 'hex'));
export const sha256 = (...a) => new Uint8Array(crypto.createHash('sha256').update(cat(...a)).digest());
export const utf8 = s => new TextEncoder().encode(s);
export const be = (v, n) => { const r = new Uint8Array(n); let x = BigInt(v); for (let i = n - 1; i >= 0; i--) { r[i] = Number(x & 255n); x >>= 8n; } if (x !== 0n) throw new Error(`value ${v} does not fit in ${n} bytes`); return r; };
export const le = (v, n) => be(v, n).reverse();
export const num = b => b.reduce((a, x) => (a << 8n) | BigInt(x), 0n);
const A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export const b58 = b => { let x = num(b), s = ''; while (x > 0n) { s = A58[Number(x % 58n)] + s; x /= 58n; } for (const v of b) { if (v) break; s = '1' + s; } return s; };
export const unb58 = s => { let x = 0n; for (const c of s) { const i = A58.indexOf(c); if (i < 0) throw new Error('Non-base58 character'); x = x * 58n + BigInt(i); } const o = []; while (x > 0n) { o.unshift(Number(x & 255n)); x >>= 8n; } for (const c of s) { if (c !== '1') break; o.unshift(0); } return Uint8Array.from(o); };
// ------------------------------------------------------------------ keccak-256
const RC = [], ROT = [];
{
  let x = 1, y = 0; const rot = new Array(25).fill(0);
  for (let t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; [x, y] = [y, (2 * x + 3 * y) % 5]; }
  for (let i = 0; i < 25; i++) ROT.push(rot[i]);
  let r = 1;
  for (let i = 0; i < 24; i++) { let lo = 0, hi = 0; for (let j = 0; j < 7; j++) { if (r & 1) { const b = (1 << j) - 1; if (b < 32) lo ^= (1 << b); else hi ^= (1 << (b - 32)); } r = (r << 1) ^ ((r >> 7) * 0x171); } RC.push([lo, hi]); }
}
function f1600(lo, hi) {
  const cl = new Int32Array(5), ch = new Int32Array(5), bl = new Int32Array(25), bh = new Int32Array(25);
  for (let r = 0; r < 24; r++) {
    for (let x = 0; x < 5; x++) { cl[x] = lo[x] ^ lo[x + 5] ^ lo[x + 10] ^ lo[x + 15] ^ lo[x + 20]; ch[x] = hi[x] ^ hi[x + 5] ^ hi[x + 10] ^ hi[x + 15] ^ hi[x + 20]; }
    for (let x = 0; x < 5; x++) {
      const a = (x + 4) % 5, b = (x + 1) % 5; const dl = cl[a] ^ ((cl[b] << 1) | (ch[b] >>> 31)), dh = ch[a] ^ ((ch[b] << 1) | (cl[b] >>> 31));
      for (let y = 0; y < 25; y += 5) { lo[x + y] ^= dl; hi[x + y] ^= dh; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      const i = x + 5 * y, j = y + 5 * ((2 * x + 3 * y) % 5); let n = ROT[i], l = lo[i], h = hi[i];
      if (n >= 32) { [l, h] = [h, l]; n -= 32; }
      if (n) { bl[j] = (l << n) | (h >>> (32 - n)); bh[j] = (h << n) | (l >>> (32 - n)); } else { bl[j] = l; bh[j] = h; }
    }
    for (let y = 0; y < 25; y += 5) for (let x = 0; x < 5; x++) { const i = x + y, a = (x + 1) % 5 + y, b = (x + 2) % 5 + y; lo[i] = bl[i] ^ (~bl[a] & bl[b]); hi[i] = bh[i] ^ (~bh[a] & bh[b]); }
    lo[0] ^= RC[r][0]; hi[0] ^= RC[r][1];
  }
}
export function keccak256(d) {
  const lo = new Int32Array(25), hi = new Int32Array(25), rate = 136;
  const n = d.length, full = Math.floor(n / rate) * rate; const last = new Uint8Array(rate); last.set(d.subarray(full)); last[n - full] ^= 1; last[rate - 1] ^= 0x80;
  const abs = (b, o) => { for (let i = 0; i < rate / 8; i++) { const p = o + i * 8; lo[i] ^= b[p] | (b[p + 1] << 8) | (b[p + 2] << 16) | (b[p + 3] << 24); hi[i] ^= b[p + 4] | (b[p + 5] << 8) | (b[p + 6] << 16) | (b[p + 7] << 24); } f1600(lo, hi); };
  for (let o = 0; o < full; o += rate) abs(d, o); abs(last, 0);
  const out = new Uint8Array(32); for (let i = 0; i < 4; i++) for (let k = 0; k < 4; k++) { out[i * 8 + k] = lo[i] >>> (8 * k); out[i * 8 + 4 + k] = hi[i] >>> (8 * k); } return out;
}
// is this a point of edwards25519?
const P = (1n << 255n) - 19n; const pow = (b, e) => { let r = 1n; b %= P; while (e > 0n) { if (e & 1n) r = r * b % P; b = b * b % P; e >>= 1n; } return r; };
const D = (P - 121665n) * pow(121666n, P - 2n) % P;
export function onCurve(b) { const y = num(Uint8Array.from(b).reverse()) & ((1n << 255n) - 1n); if (y >= P) return false; const y2 = y * y % P, u = (y2 - 1n + P) % P, v = (D * y2 + 1n) % P; const x2 = u * pow(v, P - 2n) % P; if (x2 === 0n) return true; return pow(x2, (P - 1n) / 2n) === 1n; }
