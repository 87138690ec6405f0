// A small EVM-level world: accounts with real storage slots, balances, calls with journaled rollback,
// ABI encoding and keccak. Contract code is JavaScript compiled from Solidity by comp.mjs.
export const M256 = (1n << 256n) - 1n;
export const MASK = Array.from({ length: 257 }, (_, i) => (1n << BigInt(i)) - 1n);

// ------------------------------------------------------------------ keccak-256
const RC = [], ROT = [];
{
  let x = 1, y = 0; const rot = new Array(25).fill(0);
  for (let t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; [x, y] = [y, (2 * x + 3 * y) % 5]; }
  for (let i = 0; i < 25; i++) ROT.push(rot[i]);
  let r = 1;
  for (let i = 0; i < 24; i++) { let lo = 0, hi = 0; for (let j = 0; j < 7; j++) { if (r & 1) { const b = (1 << j) - 1; if (b < 32) lo ^= (1 << b); else hi ^= (1 << (b - 32)); } r = (r << 1) ^ ((r >> 7) * 0x171); } RC.push([lo, hi]); }
}
function f1600(lo, hi) {
  const cl = new Int32Array(5), ch = new Int32Array(5), bl = new Int32Array(25), bh = new Int32Array(25);
  for (let r = 0; r < 24; r++) {
    for (let x = 0; x < 5; x++) { cl[x] = lo[x] ^ lo[x + 5] ^ lo[x + 10] ^ lo[x + 15] ^ lo[x + 20]; ch[x] = hi[x] ^ hi[x + 5] ^ hi[x + 10] ^ hi[x + 15] ^ hi[x + 20]; }
    for (let x = 0; x < 5; x++) {
      const a = (x + 4) % 5, b = (x + 1) % 5; const dl = cl[a] ^ ((cl[b] << 1) | (ch[b] >>> 31)), dh = ch[a] ^ ((ch[b] << 1) | (cl[b] >>> 31));
      for (let y = 0; y < 25; y += 5) { lo[x + y] ^= dl; hi[x + y] ^= dh; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      const i = x + 5 * y, j = y + 5 * ((2 * x + 3 * y) % 5); let n = ROT[i], l = lo[i], h = hi[i];
      if (n >= 32) { [l, h] = [h, l]; n -= 32; }
      if (n) { bl[j] = (l << n) | (h >>> (32 - n)); bh[j] = (h << n) | (l >>> (32 - n)); } else { bl[j] = l; bh[j] = h; }
    }
    for (let y = 0; y < 25; y += 5) for (let x = 0; x < 5; x++) { const i = x + y, a = (x + 1) % 5 + y, b = (x + 2) % 5 + y; lo[i] = bl[i] ^ (~bl[a] & bl[b]); hi[i] = bh[i] ^ (~bh[a] & bh[b]); }
    lo[0] ^= RC[r][0]; hi[0] ^= RC[r][1];
  }
}
export function keccakBytes(d) {
  const lo = new Int32Array(25), hi = new Int32Array(25), rate = 136;
  const n = d.length, full = Math.floor(n / rate) * rate; const last = new Uint8Array(rate); last.set(d.subarray(full)); last[n - full] ^= 1; last[rate - 1] ^= 0x80;
  const abs = (b, o) => { for (let i = 0; i < rate / 8; i++) { const p = o + i * 8; lo[i] ^= b[p] | (b[p + 1] << 8) | (b[p + 2] << 16) | (b[p + 3] << 24); hi[i] ^= b[p + 4] | (b[p + 5] << 8) | (b[p + 6] << 16) | (b[p + 7] << 24); } f1600(lo, hi); };
  for (let o = 0; o < full; o += rate) abs(d, o); abs(last, 0);
  const out = new Uint8Array(32); for (let i = 0; i < 4; i++) for (let k = 0; k < 4; k++) { out[i * 8 + k] = lo[i] >>> (8 * k); out[i * 8 + 4 + k] = hi[i] >>> (8 * k); } return out;
}
export const hex = b => Buffer.from(b.buffer, b.byteOffset, b.length).toString('hex');
export const unhex = s => Uint8Array.from(Buffer.from(s.replace(/^0x/, ''), 'hex'));
const SCR = new Uint8Array(32), DV = new DataView(SCR.buffer), M64 = (1n << 64n) - 1n;
export function b2n(b) {
  const n = b.length; if (n === 0) return 0n; if (n > 32) return BigInt('0x' + hex(b));
  if (n <= 6) { let v = 0; for (let i = 0; i < n; i++) v = v * 256 + b[i]; return BigInt(v); }
  SCR.fill(0); SCR.set(b, 32 - n); let v = 0n; const hi = DV.getBigUint64(0), h2 = DV.getBigUint64(8), h3 = DV.getBigUint64(16), lo = DV.getBigUint64(24);
  if (hi === 0n && h2 === 0n && h3 === 0n) return lo; return (((((hi << 64n) | h2) << 64n) | h3) << 64n) | lo;
}
export function n2b(v, n) {
  const out = new Uint8Array(n);
  if (n <= 8) { let x = BigInt.asUintN(64, v); if (n <= 6) { let y = Number(BigInt.asUintN(8 * n, v)); for (let i = n - 1; i >= 0; i--) { out[i] = y % 256; y = Math.floor(y / 256); } return out; } DV.setBigUint64(0, x); out.set(SCR.subarray(8 - n, 8)); return out; }
  if (n === 32) { const d = new DataView(out.buffer); let x = v; if (x >= 0n && x <= M64) { d.setBigUint64(24, x); return out; } d.setBigUint64(24, BigInt.asUintN(64, x)); x >>= 64n; d.setBigUint64(16, BigInt.asUintN(64, x)); x >>= 64n; d.setBigUint64(8, BigInt.asUintN(64, x)); x >>= 64n; d.setBigUint64(0, BigInt.asUintN(64, x)); return out; }
  let x = v; for (let i = 24; i >= 0; i -= 8) { DV.setBigUint64(i, BigInt.asUintN(64, x)); x >>= 64n; } out.set(SCR.subarray(32 - n)); return out;
}
export function cat(...xs) { let n = 0; for (const x of xs) n += x.length; const r = new Uint8Array(n); let o = 0; for (const x of xs) { r.set(x, o); o += x.length; } return r; }
const KC = new Map();
export function keccak(b) { const h = Buffer.from(b.buffer, b.byteOffset, b.length).toString('latin1'); let r = KC.get(h); if (r === undefined) { r = b2n(keccakBytes(b)); if (KC.size > 200000) KC.clear(); KC.set(h, r); } return r; }
export const str = s => Uint8Array.from(Buffer.from(s, 'utf8'));
export const selector = sig => keccak(str(sig)) >> 224n;

// ------------------------------------------------------------------ reverts
export class Revert extends Error { constructor(data, what) { super(what || 'revert'); this.data = data || new Uint8Array(0); this.what = what || ''; } }
Error.stackTraceLimit = 0;
export const panic = code => { throw new Revert(cat(n2b(0x4e487b71n, 4), n2b(BigInt(code), 32)), `Panic(0x${code.toString(16)})`); };
export class Unsupported extends Error {}

// ------------------------------------------------------------------ types (runtime descriptors, made by comp.mjs)
// {k:'uint'|'int',bits} {k:'bool'} {k:'address'} {k:'fbytes',n} {k:'bytes'} {k:'string'} {k:'array',base,len} {k:'struct',name,fields:[{name,t}]} {k:'mapping',key,val} {k:'enum',n} {k:'udvt',base} {k:'contract'}
export function under(t) { while (t.k === 'udvt') t = t.base; return t; }
export function isDyn(t) { t = under(t); return t.k === 'bytes' || t.k === 'string' || (t.k === 'array' && (t.len === null || isDyn(t.base))) || (t.k === 'struct' && t.fields.some(f => isDyn(f.t))); }
export function canon(t) {
  t = under(t);
  switch (t.k) {
    case 'uint': case 'int': return t.k + t.bits; case 'bool': case 'bytes': case 'string': return t.k; case 'address': case 'contract': return 'address'; case 'fbytes': return 'bytes' + t.n; case 'enum': return 'uint8';
    case 'array': return canon(t.base) + '[' + (t.len === null ? '' : t.len) + ']'; case 'struct': return '(' + t.fields.map(f => canon(f.t)).join(',') + ')';
  }
  throw new Unsupported('abi type ' + t.k);
}
const word = v => n2b(v, 32);
function headSize(t) { t = under(t); if (isDyn(t)) return 32; if (t.k === 'array') return Number(t.len) * headSize(t.base); if (t.k === 'struct') return t.fields.reduce((a, f) => a + headSize(f.t), 0); return 32; }
export function enc1(t, v) {
  t = under(t);
  switch (t.k) {
    case 'uint': case 'address': case 'contract': case 'enum': return word(v);
    case 'int': return word(v & M256); case 'bool': return word(v ? 1n : 0n); case 'fbytes': return word(v << BigInt(8 * (32 - t.n)));
    case 'bytes': case 'string': { const p = new Uint8Array(Math.ceil(v.length / 32) * 32); p.set(v); return cat(word(BigInt(v.length)), p); }
    case 'array': { const b = encTuple(v.map(() => t.base), v); return t.len === null ? cat(word(BigInt(v.length)), b) : b; }
    case 'struct': return encTuple(t.fields.map(f => f.t), t.fields.map(f => v[f.name]));
  }
  throw new Unsupported('abi encode ' + t.k);
}
export function encTuple(ts, vs) {
  let head = 0; for (const t of ts) head += headSize(t);
  const hs = [], tl = []; let off = head;
  for (let i = 0; i < ts.length; i++) { const e = enc1(ts[i], vs[i]); if (isDyn(ts[i])) { hs.push(word(BigInt(off))); tl.push(e); off += e.length; } else hs.push(e); }
  return cat(...hs, ...tl);
}
const bad = () => { throw new Revert(new Uint8Array(0), 'abi decoding'); };
function rd(d, o) { if (o + 32 > d.length) bad(); return b2n(d.subarray(o, o + 32)); }
export function dec1(t, d, base, o) { // value at head position o relative to `base`
  const u = under(t);
  if (isDyn(u)) { const p = rd(d, o); if (p > 0xffffffffn) bad(); return decBody(u, d, base + Number(p)); }
  return decBody(u, d, o);
}
function decBody(t, d, o) {
  switch (t.k) {
    case 'uint': { const v = rd(d, o); if (v > MASK[t.bits]) bad(); return v; }
    case 'int': { let v = rd(d, o); if (v >> 255n) v -= 1n << 256n; const h = 1n << BigInt(t.bits - 1); if (v >= h || v < -h) bad(); return v; }
    case 'bool': { const v = rd(d, o); if (v > 1n) bad(); return v === 1n; }
    case 'address': case 'contract': { const v = rd(d, o); if (v >> 160n) bad(); return v; }
    case 'enum': { const v = rd(d, o); if (v >= BigInt(t.n)) bad(); return v; }
    case 'fbytes': { const v = rd(d, o); const s = BigInt(8 * (32 - t.n)); if (v & MASK[Number(s)]) bad(); return v >> s; }
    case 'bytes': case 'string': { const n = rd(d, o); if (n > 0xffffffffn) bad(); const l = Number(n); if (o + 32 + l > d.length) bad(); return d.slice(o + 32, o + 32 + l); }
    case 'array': { let n = t.len === null ? rd(d, o) : BigInt(t.len); if (n > 0xfffffn) bad(); const b = t.len === null ? o + 32 : o; const h = headSize(t.base); const r = []; for (let i = 0; i < Number(n); i++) r.push(dec1(t.base, d, b, b + i * h)); return r; }
    case 'struct': { const r = {}; let p = o; for (const f of t.fields) { r[f.name] = dec1(f.t, d, o, p); p += headSize(f.t); } return r; }
  }
  throw new Unsupported('abi decode ' + t.k);
}
export function decTuple(ts, d, o = 0) { const r = []; let p = o; for (const t of ts) { r.push(dec1(t, d, o, p)); p += headSize(t); } return r; }
export function packed(t, v, inArr) {
  t = under(t);
  switch (t.k) {
    case 'uint': case 'int': return n2b(v & M256, inArr ? 32 : t.bits / 8); case 'bool': return n2b(v ? 1n : 0n, inArr ? 32 : 1); case 'enum': return n2b(v, inArr ? 32 : 1);
    case 'address': case 'contract': return n2b(v, inArr ? 32 : 20); case 'fbytes': return inArr ? word(v << BigInt(8 * (32 - t.n))) : n2b(v, t.n); case 'bytes': case 'string': return v;
    case 'array': return cat(...v.map(x => packed(t.base, x, true)));
  }
  throw new Unsupported('encodePacked ' + t.k);
}

// ------------------------------------------------------------------ zero values, copies
export function zero(t) {
  t = under(t);
  switch (t.k) {
    case 'bool': return false; case 'bytes': case 'string': return new Uint8Array(0); case 'array': return t.len === null ? [] : Array.from({ length: Number(t.len) }, () => zero(t.base));
    case 'struct': { const r = {}; for (const f of t.fields) if (under(f.t).k !== 'mapping') r[f.name] = zero(f.t); return r; } case 'mapping': return null;
  }
  return 0n;
}
export function copy(t, v) { t = under(t); switch (t.k) { case 'bytes': case 'string': return v.slice(); case 'array': return v.map(x => copy(t.base, x)); case 'struct': { const r = {}; for (const f of t.fields) r[f.name] = copy(f.t, v[f.name]); return r; } } return v; }

// ------------------------------------------------------------------ storage layout
export function size(t) { // bytes for value types, null for multi-slot types
  t = under(t); switch (t.k) { case 'uint': case 'int': return t.bits / 8; case 'bool': case 'enum': return 1; case 'address': case 'contract': return 20; case 'fbytes': return t.n; } return null;
}
export function layout(fields) { // -> [{slot,off}], total slots
  let slot = 0, off = 0; const pos = [];
  for (const f of fields) {
    const s = size(f.t);
    if (s !== null) { if (off + s > 32) { slot++; off = 0; } pos.push({ slot, off }); off += s; }
    else { if (off) { slot++; off = 0; } pos.push({ slot, off: 0 }); slot += slots(f.t); }
  }
  return { pos, n: slot + (off ? 1 : 0) };
}
export function structLayout(t) { return t._lay || (t._lay = layout(t.fields)); }
export function slots(t) { t = under(t); if (size(t) !== null) return 1; switch (t.k) { case 'struct': return structLayout(t).n; case 'array': { if (t.len === null) return 1; const s = size(t.base); return s !== null ? Math.ceil(Number(t.len) / Math.floor(32 / s)) : Number(t.len) * slots(t.base); } } return 1; }
const get = (c, s) => c.a.st.get(s) ?? 0n;
function put(c, s, v) {
  if (c.stat) throw new Revert(new Uint8Array(0), 'state change in a static call');
  const W = c.W, st = c.a.st, o = st.get(s); if ((o ?? 0n) === v) return; W.j.push(st, s, o); if (v === 0n) st.delete(s); else st.set(s, v);
}
export const rawGet = get, rawPut = put;
export function sload(c, t, slot, off) {
  const u = under(t), n = size(u);
  if (n !== null) { let w = get(c, slot); if (n < 32) w = (w >> BigInt(8 * off)) & MASK[8 * n]; if (u.k === 'bool') return w !== 0n; if (u.k === 'int' && (w >> BigInt(u.bits - 1))) return w - (1n << BigInt(u.bits)); return w; }
  switch (u.k) {
    case 'bytes': case 'string': { const w = get(c, slot); if (!(w & 1n)) { const l = Number((w & 0xffn) >> 1n); return word(w).slice(0, l); } const l = Number((w - 1n) >> 1n); let p = keccak(word(slot)); const out = new Uint8Array(l); for (let i = 0; i < l; i += 32, p++) { const b = word(get(c, p)); out.set(b.subarray(0, Math.min(32, l - i)), i); } return out; }
    case 'array': { const n = u.len === null ? Number(get(c, slot)) : Number(u.len); const r = []; for (let i = 0; i < n; i++) { const [s, o] = elemAt(u, slot, i); r.push(sload(c, u.base, s, o)); } return r; }
    case 'struct': { const L = structLayout(u), r = {}; u.fields.forEach((f, i) => { if (under(f.t).k !== 'mapping') r[f.name] = sload(c, f.t, slot + BigInt(L.pos[i].slot), L.pos[i].off); }); return r; }
  }
  throw new Unsupported('load ' + u.k);
}
export function sstore(c, t, slot, off, v) {
  const u = under(t), n = size(u);
  if (n !== null) {
    if (u.k === 'bool') v = v ? 1n : 0n; if (u.k === 'int') v &= MASK[u.bits];
    if (n < 32) { const sh = BigInt(8 * off), w = get(c, slot); v = (w & ~(MASK[8 * n] << sh)) | (v << sh); }
    put(c, slot, v); return;
  }
  switch (u.k) {
    case 'bytes': case 'string': {
      const w = get(c, slot); if (w & 1n) { const l = Number((w - 1n) >> 1n); let p = keccak(word(slot)); for (let i = 0; i < l; i += 32, p++) put(c, p, 0n); }
      if (v.length < 32) { const b = new Uint8Array(32); b.set(v); b[31] = v.length * 2; put(c, slot, b2n(b)); }
      else { put(c, slot, BigInt(v.length * 2 + 1)); let p = keccak(word(slot)); for (let i = 0; i < v.length; i += 32, p++) { const b = new Uint8Array(32); b.set(v.subarray(i, i + 32)); put(c, p, b2n(b)); } }
      return;
    }
    case 'array': { if (u.len === null) { const old = Number(get(c, slot)); for (let i = v.length; i < old; i++) { const [s, o] = elemAt(u, slot, i); sclear(c, u.base, s, o); } put(c, slot, BigInt(v.length)); } v.forEach((x, i) => { const [s, o] = elemAt(u, slot, i); sstore(c, u.base, s, o, x); }); return; }
    case 'struct': { const L = structLayout(u); u.fields.forEach((f, i) => { if (under(f.t).k !== 'mapping') sstore(c, f.t, slot + BigInt(L.pos[i].slot), L.pos[i].off, v[f.name]); }); return; }
  }
  throw new Unsupported('store ' + u.k);
}
export function sclear(c, t, slot, off) {
  const u = under(t); if (u.k === 'mapping') return;
  if (u.k === 'struct') { const L = structLayout(u); u.fields.forEach((f, i) => sclear(c, f.t, slot + BigInt(L.pos[i].slot), L.pos[i].off)); return; }
  if (u.k === 'array') { const n = u.len === null ? Number(get(c, slot)) : Number(u.len); for (let i = 0; i < n; i++) { const [s, o] = elemAt(u, slot, i); sclear(c, u.base, s, o); } if (u.len === null) put(c, slot, 0n); return; }
  sstore(c, u, slot, off, zero(u));
}
export function elemAt(t, slot, i) {
  const base = t.len === null ? keccak(word(slot)) : slot; const s = size(t.base);
  if (s !== null) { const per = Math.floor(32 / s); return [base + BigInt(Math.floor(i / per)), (i % per) * s]; }
  return [base + BigInt(i * slots(t.base)), 0];
}
export function selem(c, t, slot, i) { const n = t.len === null ? get(c, slot) : BigInt(t.len); if (i < 0n || i >= n) panic(0x32); return elemAt(t, slot, Number(i)); }
const MS = new Map();
export function mapSlot(kt, key, slot) {
  const u = under(kt); if (u.k === 'bytes' || u.k === 'string') return keccak(cat(key, word(slot)));
  let m = MS.get(slot); if (!m) MS.set(slot, m = new Map()); const kk = u.k === 'fbytes' && u.n < 32 ? key << BigInt(8 * (32 - u.n)) : typeof key === 'boolean' ? (key ? 1n : 0n) : key; let r = m.get(kk); if (r === undefined) m.set(kk, r = keccak(cat(enc1(u, key), word(slot)))); return r;
}
export function spush(c, t, slot, v) { const n = get(c, slot); put(c, slot, n + 1n); const [s, o] = elemAt(t, slot, Number(n)); sstore(c, t.base, s, o, v); }
export function sgrow(c, t, slot) { const n = get(c, slot); put(c, slot, n + 1n); return elemAt(t, slot, Number(n)); }
const BYT = { k: 'bytes' };
export function bpush(c, slot, b) { sstore(c, BYT, slot, 0, cat(sload(c, BYT, slot, 0), Uint8Array.of(Number(b)))); }
export function spop(c, t, slot) { const n = get(c, slot); if (n === 0n) panic(0x31); const [s, o] = elemAt(t, slot, Number(n - 1n)); sclear(c, t.base, s, o); put(c, slot, n - 1n); }
export function slen(c, t, slot) { if (under(t).k === 'array') return get(c, slot); return BigInt(sload(c, t, slot, 0).length); }

// ------------------------------------------------------------------ arithmetic
const rng = (v, bits, sgn) => { if (sgn) { const h = 1n << BigInt(bits - 1); if (v >= h || v < -h) panic(0x11); } else if (v < 0n || v > MASK[bits]) panic(0x11); return v; };
const wrapv = (v, bits, sgn) => { v &= MASK[bits]; if (sgn && v >> BigInt(bits - 1)) v -= 1n << BigInt(bits); return v; };
export const fit = (v, bits, sgn, unch) => unch ? wrapv(v, bits, sgn) : rng(v, bits, sgn);
export const wrap = wrapv;
export function div(a, b) { if (b === 0n) panic(0x12); return a / b; }
export function mod(a, b) { if (b === 0n) panic(0x12); return a % b; }
export function pow(a, b, bits, sgn, unch) {
  if (unch) { let r = 1n, x = a; while (b > 0n) { if (b & 1n) r = (r * x) & MASK[256]; x = (x * x) & MASK[256]; b >>= 1n; } return wrapv(r, bits, sgn); }
  if (b > 256n && (a > 1n || a < -1n)) panic(0x11); if (a === 0n || a === 1n) return b === 0n ? 1n : a; return rng(a ** b, bits, sgn);
}
export const shl = (a, b, bits, sgn) => b >= BigInt(bits) ? 0n : wrapv(a << b, bits, sgn);
export const shr = (a, b, bits) => b >= BigInt(bits) ? (a < 0n ? -1n : 0n) : a >> b;
export function idx(a, i) { if (i < 0n || i >= BigInt(a.length)) panic(0x32); return a[Number(i)]; }
export function idxSet(a, i, v) { if (i < 0n || i >= BigInt(a.length)) panic(0x32); a[Number(i)] = v; return v; }
export function bidx(a, i) { if (i < 0n || i >= BigInt(a.length)) panic(0x32); return BigInt(a[Number(i)]); }
export function bidxSet(a, i, v) { if (i < 0n || i >= BigInt(a.length)) panic(0x32); a[Number(i)] = Number(v); return v; }
export function fbidx(v, n, i) { if (i < 0n || i >= BigInt(n)) panic(0x32); return (v >> BigInt(8 * (n - 1 - Number(i)))) & 0xffn; }
export function slice(a, lo, hi) { if (hi === null) hi = BigInt(a.length); if (lo > hi || hi > BigInt(a.length)) throw new Revert(new Uint8Array(0), 'slice'); return a.slice(Number(lo), Number(hi)); }
export function newArr(n, t) { if (n > 0xffffffn) panic(0x41); return Array.from({ length: Number(n) }, () => zero(t)); }
export function newBytes(n) { if (n > 0xffffffn) panic(0x41); return new Uint8Array(Number(n)); }
export function eqBytes(a, b) { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false; return true; }

// ------------------------------------------------------------------ world
export const IMPL_SLOT = 0x360894a13ba1a3210667c828492db98dca3e2076cc3735a920a3ca505d382bbcn;
export class World {
  constructor() { this.acc = new Map(); this.logs = []; this.j = []; this.time = 1n; this.chainid = 1n; this.number = 1n; this.depth = 0; this.calls = 0; this.steps = 0; this.next = 0x1000n; }
  // a loop that never ends runs out of gas
  step() { if (++this.steps > 300000) throw new Revert(new Uint8Array(0), 'out of gas'); }
  // journal entries are triples (target, key, old); a function target undoes itself
  mark() { return this.j.length; }
  undo(m) {
    const j = this.j;
    while (j.length > m) {
      const o = j.pop(), k = j.pop(), t = j.pop();
      if (t instanceof Map) { if (o === undefined) t.delete(k); else t.set(k, o); } else if (Array.isArray(t)) t.length = o; else t[k] = o;
    }
  }
  set(obj, k, v) { this.j.push(obj, k, obj instanceof Map ? obj.get(k) : obj[k]); if (obj instanceof Map) obj.set(k, v); else obj[k] = v; }
  push(arr, v) { this.j.push(arr, 0, arr.length); arr.push(v); }
  account(addr) { let a = this.acc.get(addr); if (!a) { a = { addr, bal: 0n, st: new Map(), code: null, native: null, proxy: false, name: '' }; this.set(this.acc, addr, a); } return a; }
  has(addr) { const a = this.acc.get(addr); return !!a && !!(a.code || a.native || a.proxy); }
  codeOf(a) {
    if (!a.proxy) return a.code;
    const impl = a.st.get(IMPL_SLOT) ?? 0n; const i = this.acc.get(impl); return i && i.code ? i.code : null;
  }
  move(from, to, v) {
    if (v === 0n) return; const f = this.account(from), t = this.account(to);
    if (f.bal < v) throw new Revert(new Uint8Array(0), 'insufficient balance'); this.set(f, 'bal', f.bal - v); this.set(t, 'bal', t.bal + v);
  }
  log(e) { this.push(this.logs, e); }
  // raw message call; returns return data or throws Revert after rolling back
  call(from, to, value, data, opt = {}) {
    this.calls++; if (this.depth === 0) this.steps = 0;
    if (this.depth > 60) throw new Revert(new Uint8Array(0), 'call depth');
    const m = this.mark(); this.depth++;
    try {
      if (opt.stat && value) throw new Revert(new Uint8Array(0), 'value in static call');
      if (opt.parentStatic && value) throw new Revert(new Uint8Array(0), 'value in static call');
      if (!opt.delegate) this.move(from, to, value);
      const target = this.account(to);
      const stat = !!(opt.stat || opt.parentStatic);
      if (target.native) return target.native({ W: this, a: target, sender: from, value, data, stat });
      let code, self = target, sender = from, val = value;
      if (opt.delegate) { self = opt.delegate.a; sender = opt.delegate.sender; val = opt.delegate.value; }
      if (target.proxy) { code = this.codeOf(target); if (!code) { return new Uint8Array(0); } } else code = target.code;
      if (!code) return new Uint8Array(0);
      const c = { W: this, a: self, self: self.addr, code, sender, value: val, data, stat, imm: code.imm };
      return code.con.dispatch(c);
    } catch (e) { this.undo(m); throw e instanceof RangeError && /call stack/.test(e.message) ? new Revert(new Uint8Array(0), 'stack') : e; } finally { this.depth--; }
  }
  fresh() { const v = this.next; this.set(this, 'next', v + 1n); return v; }
}
// external call from compiled code: reverts bubble up, and calling an address without code fails
export function extCall(c, to, value, data, opt) { if (!c.W.has(to)) throw new Revert(new Uint8Array(0), 'call to an address without code'); return c.W.call(c.self, to, value, data, opt); }
export function lowCall(c, to, value, data, kind) {
  try {
    let r;
    if (kind === 'call') r = c.W.call(c.self, to, value, data, { parentStatic: c.stat }); else if (kind === 'staticcall') r = c.W.call(c.self, to, 0n, data, { stat: true, parentStatic: c.stat });
    else r = c.W.call(c.self, to, 0n, data, { delegate: c, parentStatic: c.stat });
    return [true, r];
  } catch (e) { if (!(e instanceof Revert)) throw e; return [false, e.data]; }
}
