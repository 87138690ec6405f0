// Stand-in for @coral-xyz/anchor 0.29: builds instructions and decodes accounts from an IDL.
import * as web3 from './web3.mjs';
import { BN } from './bn.mjs';
import { cat, le, num, sha256, utf8 } from './bytes.mjs';
export { web3, BN };
const { PublicKey } = web3;
const camel = s => s === s.toUpperCase() ? s.toLowerCase() : s.replace(/_(.)/g, (_, c) => c.toUpperCase()).replace(/^./, c => c.toLowerCase());
const snake = s => s.replace(/([A-Z])/g, '_$1').toLowerCase().replace(/^_/, '');
const SZ = { u8: 1, i8: 1, u16: 2, i16: 2, u32: 4, i32: 4, u64: 8, i64: 8, u128: 16, i128: 16 };
const big = t => SZ[t] >= 8;
function enc(idl, t, v, at) {
  const bad = () => { throw new Error(`cannot encode ${at} as ${JSON.stringify(t)}`); };
  if (typeof t === 'string') {
    if (SZ[t]) {
      if (v === undefined || v === null) bad(); if (big(t) ? !(v instanceof BN) : typeof v !== 'number' || !Number.isInteger(v)) bad();
      let x = big(t) ? v.v : BigInt(v); const n = BigInt(SZ[t] * 8); if (t[0] === 'u' ? x < 0n || x >> n : x < -(1n << (n - 1n)) || x >= 1n << (n - 1n)) throw new RangeError(`${at} = ${x} is out of range`); if (x < 0n) x += 1n << n; return le(x, SZ[t]);
    }
    switch (t) { case 'bool': if (typeof v !== 'boolean') bad(); return Uint8Array.of(v ? 1 : 0); case 'publicKey': if (!v || !v.toBytes) bad(); return v.toBytes(); case 'string': return cat(le(utf8(v).length, 4), utf8(v)); case 'bytes': return cat(le(v.length, 4), Uint8Array.from(v)); }
    bad();
  }
  if (t.array) { if (!v || v.length !== t.array[1]) bad(); return cat(...Array.from(v).map((x, i) => enc(idl, t.array[0], x, `${at}[${i}]`))); }
  if (t.vec) return cat(le(v.length, 4), ...Array.from(v).map((x, i) => enc(idl, t.vec, x, `${at}[${i}]`)));
  if (t.option) return v === null || v === undefined ? Uint8Array.of(0) : cat(Uint8Array.of(1), enc(idl, t.option, v, at));
  if (t.defined) {
    const d = [...(idl.types ?? []), ...(idl.accounts ?? [])].find(x => x.name === t.defined); if (!d) throw new Error(`Type not found: ${t.defined}`);
    if (d.type.kind === 'struct') { if (v === undefined || v === null) bad(); return cat(...d.type.fields.map(f => enc(idl, f.type, v[camel(f.name)], `${at}.${f.name}`))); }
    const i = d.type.variants.findIndex(x => v && camel(x.name) in v); if (i < 0) bad(); const x = d.type.variants[i], c = v[camel(x.name)];
    return cat(Uint8Array.of(i), ...(x.fields ?? []).map((f, j) => f.name ? enc(idl, f.type, c[camel(f.name)], at) : enc(idl, f, c[j], at)));
  }
  bad();
}
function dec(idl, t, r) {
  const take = n => { if (r.o + n > r.b.length) throw new RangeError('account data too short'); const x = r.b.subarray(r.o, r.o + n); r.o += n; return x; };
  const int = n => num(Uint8Array.from(take(n)).reverse());
  if (typeof t === 'string') {
    if (SZ[t]) { let x = int(SZ[t]); const n = BigInt(SZ[t] * 8); if (t[0] === 'i' && x >> (n - 1n)) x -= 1n << n; return big(t) ? new BN(x) : Number(x); }
    switch (t) { case 'bool': return take(1)[0] !== 0; case 'publicKey': return new PublicKey(take(32)); case 'string': return Buffer.from(take(Number(int(4)))).toString(); case 'bytes': return Buffer.from(take(Number(int(4)))); }
  }
  if (t.array) return Array.from({ length: t.array[1] }, () => dec(idl, t.array[0], r));
  if (t.vec) return Array.from({ length: Number(int(4)) }, () => dec(idl, t.vec, r));
  if (t.option) return take(1)[0] ? dec(idl, t.option, r) : null;
  const d = [...(idl.types ?? []), ...(idl.accounts ?? [])].find(x => x.name === t.defined); if (!d) throw new Error(`Type not found: ${JSON.stringify(t)}`);
  return decDef(idl, d, r, take);
}
function decDef(idl, d, r) {
  if (d.type.kind === 'struct') return Object.fromEntries(d.type.fields.map(f => [camel(f.name), dec(idl, f.type, r)]));
  const x = d.type.variants[r.b[r.o++]]; if (!x) throw new Error('unknown variant'); const fs = x.fields ?? [];
  return { [camel(x.name)]: fs.length && fs[0].name ? Object.fromEntries(fs.map(f => [camel(f.name), dec(idl, f.type, r)])) : fs.map(f => dec(idl, f, r)).reduce((a, v, i) => (a[i] = v, a), fs.length ? [] : {}) };
}
const size = (idl, t) => typeof t === 'string' ? SZ[t] ?? ({ bool: 1, publicKey: 32 })[t] ?? 1 : t.array ? t.array[1] * size(idl, t.array[0]) : t.option ? 1 + size(idl, t.option) : t.defined ? sizeDef(idl, [...(idl.types ?? []), ...(idl.accounts ?? [])].find(x => x.name === t.defined)) : 1;
const sizeDef = (idl, d) => d.type.kind === 'struct' ? d.type.fields.reduce((n, f) => n + size(idl, f.type), 0) : 1 + Math.max(0, ...d.type.variants.map(v => (v.fields ?? []).reduce((n, f) => n + size(idl, f.type ?? f), 0)));
const KNOWN = { associatedTokenProgram: new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL'), rent: web3.SYSVAR_RENT_PUBKEY, systemProgram: web3.SystemProgram.programId, tokenProgram: new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA'), clock: web3.SYSVAR_CLOCK_PUBKEY };
class Builder {
  constructor(p, ix, args) { this.p = p; this.ix = ix; this.args = args; this.acc = {}; this.strict = false; this.rest = []; }
  accounts(a) { this.acc = { ...this.acc, ...a }; return this; }
  accountsStrict(a) { this.strict = true; return this.accounts(a); }
  accountsPartial(a) { return this.accounts(a); }
  remainingAccounts(r) { this.rest.push(...r); return this; }
  keys(list, acc, path) {
    return list.flatMap(d => {
      const n = camel(d.name), v = acc?.[n];
      if (d.accounts) return this.keys(d.accounts, v, path + n + '.');
      let k = v ?? (this.strict ? undefined : KNOWN[n]); if (!k) throw new Error(`Invalid arguments: ${path}${n} not provided.`);
      k = new PublicKey(k); return [{ pubkey: k, isSigner: d.isSigner, isWritable: d.isMut }];
    });
  }
  async instruction() {
    if (this.args.length !== this.ix.args.length) throw new Error(`provided too many or too few arguments to ${this.ix.name}`);
    const keys = this.keys(this.ix.accounts, this.acc, '');
    const data = cat(sha256(utf8('global:' + snake(this.ix.name))).slice(0, 8), ...this.ix.args.map((a, i) => enc(this.p.idl, a.type, this.args[i], a.name)));
    return new web3.TransactionInstruction({ keys: [...keys, ...this.rest], programId: this.p.programId, data: Buffer.from(data) });
  }
}
export class Program {
  constructor(idl, programId, provider) {
    this.idl = idl; this.programId = new PublicKey(programId); this.provider = provider;
    this.methods = Object.fromEntries(idl.instructions.map(ix => [camel(ix.name), (...a) => new Builder(this, ix, a)]));
    this.account = Object.fromEntries((idl.accounts ?? []).map(d => {
      const disc = sha256(utf8('account:' + d.name[0].toUpperCase() + d.name.slice(1))).slice(0, 8);
      const fetchNullable = async k => { const a = await provider.connection.getAccountInfo(new PublicKey(k)); if (!a || !a.data.length) return null; if (Buffer.compare(a.data.subarray(0, 8), Buffer.from(disc))) throw new Error('Invalid account discriminator'); return decDef(idl, d, { b: a.data, o: 8 }); };
      return [camel(d.name), { size: 8 + sizeDef(idl, d), fetchNullable, fetch: async k => { const r = await fetchNullable(k); if (r === null) throw new Error(`Account does not exist or has no data ${new PublicKey(k).toBase58()}`); return r; } }];
    }));
  }
}
export const parseIdlErrors = idl => new Map((idl.errors ?? []).map(e => [e.code, e.msg ?? e.name]));
export const translateError = e => e;
