// Stand-in for @solana/web3.js: addresses, instructions, transactions, and a connection that reads the accounts it was given.
import { b58, unb58, sha256, cat, utf8, onCurve, le } from './bytes.mjs';
import { BN } from './bn.mjs';
export const MAX_SEED_LENGTH = 32, LAMPORTS_PER_SOL = 1e9, PUBLIC_KEY_LENGTH = 32;
const pdaCache = new Map();
export class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) this.b = v.b;
    else if (typeof v === 'string') { const d = unb58(v); if (d.length !== 32) throw new Error('Invalid public key input'); this.b = d; }
    else if (typeof v === 'number' || typeof v === 'bigint') this.b = le(v, 32).reverse();
    else if (v instanceof BN) this.b = Uint8Array.from(v.toArray('be', 32));
    else if (v && v.b instanceof Uint8Array) this.b = v.b;
    else { const d = Uint8Array.from(v); if (d.length > 32) throw new Error('Invalid public key input'); this.b = cat(new Uint8Array(32 - d.length), d); }
  }
  toBytes() { return this.b.slice(); } toBuffer() { return Buffer.from(this.b); } toBase58() { return b58(this.b); } toString() { return this.toBase58(); } toJSON() { return this.toBase58(); }
  equals(o) { return Buffer.compare(Buffer.from(this.b), Buffer.from(o.b)) === 0; }
  static isOnCurve(k) { return onCurve(new PublicKey(k).b); }
  static createProgramAddressSync(seeds, p) {
    if (seeds.some(s => s.length > 32)) throw new TypeError('Max seed length exceeded');
    const h = sha256(...seeds, p.b, utf8('ProgramDerivedAddress')); if (onCurve(h)) throw new Error('Invalid seeds, address must fall off the curve'); return new PublicKey(h);
  }
  static findProgramAddressSync(seeds, p) {
    if (seeds.length > 15 || seeds.some(s => s.length > 32)) throw new TypeError('Max seed length exceeded');
    const id = seeds.map(s => Buffer.from(s).toString('hex')).join() + p.toBase58(); const hit = pdaCache.get(id); if (hit) return hit;
    for (let n = 255; n >= 0; n--) { const h = sha256(...seeds, Uint8Array.of(n), p.b, utf8('ProgramDerivedAddress')); if (!onCurve(h)) { const r = [new PublicKey(h), n]; pdaCache.set(id, r); return r; } }
    throw new Error('Unable to find a viable program address nonce');
  }
  static async findProgramAddress(s, p) { return PublicKey.findProgramAddressSync(s, p); }
  static async createProgramAddress(s, p) { return PublicKey.createProgramAddressSync(s, p); }
}
PublicKey.default = new PublicKey(new Uint8Array(32));
const K = s => new PublicKey(s);
export const SystemProgram = { programId: K('11111111111111111111111111111111') };
export const SYSVAR_CLOCK_PUBKEY = K('SysvarC1ock11111111111111111111111111111111'), SYSVAR_RENT_PUBKEY = K('SysvarRent111111111111111111111111111111111'), SYSVAR_INSTRUCTIONS_PUBKEY = K('Sysvar1nstructions1111111111111111111111111');
export const AddressLookupTableProgram = {
  programId: K('AddressLookupTab1e1111111111111111111111111'),
  createLookupTable({ authority, recentSlot }) { return [null, PublicKey.findProgramAddressSync([authority.b, le(recentSlot, 8)], AddressLookupTableProgram.programId)[0]]; },
};
export class AddressLookupTableAccount { constructor(a) { Object.assign(this, a); } }
export class TransactionInstruction { constructor({ keys, programId, data }) { this.keys = keys; this.programId = programId; this.data = data ?? Buffer.alloc(0); } }
export class Transaction { constructor() { this.instructions = []; } add(...x) { for (const i of x) { if (i instanceof Transaction) this.instructions.push(...i.instructions); else if (i && i.programId) this.instructions.push(i); else throw new Error('not an instruction'); } return this; } }
export class TransactionMessage { constructor(a) { Object.assign(this, a); } compileToV0Message(luts = []) { return { payerKey: this.payerKey, instructions: this.instructions, luts }; } compileToLegacyMessage() { return this.compileToV0Message(); } }
export class VersionedTransaction { constructor(m) { this.message = m; } }
let fresh = 0;
export class Keypair { constructor(b) { this.publicKey = new PublicKey(b); } static generate() { return new Keypair(sha256(utf8('generated'), le(fresh++, 8))); } static restart() { fresh = 0; } }
export class ComputeBudgetProgram {}
/** Reads the accounts of one state. */
export class Connection {
  constructor(accounts, slot) { this.accounts = accounts; this.slot = slot; this.rpcEndpoint = 'http://localhost:8899'; }
  async getAccountInfo(k) { const a = this.accounts.get(k.toBase58()); return a ? { owner: new PublicKey(a.owner), data: Buffer.from(a.data), lamports: a.lamports, executable: false } : null; }
  async getMultipleAccountsInfo(ks) { return Promise.all(ks.map(k => this.getAccountInfo(k))); }
  async getMinimumBalanceForRentExemption(n) { return (n + 128) * 6960; }
  async getLatestBlockhash() { return { blockhash: 'x', lastValidBlockHeight: 1 }; }
  async getSlot() { return this.slot; }
  async getBalance(k) { return (await this.getAccountInfo(k))?.lamports ?? 0; }
  async getAddressLookupTable(k) { const a = await this.getAccountInfo(k); if (!a) return { value: null }; const l = []; for (let o = 56; o + 32 <= a.data.length; o += 32) l.push(new PublicKey(a.data.subarray(o, o + 32))); return { value: new AddressLookupTableAccount({ key: k, state: { addresses: l } }) }; }
}
