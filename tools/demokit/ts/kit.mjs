// A Solana deployment for demonstrations: the accounts are written here, the client is the repository's.
import { load } from './src/bundle.mjs';
import { sha256, keccak256 } from './stubs/bytes.mjs';
export const m = await load(['defs', 'lib', 'sdk']), B = m.sdk_base;
export const { PublicKey, Connection, Keypair } = m.web3, { UniversalAddress, payloads } = m.sdk_definitions, { SolanaAddress } = m.sdk_solana;
export const hex = b => Buffer.from(b).toString('hex'), check = (c, t) => { if (!c) { console.log('FAILED: ' + t); process.exit(1); } };
export const cat = (...l) => Uint8Array.from(Buffer.concat(l.map(x => Buffer.from(x))));
export const le = (v, n) => Uint8Array.from({ length: n }, (_, i) => Number((BigInt(v) >> BigInt(8 * i)) & 255n)), be = (v, n) => le(v, n).reverse();
export const utf8 = s => new TextEncoder().encode(s), keccak = keccak256;
export const pk = s => { for (let i = 0; ; i++) { const k = new PublicKey(sha256(utf8(s + i))); if (PublicKey.isOnCurve(k)) return k; } };
export const pda = (seeds, p) => PublicKey.findProgramAddressSync(seeds, p)[0];
export const MGR = pk('manager'), QTR = pk('quoter'), CORE = pk('core'), MINT = pk('mint'), OWNER = pk('owner'), ALICE = pk('alice'), BOB = pk('bob'), TOKEN = m.spl_token.TOKEN_PROGRAM_ID;
export const ATA = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const ata = k => pda([k.toBytes(), TOKEN.toBytes(), MINT.toBytes()], ATA);
const tag = n => sha256(utf8('account:' + n)).slice(0, 8);
export const auth = pda([utf8('token_authority')], MGR), emitter = pda([utf8('emitter')], MGR);
// the accounts of a deployment: .put(address, owner, data)
export class State {
  constructor() {
    this.acc = new Map();
    this.put(pda([utf8('config')], MGR), MGR, cat(tag('Config'), [255], OWNER.toBytes(), [0], MINT.toBytes(), TOKEN.toBytes(), [0], le(1, 2), [1], [1], le(1, 16), [0], ata(auth).toBytes()));
    const mint = new Uint8Array(82); mint[44] = 9; mint[45] = 1; this.put(MINT, TOKEN, mint);
    for (const k of [ALICE, BOB]) this.put(ata(k), TOKEN, new Uint8Array(165));
  }
  put(k, owner, data) { this.acc.set(k.toBase58(), { owner: owner.toBase58(), lamports: 5000000, data }); }
  // an inbox item: status 0 not approved, [1, time] queued, 2 released
  inbox(id, amount, to, status) { this.put(id, MGR, cat(tag('InboxItem'), [1, 255], le(amount, 8), to.toBytes(), le(1, 16), status)); }
  instance(price) { this.put(pda([utf8('instance')], QTR), QTR, cat(tag('Instance'), OWNER.toBytes(), OWNER.toBytes(), BOB.toBytes(), le(price, 8))); }
  chain(id, max, base, native, gas) { this.put(pda([utf8('registered_chain'), be(id, 2)], QTR), QTR, cat(tag('RegisteredChain'), [255], le(max, 8), le(base, 8), le(native, 8), le(gas, 8))); }
  ntt(cost) { this.put(pda([utf8('registered_ntt'), MGR.toBytes()], QTR), QTR, cat(tag('RegisteredNtt'), [255], [0], le(cost, 4))); }
  client() { return new m.sdk.SolanaNtt('Devnet', 'Solana', new Connection(this.acc, 100), { coreBridge: CORE.toBase58(), ntt: { token: MINT.toBase58(), manager: MGR.toBase58(), transceiver: { wormhole: emitter.toBase58() }, quoter: QTR.toBase58() } }, '3.0.0'); }
}
// a transfer message from a chain, as its bytes and as the client reads it
export function message(chain, id, amount, to) {
  const ntt = cat([0x99, 0x4e, 0x54, 0x54], [8], be(amount, 8), new Uint8Array(32).fill(3), to.toBytes(), be(1, 2));
  const mgr = cat(new Uint8Array(32).fill(id), new Uint8Array(32).fill(4), be(ntt.length, 2), ntt);
  const wire = cat([0x99, 0x45, 0xff, 0x10], new Uint8Array(32).fill(5), MGR.toBytes(), be(mgr.length, 2), mgr, [0, 0]);
  const item = pda([utf8('inbox_item'), keccak(cat(be(chain, 2), mgr))], MGR);
  return { item, attestation: { payloadName: 'WormholeTransfer', emitterChain: B.toChain(chain), hash: new Uint8Array(32).fill(id), payload: B.deserializeLayout(payloads.get('Ntt:WormholeTransfer'), wire) } };
}
export const all = async g => { const l = []; for await (const u of g) { const t = u.transaction.transaction; l.push({ ixs: t.instructions ?? t.message.instructions, signers: u.transaction.signers ?? [] }); } return l; };
