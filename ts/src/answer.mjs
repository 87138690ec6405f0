// answer.mjs <request> <answers>: what the TypeScript Solana client does in given states. One line per call:
// T <transactions> | V <value> | E <message>
import fs from 'fs';
import { load } from './bundle.mjs';
const [, , inp, outp] = process.argv;
let m; try { m = await load(['defs', 'lib', 'sdk']); } catch (e) { console.log('cannot load the TypeScript sources: ' + e.message); process.exit(3); }
const { PublicKey, Connection, Keypair, Transaction, TransactionInstruction } = m.web3, { UniversalAddress, payloads } = m.sdk_definitions, { SolanaAddress } = m.sdk_solana, B = m.sdk_base;
const un = h => Uint8Array.from(Buffer.from(h, 'hex')), hx = b => Buffer.from(b).toString('hex');
const lines = fs.readFileSync(inp, 'utf8').split('\n');
const keys = [], blobs = [], states = [], out = []; let net;
const LAY = () => payloads.get('Ntt:WormholeTransfer');
const arg = s => {
  const [t, ...r] = s.split(':'), v = r.join(':');
  switch (t) {
    case 'k': return new SolanaAddress(un(v)); case 'p': return new PublicKey(un(v)); case 'n': return BigInt(v); case 'i': return Number(v); case 'c': return B.toChain(Number(v)); case 'z': return v === '1'; case 's': return v;
    case 'u': return { chain: B.toChain(Number(r[0])), address: new UniversalAddress(un(r[1])) };
    case 'a': return { payloadName: 'WormholeTransfer', emitterChain: B.toChain(Number(r[0])), hash: un(r[1]), payload: B.deserializeLayout(LAY(), un(r[2])) };
    case 'm': return B.deserializeLayout(LAY(), un(v)).nttManagerPayload;
    case 'o': return { queue: r[0] === '1', automatic: r[1] === '1', ...(r[2] ? { gasDropoff: BigInt(r[2]) } : {}) };
    case 'w': return { payer: new SolanaAddress(un(r[0])), owner: new SolanaAddress(un(r[1])) };
    case 'y': return { payer: new PublicKey(un(v)) };
    case 'I': return { payer: new PublicKey(un(r[0])), owner: new PublicKey(un(r[1])), chain: B.toChain(Number(r[2])), mint: new PublicKey(un(r[3])), outboundLimit: BigInt(r[4]), tokenProgram: new PublicKey(un(r[5])), mode: r[6] };
    case 'J': return { mint: new PublicKey(un(r[0])), outboundLimit: BigInt(r[1]), mode: r[2] };
    case 'l': return [arg(v)];
  }
  throw new Error('bad argument ' + s);
};
const val = v => {
  if (v === null || v === undefined) return 'null'; if (typeof v === 'boolean' || typeof v === 'number' || typeof v === 'bigint' || typeof v === 'string') return String(v);
  if (v.toBytes) return hx(v.toBytes()); if (v.toUint8Array) return hx(v.toUint8Array()); if (v instanceof Uint8Array) return hx(v);
  if (v.chain && v.address) return `${B.toChainId(v.chain)}/${val(v.address)}`;
  return Object.keys(v).sort().map(k => `${k}=${val(v[k])}`).join(',');
};
const ixs = l => l.map(i => `${hx(i.programId.toBytes())}:${i.keys.map(k => hx(k.pubkey.toBytes()) + (k.isSigner ? 1 : 0) + (k.isWritable ? 1 : 0)).join(',')}:${hx(i.data)}`).join('&');
const tx = u => {
  const { transaction: t, signers = [] } = u.transaction; const list = t.instructions ?? t.message.instructions, payer = t.feePayer ?? t.message?.payerKey;
  return `${payer ? hx(payer.toBytes()) : ''}|${signers.map(s => hx(s.publicKey.toBytes())).join(',')}|${ixs(list)}`;
};
let cur, conn;
for (const line of lines) {
  const f = line.split(' ');
  if (f[0] === 'N') net = Object.fromEntries(f.slice(1).map(x => x.split('=')).map(([k, v]) => [k, new PublicKey(un(v)).toBase58()]));
  else if (f[0] === 'K') keys.push(new PublicKey(un(f[1])).toBase58());
  else if (f[0] === 'B') blobs.push({ owner: keys[Number(f[1])], lamports: Number(f[2]), data: un(f[3] ?? '') });
  else if (f[0] === 'S') { const acc = new Map(); for (const x of f.slice(2)) { const [k, b] = x.split('='); acc.set(keys[Number(k)], blobs[Number(b)]); } conn = new Connection(acc, Number(f[1])); }
  else if (f[0] === 'C') {
    let r;
    try {
      Keypair.restart();
      const ntt = new m.sdk.SolanaNtt('Devnet', 'Solana', conn, { coreBridge: net.core, ntt: { token: net.token, manager: net.manager, transceiver: { wormhole: f[1] === 'x' ? net.xcvr : net.emitter }, quoter: net.quoter } }, '3.0.0');
      const [o, name] = f[2].split('.'), args = f.slice(3).map(arg);
      let x;
      if (o === 'lib') x = m.lib.NTT[name](ntt.program, ...args); else { const t = o === 'ntt' || o === 'first' ? ntt : o === 'x' ? await ntt.getTransceiver(0) : ntt.quoter; if (typeof t[name] !== 'function') throw new Error(`no method ${name}`); x = t[name](...args); }
      if (x && x[Symbol.asyncIterator]) { const l = []; for await (const u of x) { l.push(tx(u)); if (o === 'first') break; } r = 'T ' + l.join(';'); }
      else { x = await x; r = x instanceof TransactionInstruction ? `T ||${ixs([x])}` : 'V ' + val(x); }
    } catch (e) { r = 'E ' + String(e?.message ?? e).replace(/\s+/g, ' ').slice(0, 200); }
    out.push(r);
  }
}
fs.writeFileSync(outp, out.join('\n') + '\n');
process.exit(0);
