// Stand-in for @solana/spl-token: addresses, the instructions used, mints and transfer hooks.
import { PublicKey, TransactionInstruction, SystemProgram } from './web3.mjs';
import { cat, le, num, utf8, sha256 } from './bytes.mjs';
export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA'), TOKEN_2022_PROGRAM_ID = new PublicKey('TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb'), ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export function getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve = false, program = TOKEN_PROGRAM_ID, ata = ASSOCIATED_TOKEN_PROGRAM_ID) { if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner)) throw new Error('TokenOwnerOffCurveError'); return PublicKey.findProgramAddressSync([owner.toBytes(), program.toBytes(), mint.toBytes()], ata)[0]; }
export const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);
export async function getMint(c, k, _commitment, program = TOKEN_PROGRAM_ID) { const a = await c.getAccountInfo(k); if (!a) throw new Error('TokenAccountNotFoundError'); if (!a.owner.equals(program)) throw new Error('TokenInvalidAccountOwnerError'); return { address: k, supply: num(Uint8Array.from(a.data.subarray(36, 44)).reverse()), decimals: a.data[44], tlvData: a.data.length > 166 ? a.data.subarray(166) : Buffer.alloc(0) }; }
export function getTransferHook(m) { let o = 0; const b = m.tlvData; while (o + 4 <= b.length) { const t = b.readUInt16LE(o), n = b.readUInt16LE(o + 2); if (t === 14) return { authority: new PublicKey(b.subarray(o + 4, o + 36)), programId: new PublicKey(b.subarray(o + 36, o + 68)) }; if (t === 0) break; o += 4 + n; } return null; }
const M = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
export const createApproveInstruction = (account, delegate, owner, amount, signers = [], programId = TOKEN_PROGRAM_ID) => new TransactionInstruction({ programId, keys: [M(account, false, true), M(delegate, false, false), M(owner, !signers.length, false), ...signers.map(s => M(s.publicKey ?? s, true, false))], data: Buffer.from(cat(Uint8Array.of(4), le(amount, 8))) });
export const createAssociatedTokenAccountInstruction = (payer, ata, owner, mint, program = TOKEN_PROGRAM_ID, programId = ASSOCIATED_TOKEN_PROGRAM_ID) => new TransactionInstruction({ programId, keys: [M(payer, true, true), M(ata, false, true), M(owner, false, false), M(mint, false, false), M(SystemProgram.programId, false, false), M(program, false, false)], data: Buffer.alloc(0) });
export const createAssociatedTokenAccountIdempotentInstruction = (...a) => { const i = createAssociatedTokenAccountInstruction(...a); i.data = Buffer.from([1]); return i; };
export const getExtraAccountMetaAddress = (mint, program) => PublicKey.findProgramAddressSync([utf8('extra-account-metas'), mint.toBytes()], program)[0];
export const getExtraAccountMetas = a => { const b = a.data, n = b.readUInt32LE(12), r = []; for (let i = 0; i < n; i++) { const o = 16 + 35 * i; r.push({ discriminator: b[o], addressConfig: b.subarray(o + 1, o + 33), isSigner: !!b[o + 33], isWritable: !!b[o + 34] }); } return r; };
export const createExecuteInstruction = (programId, source, mint, destination, owner, state, amount) => new TransactionInstruction({ programId, keys: [source, mint, destination, owner, state].map(k => M(k, false, false)), data: Buffer.from(cat(sha256(utf8('spl-transfer-hook-interface:execute')).slice(0, 8), le(amount, 8))) });
export async function resolveExtraAccountMeta(c, m, keys, data, programId) {
  if (m.discriminator === 0) return M(new PublicKey(m.addressConfig), m.isSigner, m.isWritable);
  let p; if (m.discriminator === 1) p = programId; else p = keys[m.discriminator - 128].pubkey;
  const s = m.addressConfig, seeds = []; for (let i = 0; i < 32;) { const t = s[i]; if (t === 0) break; if (t === 1) { const n = s[i + 1]; seeds.push(Uint8Array.from(s.subarray(i + 2, i + 2 + n))); i += 2 + n; } else if (t === 2) { seeds.push(Uint8Array.from(data.subarray(s[i + 1], s[i + 1] + s[i + 2]))); i += 3; } else if (t === 3) { seeds.push(keys[s[i + 1]].pubkey.toBytes()); i += 2; } else if (t === 4) { const a = await c.getAccountInfo(keys[s[i + 1]].pubkey); seeds.push(Uint8Array.from(a.data.subarray(s[i + 2], s[i + 2] + s[i + 3]))); i += 4; } else throw new Error('TokenTransferHookInvalidSeed'); }
  return M(PublicKey.findProgramAddressSync(seeds, p)[0], m.isSigner, m.isWritable);
}
