// Stand-in for @wormhole-foundation/sdk-solana: addresses and unsigned transactions.
import { PublicKey } from './web3.mjs';
import { UniversalAddress } from './sdk-definitions.mjs';
export class SolanaAddress { constructor(a) { this.k = a instanceof SolanaAddress ? a.k : a instanceof UniversalAddress ? new PublicKey(a.toUint8Array()) : new PublicKey(a); } unwrap() { return this.k; } toString() { return this.k.toBase58(); } toUint8Array() { return this.k.toBytes(); } toUniversalAddress() { return new UniversalAddress(this.k.toBytes()); } toNative() { return this; } equals(o) { return this.k.equals(new SolanaAddress(o).k); } }
export const SolanaPlatform = { async getDecimals(_c, conn, mint) { const a = await conn.getAccountInfo(new SolanaAddress(mint).k); if (!a) throw new Error('could not fetch token details'); return a.data[44]; }, async chainFromRpc() { return ['Devnet', 'Solana']; } };
export class SolanaUnsignedTransaction { constructor(transaction, network, chain, description, parallelizable = false) { Object.assign(this, { transaction, network, chain, description, parallelizable }); } }
