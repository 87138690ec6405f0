// Stand-in for @wormhole-foundation/sdk-connect: amounts, addresses, transfer states and the base classes of routes.
export * from './sdk-base.mjs';
export * from './sdk-definitions.mjs';
import { amount as A0, chainToPlatform, toChain, encoding } from './sdk-base.mjs';
import { EvmAddress, UniversalAddress } from './sdk-definitions.mjs';
export const amount = { ...A0,
  parse: (s, decimals) => { const m = /^(\d*)(?:\.(\d*))?$/.exec(String(s)); if (!m || (m[1] === '' && !m[2])) throw new Error(`invalid amount ${s}`); const f = m[2] ?? ''; if (f.length > decimals && /[^0]/.test(f.slice(decimals))) throw new Error('overspecified amount'); return { amount: BigInt(m[1] + f.slice(0, decimals).padEnd(decimals, '0')).toString(), decimals }; },
  scale: (a, d) => ({ amount: (d < a.decimals ? BigInt(a.amount) / 10n ** BigInt(a.decimals - d) : BigInt(a.amount) * 10n ** BigInt(d - a.decimals)).toString(), decimals: d }), truncate: (a, d) => amount.scale(amount.scale(a, d), a.decimals),
};
export const TransferState = { Failed: -1, Created: 0, SourceInitiated: 1, SourceFinalized: 2, Attested: 3, DestinationInitiated: 4, DestinationQueued: 5, DestinationFinalized: 6 };
for (const [k, v] of Object.entries({ ...TransferState })) TransferState[v] = k;
const is = s => r => r.state === TransferState[s];
export const isSourceInitiated = is('SourceInitiated'), isSourceFinalized = is('SourceFinalized'), isAttested = is('Attested'), isRedeemed = is('DestinationInitiated'), isDestinationQueued = is('DestinationQueued'), isDestinationFinalized = is('DestinationFinalized'), isCompleted = is('DestinationFinalized'), isFailed = is('Failed');
const native = (chain, s) => typeof s !== 'string' ? s : chainToPlatform(toChain(chain)) === 'Evm' ? new EvmAddress(s) : new UniversalAddress(s, /^0x/.test(s) ? 'hex' : 'base58');
export const canonicalAddress = a => chainToPlatform(toChain(a.chain)) === 'Evm' ? new EvmAddress(a.address).toString() : encoding.b58.encode(a.address.toUniversalAddress().toUint8Array());
export const isNative = t => t === 'native', isTokenId = t => !!t && typeof t === 'object' && 'chain' in t && 'address' in t;
export class Wormhole { static tokenId(chain, a) { return { chain, address: a === 'native' ? 'native' : native(chain, a) }; } static parseAddress(chain, a) { return native(chain, a); } static chainAddress(chain, a) { return { chain, address: native(chain, a) }; } static canonicalAddress(a) { return canonicalAddress(a); } }
export const finality = { estimateFinalityTime: () => 1000 };
export const signSendWait = async (chain, xfer, signer) => { const l = []; for await (const u of xfer) l.push({ chain: chain.chain, txid: await chain.submit(u, signer) }); return l; };
class Route { static NATIVE_GAS_DROPOFF_SUPPORTED = false; static IS_AUTOMATIC = false; constructor(wh) { this.wh = wh; } }
export const routes = { Route, AutomaticRoute: class extends Route { static IS_AUTOMATIC = true; }, FinalizableRoute: class extends Route {}, ManualRoute: class extends Route {}, uniqueTokens: l => l };
