// Stand-in for @wormhole-foundation/sdk-solana-core: the core bridge's addresses.
import { PublicKey } from './web3.mjs';
import { utf8 } from './bytes.mjs';
const pda = (s, p) => PublicKey.findProgramAddressSync(s, new PublicKey(p))[0];
export const utils = {
  derivePostedVaaKey: (core, hash) => pda([utf8('PostedVAA'), hash], core), deriveFeeCollectorKey: core => pda([utf8('fee_collector')], core), deriveWormholeBridgeDataKey: core => pda([utf8('Bridge')], core), deriveWormholeEmitterKey: p => pda([utf8('emitter')], p), deriveEmitterSequenceKey: (e, core) => pda([utf8('Sequence'), new PublicKey(e).toBytes()], core),
  getWormholeDerivedAccounts(emitterProgram, core) { const wormholeEmitter = utils.deriveWormholeEmitterKey(emitterProgram); return { wormholeBridge: utils.deriveWormholeBridgeDataKey(core), wormholeEmitter, wormholeSequence: utils.deriveEmitterSequenceKey(wormholeEmitter, core), wormholeFeeCollector: utils.deriveFeeCollectorKey(core) }; },
};
export class SolanaWormholeCore { constructor(network, chain, connection, contracts) { this.address = contracts.coreBridge; this.chain = chain; this.connection = connection; } async *postVaa(sender, vaa) { SolanaWormholeCore.posted.push(vaa); } }
SolanaWormholeCore.posted = [];
