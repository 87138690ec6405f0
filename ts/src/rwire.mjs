// One message between two deployments, as the SDK hands it out.
export function parts(m, s, d) {
  const { UniversalAddress, EvmAddress } = m.sdk_definitions, enc = m.sdk_base.encoding, ua = (t, a) => t.chain === 'Solana' ? new UniversalAddress(enc.b58.decode(a)) : new EvmAddress(a).toUniversalAddress(), any = n => new UniversalAddress(new Uint8Array(32).fill(n));
  const dec = 8, amt = 123456700n, mm = { id: new Uint8Array(32).fill(1), sender: any(2), payload: { trimmedAmount: { decimals: dec, amount: amt }, sourceToken: ua(s, s.token), recipientAddress: any(4), recipientChain: d.chain, additionalPayload: new Uint8Array(0) } };
  const payload = { sourceNttManager: ua(s, s.manager), recipientNttManager: ua(d, d.manager), nttManagerPayload: mm, transceiverPayload: new Uint8Array(0) }, common = { emitterChain: s.chain, emitterAddress: s.chain === 'Solana' ? any(9) : ua(s, s.transceiver[0].address), sequence: 42n, protocolName: 'Ntt' };
  return { dec, amt, plain: { ...common, payloadName: 'WormholeTransfer', payload }, relayed: { ...common, payloadName: 'WormholeTransferStandardRelayer', payload: { targetChainId: d.chain, payload } } };
}
