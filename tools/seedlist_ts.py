DL = "sdk/definitions/src/layouts/"
bug("c44-long-payload", "C44", [(DL + "transfer.ts", "        const additionalPayloadLen = deserializeNum(val, 2);\n        return val.slice(2, 2 + additionalPayloadLen);", "        const payload = val.subarray(2);\n        return payload.slice(0, val[1]! || payload.byteLength);")],
    "a transfer carries an additional payload of more than 256 bytes that is not a multiple of 256 long",
    "decoding drops all but the first (length mod 256) bytes of the additional payload",
    """
for (const n of [0, 1, 2, 255, 256, 257, 300, 600]) {
  const v = { trimmedAmount: { decimals: 8, amount: 5n }, sourceToken: addr(1), recipientAddress: addr(2), recipientChain: 'Solana', additionalPayload: new Uint8Array(n).fill(7) };
  const b = B.serializeLayout(D.nativeTokenTransferLayout, v), w = B.deserializeLayout(D.nativeTokenTransferLayout, b);
  check(hex(w.additionalPayload) === hex(v.additionalPayload), `a payload of ${n} bytes comes back with ${w.additionalPayload.length}`);
}
""", ts=True)
bug("c44-version-text", "C44", [("sdk/definitions/src/ntt.ts", "return { major: Number(major), minor: Number(minor), patchAndTag };", "return { major: major!, minor: minor!, patchAndTag };")],
    "a minor version of two digits",
    "versions are compared as text, so a contract at 1.10.0 is refused by an SDK at 1.2.0 and 1.9.0 is accepted by an SDK at 1.10.0",
    """
for (const [t, a, want] of [['1.1.0', '1.0.0', true], ['1.0.0', '1.1.0', false], ['2.0.0', '1.0.0', false], ['1.10.0', '1.2.0', true], ['1.9.0', '1.10.0', false]]) check(D.Ntt.abiVersionMatches(t, a) === want, `abiVersionMatches(${t}, ${a}) is not ${want}`);
""", ts=True)
SL = "solana/ts/lib/"
SS = "solana/ts/sdk/ntt.ts"
bug("c45-session-chain", "C45", [(SL + "ntt.ts", "              chainToBytes(args.recipientChain.id),", "              new Uint8Array([0, args.recipientChain.id]),")],
    "the destination chain's number is 256 or more",
    "the session authority is derived from the low byte of the chain number, so the approval goes to the wrong account and every transfer to such a chain fails",
    """
for (const chain of [2, 255, 256, 258, 10002]) {
  const a = m.lib.NTT.transferArgs(405n, { chain: B.toChain(chain), address: new UniversalAddress(new Uint8Array(32).fill(9)) }, true);
  const want = pda([utf8('session_authority'), ALICE.toBytes(), keccak(cat(be(405, 8), be(chain, 2), new Uint8Array(32).fill(9), [1]))], MGR);
  check(m.lib.NTT.pdas(MGR).sessionAuthority(ALICE, a).equals(want), `another session authority for chain ${chain}`);
}
""", ts=True)
bug("c45-redeem-reverts", "C45", [(SS, """          chain: emitterChain,
          revertOnDelay: false,""", """          chain: emitterChain,
          revertOnDelay: !(await this.getIsTransferInboundQueued(wormholeNTT)),""")],
    "a redeemed transfer exceeds the inbound limit",
    "the release in the redeeming transaction insists on immediate release, so the whole transaction fails and the transfer is never queued",
    """
const st = new State(), x = message(2, 7, 100, BOB);
for (const queued of [false, true]) {
  if (queued) st.inbox(x.item, 1000, BOB, cat([1], le(99, 8)));
  const l = await all(st.client().redeem([x.attestation], new SolanaAddress(ALICE.toBytes())));
  const i = l.at(-1).ixs.at(-1);
  check(i.data.length === 9 && i.data[8] === 0, 'the redeeming transaction reverts when the transfer is delayed');
}
""", ts=True)
bug("c46-executed-queued", "C46", [(SS, "    return !!inboxItem.releaseStatus.released;", "    return !inboxItem.releaseStatus.notApproved;")],
    "an inbound transfer is approved and waiting in the queue",
    "a transfer that is still queued is reported as executed, so nobody completes it",
    """
const x = message(2, 7, 100, BOB);
for (const [status, want] of [[[0], false], [cat([1], le(99, 8)), false], [[2], true]]) {
  const st = new State();
  st.inbox(x.item, 1000, BOB, status);
  check(await st.client().getIsExecuted(x.attestation) === want, `status ${status[0]} is not reported as ${want ? '' : 'not '}executed`);
}
check(await new State().client().getIsExecuted(x.attestation) === false, 'a message nobody has seen is reported as executed');
""", ts=True)
bug("c46-quote-dropoff", "C46", [(SL + "quoter.ts", "amount.fromBaseUnits(gasDropoff ?? 0n, 18)", "amount.fromBaseUnits((gasDropoff ?? 0n) - (gasDropoff ?? 0n) % 10n ** 18n, 18)")],
    "the requested gas drop-off is not a whole number of native tokens",
    "the fraction of the drop-off is left out of the quote, so the quoted fee does not cover the relay and the request fails",
    """
const st = new State();
st.instance(150000000n); st.chain(2, 10n ** 9n, 1250000n, 3000000000n, 30000000000n); st.ntt(300000);
for (const gwei of [0n, 1n, 500000000n, 999999999n, 1000000000n]) {
  const got = await st.client().quoteDeliveryPrice('Ethereum', { queue: false, automatic: true, gasDropoff: gwei * 10n ** 9n });
  const usd = 1250000n + 3000000000n * (gwei + 30n * 300000n) / 10n ** 9n, need = usd * 10n ** 9n / 150000000n;
  check(got >= need, `the quote for ${gwei} gwei is ${got}, the relay costs ${need}`);
}
""", ts=True)
ES = "evm/ts/src/ntt.ts"
bug("c47-approve-difference", "C47", [(ES, "        this.managerAddress,\n        amount\n      );", "        this.managerAddress,\n        amount - allowance\n      );")],
    "the sender already granted the manager a non-zero allowance that is too small for the transfer",
    "the client approves only the missing difference; approve replaces the old allowance, so the manager may not take the tokens and the transfer fails",
    """
for (const allowance of [0n, 1n, 40n, 99n, 100n]) {
  const c = client({ allowance: () => [allowance], decimals: () => [18n], quoteDeliveryPrice: () => [[7n], 7n], isPaused: () => [false] });
  const l = await all(c.transfer(new EvmAddress(USER), 100n, { chain: 'Bsc', address: new UniversalAddress(new Uint8Array(32).fill(9)) }, { queue: true, automatic: false }));
  let have = allowance;
  for (const tx of l) if (tx.to.toLowerCase() === TOK) have = decode(ERC20, tx).args[1];
  check(have >= 100n, `with an allowance of ${allowance} the manager may take ${have} of 100`);
}
""", ts=True)
bug("c47-peer-limit", "C47", [(ES, "      inboundLimit: await this.getInboundLimit(chain),", "      inboundLimit: await this.getCurrentInboundCapacity(chain),")],
    "part of the inbound limit of the chain is used up",
    "a peer is reported with what is left of its inbound limit in place of the limit",
    """
for (const cap of [5n * 10n ** 18n, 3n * 10n ** 18n, 0n]) {
  const c = client({ decimals: () => [18n], getPeer: () => [{ peerAddress: 9n, tokenDecimals: 9n }], getCurrentInboundCapacity: () => [cap], getInboundLimitParams: () => [{ limit: (5n * 10n ** 8n << 8n) | 8n, currentCapacity: ((cap / 10n ** 10n) << 8n) | 8n, lastTxTimestamp: 5n }] });
  const p = await c.getPeer('Bsc');
  check(p.inboundLimit === 5n * 10n ** 18n && p.tokenDecimals === 9, `the limit is reported as ${p.inboundLimit} with a capacity of ${cap}`);
}
""", ts=True)
bug("c47-relayed-queued", "C47", [(ES, "    return !(await this.getIsTransferInboundQueued(attestation));", "    return !(\n      attestation.payloadName === \"WormholeTransfer\" &&\n      (await this.getIsTransferInboundQueued(attestation))\n    );")],
    "a message delivered by the standard relayer exceeded the inbound limit and is queued",
    "a queued transfer attested by the standard relayer is reported as executed, so nobody completes it",
    """
const ua = n => new UniversalAddress(new Uint8Array(32).fill(n));
const mm = { id: new Uint8Array(32).fill(1), sender: ua(2), payload: { trimmedAmount: { decimals: 8, amount: 5n }, sourceToken: ua(3), recipientAddress: ua(4), recipientChain: 'Ethereum', additionalPayload: new Uint8Array(0) } };
const payload = { sourceNttManager: ua(5), recipientNttManager: ua(6), nttManagerPayload: mm, transceiverPayload: new Uint8Array(0) };
for (const queued of [false, true]) for (const relayed of [false, true]) {
  const c = client({ decimals: () => [18n], rateLimitDuration: () => [86400n], isMessageExecuted: () => [true], getInboundQueuedTransfer: () => [{ amount: queued ? 5n << 8n | 8n : 0n, txTimestamp: queued ? 1000n : 0n, recipient: queued ? 4n : 0n }] });
  const att = { emitterChain: 'Bsc', emitterAddress: ua(7), sequence: 1n, payloadName: relayed ? 'WormholeTransferStandardRelayer' : 'WormholeTransfer', payload: relayed ? { targetChainId: 'Ethereum', payload } : payload };
  check(await c.getIsExecuted(att) === !queued, `${queued ? 'a queued' : 'an executed'} transfer${relayed ? ' of the relayer' : ''} is not reported as such`);
}
""", ts=True)
RA, RM, RT = ("sdk/route/src/" + f for f in ["automatic.ts", "manual.ts", "types.ts"])
ROUTES = """
const fake = (chain, answers, log = []) => ({ chain, network: 'Testnet', config: { nativeTokenDecimals: chain === 'Solana' ? 9 : 18 }, supportsProtocol: () => true, log, getProtocol: async (p, o) => { log.push(o.ntt.manager); return answers; }, submit: async () => 'tx' });
const ua = n => new UniversalAddress(new Uint8Array(32).fill(n)), ev = n => '0x' + n.toString(16).repeat(20);
const dep = (chain, n) => ({ chain, token: ev(0x10 + n), manager: ev(0x20 + n), transceiver: [{ type: 'wormhole', address: ev(0x30 + n) }] });
"""
bug("c48-capacity-units", "C48", [(RM, "        NttRoute.isCapacityThresholdExceeded(amount.units(dstAmount), capacity)", "        NttRoute.isCapacityThresholdExceeded(\n          amount.units(params.normalizedParams.amount),\n          capacity\n        )")],
    "source and destination token have different decimals and the amount is near the inbound capacity",
    "the manual route compares the amount in source units with the destination's capacity, so the warning is missing or raised for nothing",
    ROUTES + """
for (const [sd, dd, amt, cap, warn] of [[9, 9, '100', 10n ** 11n, true], [9, 9, '10', 10n ** 11n, false], [6, 18, '100', 100n * 10n ** 18n, true], [18, 6, '1', 10n ** 9n, false]]) {
  const cfg = { tokens: { T: [dep('Ethereum', 1), dep('Bsc', 2)] } }, K = m.route.nttManualRoute(cfg), d = { getRateLimitDuration: async () => 86400n, getCurrentInboundCapacity: async () => cap };
  const r = new K({}), rq = { source: { id: C.Wormhole.tokenId('Ethereum', ev(0x11)), decimals: sd }, destination: { id: C.Wormhole.tokenId('Bsc', ev(0x12)), decimals: dd }, fromChain: fake('Ethereum', d), toChain: fake('Bsc', d) };
  const v = await r.validate(rq, { amount: amt }), q = await r.quote(rq, v.params);
  check(!!q.warnings?.length === warn, `${amt} with ${sd}/${dd} decimals and a capacity of ${cap}: ${warn ? 'no warning' : 'a warning'}`);
}
""", ts=True)
bug("c48-queued-by-other", "C48", [(RA, "    if (isRedeemed(receipt) || isDestinationQueued(receipt)) {", "    if (\n      isRedeemed(receipt) ||\n      (isDestinationQueued(receipt) &&\n        receipt.queueReleaseTime.getTime() > Date.now())\n    ) {")],
    "a queued transfer is released by somebody else after its release time and tracked again",
    "a receipt whose release time has passed is never looked up again, so the transfer is reported as queued for ever",
    ROUTES + """
const cfg = { tokens: { T: [dep('Ethereum', 1), dep('Bsc', 2)] } }, K = m.route.nttAutomaticRoute(cfg), T = C.TransferState;
for (const age of [-3600, 3600]) for (const queued of [true, false]) {
  const when = Math.floor(Date.now() / 1000) - age, n = { getIsApproved: async () => true, getIsExecuted: async () => !queued, getInboundQueuedTransfer: async () => queued ? { rateLimitExpiryTimestamp: when } : null };
  const r = new K({ getChain: c => fake(c, n) }), receipt = { from: 'Ethereum', to: 'Bsc', state: T.DestinationQueued, originTxs: [], queueReleaseTime: new Date(when * 1000), attestation: { id: {}, attestation: { payloadName: 'WormholeTransfer', emitterChain: 'Ethereum', payload: { nttManagerPayload: {} } } }, params: { normalizedParams: { destinationContracts: { manager: ev(0x22) } } } };
  let last; for await (const x of r.track(receipt)) last = x;
  check(last.state === (queued ? T.DestinationQueued : T.DestinationFinalized), `${queued ? 'a queued' : 'a released'} transfer is reported as ${T[last.state]}`);
}
""", ts=True)
bug("c48-manager-chain", "C48", [(RT, "          tc.manager.toLowerCase() === address.toLowerCase() &&\n          tc.chain === srcManager.chain", "          tc.manager.toLowerCase() === address.toLowerCase() &&\n          tokens.some(({ chain }) => chain === srcManager.chain)")],
    "two tokens whose managers have the same address on different chains are configured",
    "a resumed transfer is matched with another token's deployment and completed on the wrong contracts",
    ROUTES + """
const N = m.route.NttRoute, t = (c, x, y) => ({ ...dep(c, y), manager: ev(x) });
const cfg = { tokens: { A: [t('Ethereum', 0x21, 1), t('Bsc', 0x22, 2), t('Polygon', 0x23, 3)], B: [t('Bsc', 0x21, 4), t('Ethereum', 0x25, 5), t('Polygon', 0x26, 6)] } };
for (const l of Object.values(cfg.tokens)) for (const s of l) for (const d of l) {
  const g = N.resolveDestinationNttContracts(cfg, { chain: s.chain, address: C.Wormhole.parseAddress(s.chain, s.manager) }, d.chain);
  check(g.manager === d.manager && g.token === d.token, `${s.chain} ${s.manager} to ${d.chain} resolves to ${g.manager}`);
}
""", ts=True)
