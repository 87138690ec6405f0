N = "evm/src/NttManager/NttManager.sol"
BASE = "evm/src/NttManager/ManagerBase.sol"
REG = "evm/src/NttManager/TransceiverRegistry.sol"
RL = "evm/src/libraries/RateLimiter.sol"
WT = "evm/src/Transceiver/WormholeTransceiver/WormholeTransceiver.sol"
ST = "evm/src/libraries/TransceiverStructs.sol"
IMP = "evm/src/libraries/Implementation.sol"
GV = "evm/src/wormhole/Governance.sol"

bug("c33-fee-on-lock", "C33", [(N, """            // correct amount for potential transfer fees
            amount = balanceAfter - balanceBefore;
            if (mode == Mode.BURNING) {""", """            if (mode == Mode.BURNING) {
                // correct amount for potential transfer fees
                amount = balanceAfter - balanceBefore;""")],
    "a fee-charging token on a locking manager",
    "the manager announces the nominal amount although less arrived, so it owes more than it holds",
    """
const b = manager({ fee: 1000n }); // the token keeps 10% of every transfer
ok(b.send(U1, 10n * E18), 'transfer');
const held = b.bal(b.addr), sent = b.t[0].sent[0].msg;
check(held === 9n * E18, 'the manager holds ' + held);
check(BigInt('0x' + sent.slice(66 * 2 + 10, 66 * 2 + 26)) === 900000000n, 'announced ' + BigInt('0x' + sent.slice(66 * 2 + 10, 66 * 2 + 26)) + ' of 900000000');
""", evm=True)

bug("c34-removed-still-votes", "C34", [(BASE, """        uint64 enabledTransceiverBitmap = _getEnabledTransceiversBitmap();
        return
            _getMessageAttestationsStorage()[digest].attestedTransceivers & enabledTransceiverBitmap;""", """        return _getMessageAttestationsStorage()[digest].attestedTransceivers;""")],
    "a transceiver attests to a message and is removed before the message reaches the threshold",
    "an attestation of a removed transceiver still counts towards the threshold",
    """
const b = manager({ n: 3 }); ok(b.m.tx(D, 'setThreshold', [2n]), 'setThreshold');
b.tok.give(b.addr, 50n * E18); const m = message(1n, 500n);
ok(b.attest(0, m), 'first attestation'); ok(b.m.tx(D, 'removeTransceiver', [b.t[0].addr]), 'removal');
ok(b.attest(1, m), 'second attestation'); check(b.bal(SINK) === 0n, 'one enabled attestation released ' + b.bal(SINK)); no(b.exec(m), 'execution with one enabled attestation');
ok(b.attest(2, m), 'third attestation'); check(b.bal(SINK) === 500n * 10n ** 10n, 'two enabled attestations released ' + b.bal(SINK));
""", evm=True)

bug("c35-raise-refills", "C35", [(RL, """            newCurrentCapacity = currentCapacity + difference;""", """            newCurrentCapacity = currentCapacity.saturatingAdd(difference + difference).min(newLimit);""")],
    "the owner raises a limit while part of the window's capacity is consumed",
    "raising a limit also gives back part of what was consumed, so more than the limit leaves within a window",
    """
const b = manager(); ok(b.send(U1, 100n * E18), 'transfer of the whole limit');
ok(b.m.tx(D, 'setOutboundLimit', [110n * E18]), 'raise');
check(b.m.view('getCurrentOutboundCapacity') === 10n * E18, 'capacity after the raise is ' + b.m.view('getCurrentOutboundCapacity'));
no(b.send(U1, 15n * E18, { queue: false }), 'a transfer above the remaining capacity');
""", evm=True)

bug("c36-paused-release", "C36", [(N, """    function completeInboundQueuedTransfer(
        bytes32 digest
    ) external virtual nonReentrant whenNotPaused {""", """    function completeInboundQueuedTransfer(
        bytes32 digest
    ) external virtual nonReentrant {""")],
    "an inbound transfer was queued before the pause and is completed during it",
    "a paused manager still pays out queued inbound transfers",
    """
const b = manager({ inLimit: E18 }); b.tok.give(b.addr, 50n * E18); const m = message(1n, 200000000n);
ok(b.attest(0, m), 'attestation'); check(b.bal(SINK) === 0n, 'should be queued'); b.later(86400n); ok(b.m.tx(D, 'pause'), 'pause');
no(b.m.tx(EVIL, 'completeInboundQueuedTransfer', [digest(3n, m)]), 'a completion while paused');
ok(b.m.tx(D, 'unpause'), 'unpause'); ok(b.m.tx(EVIL, 'completeInboundQueuedTransfer', [digest(3n, m)]), 'completion'); check(b.bal(SINK) === 2n * E18, 'paid ' + b.bal(SINK));
""", evm=True)

bug("c37-resigned-vaa", "C37", [(WT, """        if (isVAAConsumed(vm.hash)) {
            revert TransferAlreadyCompleted(vm.hash);
        }
        _setVAAConsumed(vm.hash);

        // emit `ReceivedMessage` event""", """        bytes32 vaaId = keccak256(encodedMessage);
        if (isVAAConsumed(vaaId)) {
            revert TransferAlreadyCompleted(vm.hash);
        }
        _setVAAConsumed(vaaId);

        // emit `ReceivedMessage` event""")],
    "the same VAA is submitted again with another sufficient set of guardian signatures",
    "replay protection covers the signatures too, so the same message is delivered to the manager twice",
    """
const b = transceiver(); ok(b.x.tx(D, 'setWormholePeer', [3n, 0xb5n], b.fee), 'setWormholePeer');
const body = envelope(PEER, b.MGR, encMessage(message(1n, 5n)));
const one = H.vaa(3n, 0xb5n, 1n, body), two = one.slice(); two[0] = 2; // other signatures, same hash
ok(b.x.tx(EVIL, 'receiveMessage', [one]), 'delivery'); no(b.x.tx(EVIL, 'receiveMessage', [one]), 'the same VAA again');
no(b.x.tx(EVIL, 'receiveMessage', [two]), 'the same VAA with other signatures'); check(b.got.length === 1, 'delivered ' + b.got.length + ' times');
""", evm=True)

bug("c37-skip-special", "C37", [(WT, """        } else if (!weIns.shouldSkipRelayerSend && isSpecialRelayingEnabled(recipientChain)) {""", """        } else if (isSpecialRelayingEnabled(recipientChain)) {""")],
    "a transfer asks to skip relaying towards a chain with special relaying enabled",
    "the skip flag is ignored: the special relayer is called without payment and the transfer fails",
    """
const b = transceiver(); ok(b.x.tx(D, 'setWormholePeer', [3n, 0xb5n], b.fee), 'setWormholePeer'); ok(b.x.tx(D, 'setIsSpecialRelayingEnabled', [3n, true]), 'enable special relaying');
const ins = { index: 0n, payload: hex('01') }, q = b.x.view('quoteDeliveryPrice', 3n, ins), n = b.core.sent.length; check(q === b.fee, 'quote ' + q);
ok(b.x.tx(b.MGR, 'sendMessage', [3n, ins, encMessage(message(1n, 5n)), PEER, 0x56n], q), 'send without relaying'); check(b.core.sent.length === n + 1 && b.spc.sent.length === 0, 'wrong route');
""", evm=True)

bug("c38-duplicate-instruction", "C38", [(ST, """            if (i != 0 && instructionIndex <= lastIndex) {""", """            if (lastIndex != 0 && instructionIndex <= lastIndex) {""")],
    "an instruction list addressing transceiver 0 more than once",
    "an instruction list whose indices are not strictly increasing is accepted, the later entry silently replacing the first",
    """
const b = manager({ perByte: 1n });
no(b.send(U1, E18, { ins: hex('02' + '000111' + '00020203') }), 'an instruction list with index 0 twice');
no(b.send(U1, E18, { ins: hex('02' + '010111' + '00020203') }), 'a descending instruction list');
ok(b.send(U1, E18, { ins: hex('02' + '000111' + '01020203') }), 'an ordered instruction list');
""", evm=True)

bug("c39-reused-index", "C39", [(REG, """                index: _numTransceivers.registered
            });""", """                index: _numTransceivers.enabled
            });""")],
    "a transceiver is removed before another new one is added",
    "the new transceiver gets an index already in use, so the two share one vote and one instruction slot",
    """
const b = manager({ n: 3 }); ok(b.m.tx(D, 'removeTransceiver', [b.t[0].addr]), 'removal'); const x = new H.Mock(b.K, b.W, 0xafn, { price: 1n });
ok(b.m.tx(D, 'setTransceiver', [x.addr]), 'a fourth transceiver'); ok(b.m.tx(D, 'setThreshold', [2n]), 'setThreshold'); b.tok.give(b.addr, 50n * E18);
const m = message(1n, 500n); ok(b.attest(2, m), 'attestation'); ok(b.m.tx(x.addr, 'attestationReceived', [3n, PEER, m]), 'attestation of the new transceiver'); check(b.bal(SINK) > 0n, 'two attestations did not release the transfer');
""", evm=True)

bug("c40-by-position", "C40", [(BASE, """                transceiverInstructions[transceiverInfos[transceiverAddr].index],
                nttManagerMessage,""", """                transceiverInstructions[i],
                nttManagerMessage,""")],
    "a transceiver was removed, so that positions in the enabled list differ from registration indices",
    "transceivers are handed instructions addressed to other transceivers",
    """
const b = manager({ n: 3, perByte: 1n }); ok(b.m.tx(D, 'removeTransceiver', [b.t[0].addr]), 'removal');
ok(b.send(U1, E18, { ins: hex('02' + '0101aa' + '0202bbbb') }), 'transfer');
check(b.t[1].sent[0].ins === 'aa' && b.t[2].sent[0].ins === 'bbbb', 'instructions handed out: ' + b.t[1].sent[0].ins + ' / ' + b.t[2].sent[0].ins);
""", evm=True)

bug("c41-checked-late", "C41", [(GV, """        _replayProtect(vm.hash);

        return vm;""", """        return vm;"""), (GV, """        if (!success) {
            revert(string(returnData));
        }
    }""", """        if (!success) {
            revert(string(returnData));
        }
        _replayProtect(verified.hash);
    }""")],
    "the governed contract calls back into governance with the same VAA during the call",
    "the VAA is marked as used only after the governed call, so a re-entrant submission performs the call again",
    """
const K = new H.Kit(), W = new R.World(), GOV = 0x6000n, TGT = 0x6100n; new H.Core(K, W, 0x91n, { fee: 0n, chainId: 2n }); W.next = GOV; const con = K.con('Governance'), g = new H.Inst(K, W, con, con.deploy(W, D, [0x91n]));
const pk = R.cat(hex('000000000000000047656e6572616c507572706f7365476f7665726e616e6365'), u(1n, 1), u(2n, 2), u(g.addr, 20), u(TGT, 20), u(1n, 2), hex('aa')), v = H.vaa(1n, 4n, 1n, pk); let n = 0, inner;
W.account(TGT).native = () => { if (++n === 1) inner = g.tx(EVIL, 'performGovernance', [v]).ok; return new Uint8Array(0); };
g.tx(EVIL, 'performGovernance', [v]); check(!inner, 'the same VAA performed its call again from inside that call'); no(g.tx(EVIL, 'performGovernance', [v]), 'the same VAA again');
""", evm=True)

bug("c42-flag-sticks", "C42", [(IMP, """        if (!this.getMigratesImmutables()) {
            _checkImmutables();
        }
        _setMigratesImmutables(false);
""", """        if (!this.getMigratesImmutables()) {
            _checkImmutables();
            _setMigratesImmutables(false);
        }
""")],
    "an earlier upgrade legitimately migrated immutables, then a second upgrade brings a wrong configuration",
    "the permission to change immutables is never withdrawn, so a later upgrade with another token or mode is accepted",
    """
const b = manager(), impl = (n, a) => b.K.con(n).deploy(b.W, D, a), cfg = [0x70n, 0n, 2n, 86400n, false], bad = [0x70n, 1n, 2n, 86400n, false];
no(b.m.tx(D, 'upgrade', [impl('NttManager', bad)]), 'an upgrade that changes the mode'); ok(b.m.tx(D, 'upgrade', [impl('MgrMig', cfg)]), 'an upgrade that announces new immutables');
ok(b.m.tx(D, 'upgrade', [impl('NttManager', cfg)]), 'a plain upgrade'); no(b.m.tx(D, 'upgrade', [impl('NttManager', bad)]), 'an upgrade that changes the mode after an announced migration');
""", evm=True)

bug("c43-fee-event", "C43", [(N, """            totalPriceQuote,
            destinationChain,
            seq
        );""", """            msg.value,
            destinationChain,
            seq
        );""")],
    "a sender pays more than the quoted delivery price",
    "TransferSent reports the payment before the refund as the fee",
    """
const b = manager(), n = b.W.logs.length; ok(b.send(U1, E18, { value: 100n }), 'transfer');
const l = b.W.logs.slice(n).filter(l => l.s === 'TransferSent(bytes32,bytes32,uint256,uint256,uint16,uint64)'); check(l.length === 1, 'events: ' + l.length); const fee = l[0].v[3]; check(fee === 12n, 'the event reports a fee of ' + fee + ' for a price of 12');
""", evm=True)
