// SPDX-License-Identifier: Apache 2
pragma solidity >=0.8.8 <0.9.0;
import "repo/libraries/TransceiverStructs.sol";
import "repo/libraries/TrimmedAmount.sol";

/// Exposes the message codecs and the amount type of the repository to the checks.
contract Wire {
    using TrimmedAmountLib for TrimmedAmount;
    using TrimmedAmountLib for uint256;

    function encMessage(TransceiverStructs.NttManagerMessage memory m) external pure returns (bytes memory) { return TransceiverStructs.encodeNttManagerMessage(m); }
    function decMessage(bytes memory b) external pure returns (TransceiverStructs.NttManagerMessage memory) { return TransceiverStructs.parseNttManagerMessage(b); }
    function digest(uint16 chain, TransceiverStructs.NttManagerMessage memory m) external pure returns (bytes32) { return TransceiverStructs.nttManagerMessageDigest(chain, m); }
    function encTransfer(TransceiverStructs.NativeTokenTransfer memory m) external pure returns (bytes memory) { return TransceiverStructs.encodeNativeTokenTransfer(m); }
    function decTransfer(bytes memory b) external pure returns (TransceiverStructs.NativeTokenTransfer memory) { return TransceiverStructs.parseNativeTokenTransfer(b); }
    function encXcvr(bytes4 p, TransceiverStructs.TransceiverMessage memory m) external pure returns (bytes memory) { return TransceiverStructs.encodeTransceiverMessage(p, m); }
    function buildXcvr(bytes4 p, bytes32 a, bytes32 b, bytes memory m, bytes memory t) external pure returns (TransceiverStructs.TransceiverMessage memory, bytes memory) { return TransceiverStructs.buildAndEncodeTransceiverMessage(p, a, b, m, t); }
    function decXcvr(bytes4 p, bytes memory b) external pure returns (TransceiverStructs.TransceiverMessage memory) { return TransceiverStructs.parseTransceiverMessage(p, b); }
    function decBoth(bytes4 p, bytes memory b) external pure returns (TransceiverStructs.TransceiverMessage memory, TransceiverStructs.NttManagerMessage memory) { return TransceiverStructs.parseTransceiverAndNttManagerMessage(p, b); }
    function encInstruction(TransceiverStructs.TransceiverInstruction memory i) external pure returns (bytes memory) { return TransceiverStructs.encodeTransceiverInstruction(i); }
    function decInstruction(bytes memory b) external pure returns (TransceiverStructs.TransceiverInstruction memory) { return TransceiverStructs.parseTransceiverInstructionChecked(b); }
    function encInstructions(TransceiverStructs.TransceiverInstruction[] memory l) external pure returns (bytes memory) { return TransceiverStructs.encodeTransceiverInstructions(l); }
    function decInstructions(bytes memory b, uint256 n) external pure returns (TransceiverStructs.TransceiverInstruction[] memory) { return TransceiverStructs.parseTransceiverInstructions(b, n); }
    function encInit(TransceiverStructs.TransceiverInit memory i) external pure returns (bytes memory) { return TransceiverStructs.encodeTransceiverInit(i); }
    function decInit(bytes memory b) external pure returns (TransceiverStructs.TransceiverInit memory) { return TransceiverStructs.decodeTransceiverInit(b); }
    function encRegistration(TransceiverStructs.TransceiverRegistration memory i) external pure returns (bytes memory) { return TransceiverStructs.encodeTransceiverRegistration(i); }
    function decRegistration(bytes memory b) external pure returns (TransceiverStructs.TransceiverRegistration memory) { return TransceiverStructs.decodeTransceiverRegistration(b); }

    function pack(uint64 a, uint8 d) external pure returns (TrimmedAmount) { return packTrimmedAmount(a, d); }
    function amountOf(TrimmedAmount a) external pure returns (uint64) { return a.getAmount(); }
    function decimalsOf(TrimmedAmount a) external pure returns (uint8) { return a.getDecimals(); }
    function trim(uint256 a, uint8 from, uint8 to) external pure returns (TrimmedAmount) { return a.trim(from, to); }
    function untrim(TrimmedAmount a, uint8 to) external pure returns (uint256) { return a.untrim(to); }
    function shift(TrimmedAmount a, uint8 to) external pure returns (TrimmedAmount) { return a.shift(to); }
    function maxOf(uint8 d) external pure returns (TrimmedAmount) { return TrimmedAmountLib.max(d); }
    function isNull(TrimmedAmount a) external pure returns (bool) { return a.isNull(); }
    function gtOf(TrimmedAmount a, TrimmedAmount b) external pure returns (bool) { return a > b; }
    function ltOf(TrimmedAmount a, TrimmedAmount b) external pure returns (bool) { return a < b; }
    function eqOf(TrimmedAmount a, TrimmedAmount b) external pure returns (bool) { return a == b; }
    function addOf(TrimmedAmount a, TrimmedAmount b) external pure returns (TrimmedAmount) { return a + b; }
    function subOf(TrimmedAmount a, TrimmedAmount b) external pure returns (TrimmedAmount) { return a - b; }
    function minOf(TrimmedAmount a, TrimmedAmount b) external pure returns (TrimmedAmount) { return a.min(b); }
    function satOf(TrimmedAmount a, TrimmedAmount b) external pure returns (TrimmedAmount) { return a.saturatingAdd(b); }
}
