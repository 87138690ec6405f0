// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

// bodies are supplied by the engine (engine/natives.mjs)
library BytesParsing {
    error OutOfBounds(uint256 offset, uint256 length);
    error LengthMismatch(uint256 encodedLength, uint256 expectedLength);
    error InvalidBoolVal(uint8 val);
    function checkBound(uint offset, uint length) internal pure { if (offset > length) revert OutOfBounds(offset, length); }
    function checkLength(bytes memory encoded, uint expected) internal pure { if (encoded.length != expected) revert LengthMismatch(encoded.length, expected); }
    function sliceUnchecked(bytes memory encoded, uint offset, uint length) internal pure returns (bytes memory ret, uint nextOffset) {}
    function slice(bytes memory encoded, uint offset, uint length) internal pure returns (bytes memory ret, uint nextOffset) { (ret, nextOffset) = sliceUnchecked(encoded, offset, length); checkBound(nextOffset, encoded.length); }
    function _word(bytes memory encoded, uint offset, uint n) private pure returns (uint256) {}
    function _bool(uint8 v) private pure returns (bool) { if (v > 1) revert InvalidBoolVal(v); return v == 1; }
    function asAddressUnchecked(bytes memory encoded, uint offset) internal pure returns (address, uint) { return (address(uint160(_word(encoded, offset, 20))), offset + 20); }
    function asAddress(bytes memory encoded, uint offset) internal pure returns (address ret, uint nextOffset) { (ret, nextOffset) = asAddressUnchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBoolUnchecked(bytes memory encoded, uint offset) internal pure returns (bool, uint) { return (_bool(uint8(_word(encoded, offset, 1))), offset + 1); }
    function asBool(bytes memory encoded, uint offset) internal pure returns (bool ret, uint nextOffset) { (ret, nextOffset) = asBoolUnchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint8Unchecked(bytes memory encoded, uint offset) internal pure returns (uint8, uint) { return (uint8(_word(encoded, offset, 1)), offset + 1); }
    function asUint8(bytes memory encoded, uint offset) internal pure returns (uint8 ret, uint nextOffset) { (ret, nextOffset) = asUint8Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes1Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes1, uint) { return (bytes1(uint8(_word(encoded, offset, 1))), offset + 1); }
    function asBytes1(bytes memory encoded, uint offset) internal pure returns (bytes1 ret, uint nextOffset) { (ret, nextOffset) = asBytes1Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint16Unchecked(bytes memory encoded, uint offset) internal pure returns (uint16, uint) { return (uint16(_word(encoded, offset, 2)), offset + 2); }
    function asUint16(bytes memory encoded, uint offset) internal pure returns (uint16 ret, uint nextOffset) { (ret, nextOffset) = asUint16Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes2Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes2, uint) { return (bytes2(uint16(_word(encoded, offset, 2))), offset + 2); }
    function asBytes2(bytes memory encoded, uint offset) internal pure returns (bytes2 ret, uint nextOffset) { (ret, nextOffset) = asBytes2Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint24Unchecked(bytes memory encoded, uint offset) internal pure returns (uint24, uint) { return (uint24(_word(encoded, offset, 3)), offset + 3); }
    function asUint24(bytes memory encoded, uint offset) internal pure returns (uint24 ret, uint nextOffset) { (ret, nextOffset) = asUint24Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes3Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes3, uint) { return (bytes3(uint24(_word(encoded, offset, 3))), offset + 3); }
    function asBytes3(bytes memory encoded, uint offset) internal pure returns (bytes3 ret, uint nextOffset) { (ret, nextOffset) = asBytes3Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint32Unchecked(bytes memory encoded, uint offset) internal pure returns (uint32, uint) { return (uint32(_word(encoded, offset, 4)), offset + 4); }
    function asUint32(bytes memory encoded, uint offset) internal pure returns (uint32 ret, uint nextOffset) { (ret, nextOffset) = asUint32Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes4Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes4, uint) { return (bytes4(uint32(_word(encoded, offset, 4))), offset + 4); }
    function asBytes4(bytes memory encoded, uint offset) internal pure returns (bytes4 ret, uint nextOffset) { (ret, nextOffset) = asBytes4Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint64Unchecked(bytes memory encoded, uint offset) internal pure returns (uint64, uint) { return (uint64(_word(encoded, offset, 8)), offset + 8); }
    function asUint64(bytes memory encoded, uint offset) internal pure returns (uint64 ret, uint nextOffset) { (ret, nextOffset) = asUint64Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes8Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes8, uint) { return (bytes8(uint64(_word(encoded, offset, 8))), offset + 8); }
    function asBytes8(bytes memory encoded, uint offset) internal pure returns (bytes8 ret, uint nextOffset) { (ret, nextOffset) = asBytes8Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint96Unchecked(bytes memory encoded, uint offset) internal pure returns (uint96, uint) { return (uint96(_word(encoded, offset, 12)), offset + 12); }
    function asUint96(bytes memory encoded, uint offset) internal pure returns (uint96 ret, uint nextOffset) { (ret, nextOffset) = asUint96Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes12Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes12, uint) { return (bytes12(uint96(_word(encoded, offset, 12))), offset + 12); }
    function asBytes12(bytes memory encoded, uint offset) internal pure returns (bytes12 ret, uint nextOffset) { (ret, nextOffset) = asBytes12Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint128Unchecked(bytes memory encoded, uint offset) internal pure returns (uint128, uint) { return (uint128(_word(encoded, offset, 16)), offset + 16); }
    function asUint128(bytes memory encoded, uint offset) internal pure returns (uint128 ret, uint nextOffset) { (ret, nextOffset) = asUint128Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes16Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes16, uint) { return (bytes16(uint128(_word(encoded, offset, 16))), offset + 16); }
    function asBytes16(bytes memory encoded, uint offset) internal pure returns (bytes16 ret, uint nextOffset) { (ret, nextOffset) = asBytes16Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint160Unchecked(bytes memory encoded, uint offset) internal pure returns (uint160, uint) { return (uint160(_word(encoded, offset, 20)), offset + 20); }
    function asUint160(bytes memory encoded, uint offset) internal pure returns (uint160 ret, uint nextOffset) { (ret, nextOffset) = asUint160Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes20Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes20, uint) { return (bytes20(uint160(_word(encoded, offset, 20))), offset + 20); }
    function asBytes20(bytes memory encoded, uint offset) internal pure returns (bytes20 ret, uint nextOffset) { (ret, nextOffset) = asBytes20Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint192Unchecked(bytes memory encoded, uint offset) internal pure returns (uint192, uint) { return (uint192(_word(encoded, offset, 24)), offset + 24); }
    function asUint192(bytes memory encoded, uint offset) internal pure returns (uint192 ret, uint nextOffset) { (ret, nextOffset) = asUint192Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes24Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes24, uint) { return (bytes24(uint192(_word(encoded, offset, 24))), offset + 24); }
    function asBytes24(bytes memory encoded, uint offset) internal pure returns (bytes24 ret, uint nextOffset) { (ret, nextOffset) = asBytes24Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asUint256Unchecked(bytes memory encoded, uint offset) internal pure returns (uint256, uint) { return (uint256(_word(encoded, offset, 32)), offset + 32); }
    function asUint256(bytes memory encoded, uint offset) internal pure returns (uint256 ret, uint nextOffset) { (ret, nextOffset) = asUint256Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
    function asBytes32Unchecked(bytes memory encoded, uint offset) internal pure returns (bytes32, uint) { return (bytes32(uint256(_word(encoded, offset, 32))), offset + 32); }
    function asBytes32(bytes memory encoded, uint offset) internal pure returns (bytes32 ret, uint nextOffset) { (ret, nextOffset) = asBytes32Unchecked(encoded, offset); checkBound(nextOffset, encoded.length); }
}
