// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

error NotAnEvmAddress(bytes32);
function toWormholeFormat(address addr) pure returns (bytes32) { return bytes32(uint256(uint160(addr))); }
function fromWormholeFormat(bytes32 whFormatAddress) pure returns (address) {
    if (uint256(whFormatAddress) >> 160 != 0) { revert NotAnEvmAddress(whFormatAddress); }
    return address(uint160(uint256(whFormatAddress)));
}
